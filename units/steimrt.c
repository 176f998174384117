/*UNIT
{"mode": "runtime", "search": 20, "procs": 4, "functions": ["msr_encode_steim1", "msr_encode_steim2", "msr_decode_steim1", "msr_decode_steim2"],
 "note": "series of up to 600 samples with differences of every width and at the limits of every width, payloads of up to 12 frames, both byte orders"}
*/
/* Contract of the encoder composed with the decoder: what is accepted is returned. */
#include "vp.h"
#include "repo.h"
#include "packdata.h"
#include "unpackdata.h"
#undef malloc
#undef free
static uint32_t
w32 (const uint32_t *p, int swap)
{
  return swap ? __builtin_bswap32 (*p) : *p;
}
void
harness (void)
{
  static const int W[] = {4, 5, 6, 8, 10, 15, 16, 30, 31, 32};
  int steim = 1 + vp_bool (), swap = vp_bool (), n = (int)(vp_bool () ? vp_u (1, 12) : vp_u (1, 600)), w = W[vp_u (0, 9)], mix = (int)vp_u (0, 3);
  uint64_t len = vp_u (0, 12) * 64 + (vp_bool () ? 0 : vp_u (0, 63));
  int32_t *in = vp_alloc (n * 4), *back = vp_alloc (n * 4);
  uint32_t *out = vp_alloc (len);
  int32_t d0 = vp_bool () ? 0 : (int32_t)vp_i (-600000000, 600000000), x = vp_bool () ? (int32_t)vp_u32 () : (int32_t)vp_i (-100, 100);
  uint32_t bytes = 77;
  int max = W[vp_u (0, 9)];
  for (int i = 0; i < n; i++)
  {
    if (i)
    {
      if (mix == 1 || (mix == 2 && vp_u (0, 7) == 0))
        w = W[vp_u (0, 9)];
      if (mix && w > max)
        w = max;
      int64_t lim = (int64_t)1 << (w - 1), d;
      uint64_t k = vp_u (0, 5);
      d = k == 0 ? -lim : k == 1 ? lim - 1 : k == 2 ? -lim - 1 : k == 3 ? lim : vp_i (-lim, lim - 1);
      if (k >= 2 && k <= 3 && w >= 30 && mix != 3)
        d = 0;
      x = (int32_t)((uint32_t)x + (uint32_t)d);
    }
    in[i] = x;
  }
  int64_t r = steim == 1 ? msr_encode_steim1 (in, n, (int32_t *)out, len, d0, &bytes, swap) : msr_encode_steim2 (in, n, (int32_t *)out, len, d0, &bytes, "", swap);
  int bad = n;
  if (steim == 2)
    for (int i = n - 1; i >= 0; i--)
    {
      int32_t d = i ? (int32_t)((uint32_t)in[i] - (uint32_t)in[i - 1]) : d0;
      if (d < -536870912 || d > 536870911)
        bad = i;
    }
  if (len < 64)
  {
    VP_ASSERT (r <= 0, "no sample without room for a frame");
    return;
  }
  VP_ASSERT (r == -1 || (r > 0 && r <= n), "samples encoded");
  VP_ASSERT (VP_IMP (r < 0, bad < n), "only differences that cannot be represented are refused");
  if (r < 0)
    return;
  VP_ASSERT (r <= bad, "differences that cannot be represented are refused");
  VP_ASSERT (bytes > 0 && bytes % 64 == 0 && bytes <= len && VP_IMP (r < n, bytes == len / 64 * 64), "bytes of the frames");
  VP_ASSERT (w32 (out + 1, swap) == (uint32_t)in[0] && w32 (out + 2, swap) == (uint32_t)in[r - 1], "integrity constants");
  int64_t q = steim == 1 ? msr_decode_steim1 ((int32_t *)out, bytes, r, back, r * 4, "", swap) : msr_decode_steim2 ((int32_t *)out, bytes, r, back, r * 4, "", swap);
  VP_ASSERT (q == r, "every sample decoded");
  VP_ASSERT (!memcmp (in, back, r * 4), "samples returned unchanged");
}
