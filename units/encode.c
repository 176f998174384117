/*UNIT
{"enforce": ["msr_pack_data"], "timeout": 200,
 "functions": ["msr_pack_data"],
 "variants": {
  "text":    {"defs": ["ENC=0"], "functions": ["msr_encode_text"]},
  "int16":   {"defs": ["ENC=1"], "functions": ["msr_encode_int16"]},
  "int32":   {"defs": ["ENC=3"], "functions": ["msr_encode_int32"]},
  "float32": {"defs": ["ENC=4"], "functions": ["msr_encode_float32"]},
  "float64": {"defs": ["ENC=5"], "functions": ["msr_encode_float64"]}},
 "bounded": {"unwind": 34, "note": "up to 4 samples, 32 output bytes"}}
*/
/* Contract of msr_pack_data() for every encoding with a fixed sample length:
 * any sample count and any payload size up to 2^32-1, either byte order. */
#include "vp.h"

static uint64_t g_k; /* ghost: arbitrary sample index */
static uint64_t g_s; /* ghost: the encoded bytes of that sample, as read back by format definition */

#define B1(p, i) ((uint64_t)((const uint8_t *)(p))[i])

#if ENC == 0
#define WENC 1
#define WSRC 1
#define STYPE 't'
typedef uint8_t src_t;
#define EXPECT(v) ((uint64_t)(v))
#elif ENC == 1
#define WENC 2
#define WSRC 4
#define STYPE 'i'
typedef uint32_t src_t;
#define EXPECT(v) ((uint64_t)(uint16_t)(v))
#elif ENC == 3 || ENC == 4
#define WENC 4
#define WSRC 4
#define STYPE (ENC == 3 ? 'i' : 'f')
typedef uint32_t src_t;
#define EXPECT(v) ((uint64_t)(v))
#elif ENC == 5
#define WENC 8
#define WSRC 8
#define STYPE 'd'
typedef uint64_t src_t;
#define EXPECT(v) ((uint64_t)(v))
#endif

/* the k-th encoded value, read in the byte order of the payload */
#if ENC == 0
#define ENC_AT(p, k, be) B1 (p, k)
#elif ENC == 1
#define ENC_AT(p, k, be) ((be) ? (B1 (p, 2 * (k)) << 8 | B1 (p, 2 * (k) + 1)) : (B1 (p, 2 * (k) + 1) << 8 | B1 (p, 2 * (k))))
#elif ENC == 3 || ENC == 4
#define W_BE(p, o) (B1 (p, o) << 24 | B1 (p, (o) + 1) << 16 | B1 (p, (o) + 2) << 8 | B1 (p, (o) + 3))
#define W_LE(p, o) (B1 (p, (o) + 3) << 24 | B1 (p, (o) + 2) << 16 | B1 (p, (o) + 1) << 8 | B1 (p, o))
#define ENC_AT(p, k, be) ((be) ? W_BE (p, 4 * (k)) : W_LE (p, 4 * (k)))
#else
#define W_BE(p, o) (B1 (p, o) << 24 | B1 (p, (o) + 1) << 16 | B1 (p, (o) + 2) << 8 | B1 (p, (o) + 3))
#define W_LE(p, o) (B1 (p, (o) + 3) << 24 | B1 (p, (o) + 2) << 16 | B1 (p, (o) + 1) << 8 | B1 (p, o))
#define ENC_AT(p, k, be) ((be) ? (W_BE (p, 8 * (k)) << 32 | W_BE (p, 8 * (k) + 4)) : (W_LE (p, 8 * (k) + 4) << 32 | W_LE (p, 8 * (k))))
#endif

#ifdef VP_CONTRACT
#define ENCODE_LOOP                                                                          \
  __CPROVER_assigns (idx, outputlength, __CPROVER_object_whole (output))                     \
  __CPROVER_loop_invariant (idx <= samplecount && outputlength == __CPROVER_loop_entry (outputlength) - (uint64_t)WENC * idx && (uint64_t)WENC * idx <= __CPROVER_loop_entry (outputlength)) \
  __CPROVER_loop_invariant (VP_IMP (g_k < idx, ENC_AT (output, g_k, swapflag) == g_s))       \
  __CPROVER_decreases (samplecount - idx)
#define LMV_LOOP_encode_int16   ENCODE_LOOP
#define LMV_LOOP_encode_int32   ENCODE_LOOP
#define LMV_LOOP_encode_float32 ENCODE_LOOP
#define LMV_LOOP_encode_float64 ENCODE_LOOP
#endif

#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "packdata.c"
#include "pack.c"

static int
post_encode (const void *src, uint64_t n, const void *dest, uint64_t room, char sampletype, int be,
             uint32_t byteswritten, int64_t ret)
{
  uint64_t fit = (n < room / WENC) ? n : room / WENC;

  if (sampletype != STYPE && !(ENC == 0 && sampletype == 'a'))
    return ret < 0 && byteswritten == 0;
  if (room < WENC)
    return ret <= 0 && byteswritten == 0;
  return ret == (int64_t)fit && byteswritten == fit * WENC && VP_IMP (g_k < fit, ENC_AT (dest, g_k, be) == g_s);
}

#ifdef VP_CONTRACT
int64_t msr_pack_data (void *dest, void *src, uint64_t maxsamples, uint64_t maxdatabytes,
                       char sampletype, int8_t encoding, int8_t swapflag,
                       uint32_t *byteswritten, const char *sid, int8_t verbose)
__CPROVER_requires (encoding == ENC && maxsamples >= 1 && maxsamples <= INT32_MAX && maxdatabytes <= UINT32_MAX)
__CPROVER_assigns (*byteswritten, __CPROVER_object_whole (dest))
__CPROVER_ensures (post_encode (src, maxsamples, dest, maxdatabytes, sampletype, swapflag, *byteswritten, __CPROVER_return_value));
#endif

void
harness (void)
{
  uint64_t n    = vp_u (1, VP_MAX (INT32_MAX, 4));
  uint64_t room = vp_u (1, VP_MAX (UINT32_MAX, 32));
  int swap      = vp_bool ();
  char st       = (char)vp_u (0, 127);
  int8_t verb   = vp_bool () * 3;
  uint32_t bw   = 77;
  int64_t ret;
  g_k           = vp_u (0, VP_MAX (INT32_MAX, 3));
  void *src     = vp_buf (n * WSRC);
  void *dest    = vp_alloc (room);

  g_s = (g_k < n) ? EXPECT (((src_t *)src)[g_k]) : 0;
  ret = msr_pack_data (dest, src, n, room, st, ENC, swap, &bw, "", verb);
  VP_ASSERT (post_encode (src, n, dest, room, st, swap, bw, ret), "encoded payload reads back as the samples, in order, as many as fit");
  if (ret > 0)
    VP_REACH ("encoded");
  vp_release (src);
  vp_release (dest);
}
