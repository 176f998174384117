/*UNIT
{"mode": "complete", "timeout": 200, "unwind": 1, "search": 20,
 "stubs": {"ms3_detect": "stub_detect", "msr3_unpack_mseed3": "stub_unpack3", "msr3_unpack_mseed2": "stub_unpack2"},
 "proved_elsewhere": ["ms3_detect", "msr3_unpack_mseed3", "msr3_unpack_mseed2"],
 "functions": ["msr3_parse", "msr3_free"],
 "note": "loop free: complete for buffers of any length"}
*/
/* Contract of msr3_parse(): the unpacker of the detected version is called with the detected
 * length, only when that length is in the supported range and lies within the buffer; else
 * nothing is unpacked and the result is an error or the number of bytes missing. */
#include "vp.h"
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "msrutils.c"
#include "parseutils.c"
#undef malloc
#undef free
static uint64_t g_len;
static int64_t g_det;
static uint8_t g_fv;
static int g_err, g_n3, g_n2, g_len_passed;
static uint32_t g_flags;
static const char *g_p;
static MS3Record **g_pp, *g_rec;
int64_t
stub_detect (const char *record, uint64_t len, uint8_t *fv)
{
  VP_ASSERT (record == g_p && len == g_len, "detection within the buffer");
  *fv = g_fv;
  return g_det;
}
static int64_t
unpacker (const char *record, int reclen, MS3Record **pp, uint32_t flags)
{
  VP_ASSERT (record == g_p && flags == g_flags && pp == g_pp, "buffer, record and flags passed on");
  VP_ASSERT (reclen >= MINRECLEN && reclen <= MAXRECLEN && (uint64_t)reclen <= g_len, "length within the range and the buffer");
  g_len_passed = reclen;
  *pp = g_rec;
  return g_err;
}
int64_t stub_unpack3 (const char *r, int l, MS3Record **pp, uint32_t f, int8_t v) { g_n3++; return unpacker (r, l, pp, f); }
int64_t stub_unpack2 (const char *r, int l, MS3Record **pp, uint32_t f, int8_t v) { g_n2++; return unpacker (r, l, pp, f); }
#ifdef VP_NATIVE
/* the same contracts on the real callees */
#endif
void
harness (void)
{
  uint64_t len = vp_u (0, VP_SZ ((1ull << 40), 4096));
  uint32_t flags = vp_bool () ? vp_u32 () : MSF_ATENDOFFILE;
#ifdef VP_CBMC
  char *p = malloc (len);
  __CPROVER_assume (p != NULL);
#else
  if (vp_bool ()) len = 1ull << vp_u (6, 12);
  char *p = vp_buf (len);
#endif
  g_fv = (uint8_t)vp_u (0, 2);
  g_fv += g_fv > 0;
  g_det = g_fv ? vp_i (-1, 1ll << 62) : -1;
#ifdef VP_NATIVE
  if (len >= 48 && vp_bool ())
  {
    memcpy (p, "000001D ", 8);
    p[24] %= 24; p[25] = (uint8_t)p[25] % 60; p[26] = (uint8_t)p[26] % 61;
    p[20] = 2000 / 256; p[21] = 2000 % 256; p[22] = 0; p[23] = 9; p[44] = 0; p[45] = 0; p[46] = 0; p[47] = vp_bool () ? 48 : 0;
    if (len >= 56) { p[48] = 3; p[49] = 0xe8; p[50] = p[51] = 0; p[54] = vp_u (5, 13); }
    memset (p + 30, 0, 2);
  }
  else if (len >= 40)
  {
    memcpy (p, "MS\3", 3);
    p[12] = (uint8_t)p[12] % 24; p[13] = (uint8_t)p[13] % 60; p[14] = (uint8_t)p[14] % 61;
    p[8] = 2000 % 256; p[9] = 2000 / 256; p[10] = 9; p[11] = 0; p[7] = 0;
    p[33] = vp_u (0, 10); p[34] = vp_u (0, 10); p[35] = 0; p[38] = p[39] = 0;
    if (vp_bool ()) { int d = (int)len - 40 - p[33] - p[34] + (int)vp_i (-2, 2); if (d > 0) p[36] = d, p[37] = d >> 8; }
    flags &= ~(uint32_t)MSF_VALIDATECRC;
  }
  if (len >= 40)
    g_det = ms3_detect (p, len, &g_fv);
  else
    g_det = -1, g_fv = 0;
#endif
  g_len = len;
  g_flags = flags;
  g_p = p;
  MS3Record *m = NULL, **pp = vp_alloc (sizeof (MS3Record *));
  *pp = NULL;
  g_pp = pp;
  g_err = vp_bool () ? 0 : (int)vp_i (-20, -1);
  g_rec = malloc (sizeof (MS3Record));
  VP_ASSUME (g_rec != NULL);
  g_rec->extra = NULL;
  g_rec->datasamples = NULL;
  int r = msr3_parse (p, len, pp, flags, 0);
  /* length implied by the end of the input */
  int64_t want = (g_fv == 2 && g_det == 0 && (flags & MSF_ATENDOFFILE) && len != 0 && (len & (len - 1)) == 0 && len <= MAXRECLEN) ? (int64_t)len : g_det;
  int unpacked = want >= MINRECLEN && want <= MAXRECLEN && (uint64_t)want <= len;
  if (want < 0)
    VP_ASSERT (r == MS_NOTSEED, "no record");
  else if (want == 0)
    VP_ASSERT (r == MINRECLEN, "more bytes needed to find the length");
  else if (want < MINRECLEN || want > MAXRECLEN)
    VP_ASSERT (r == MS_OUTOFRANGE, "length out of range");
  else if ((uint64_t)want > len)
    VP_ASSERT (r > 0 && (r == want - (int64_t)len), "bytes missing");
#ifdef VP_CBMC
  VP_ASSERT (g_n3 == (unpacked && g_fv == 3) && g_n2 == (unpacked && g_fv == 2), "unpacker of the version detected");
  if (unpacked)
  {
    VP_ASSERT (g_len_passed == want, "length passed on");
    VP_ASSERT (r == g_err, "status passed on");
    VP_ASSERT (*pp == (g_err ? NULL : g_rec), "record returned, or released on error");
    VP_REACH ("unpacked");
  }
#else
  if (unpacked)
  {
    VP_ASSERT (r <= 0, "status");
    VP_ASSERT (r < 0 ? *pp == NULL : (*pp && (*pp)->reclen == want && (*pp)->formatversion == g_fv), "record returned, or released on error");
  }
  msr3_free (pp);
  free (g_rec);
#endif
}
