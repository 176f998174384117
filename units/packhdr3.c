/*UNIT
{"mode": "complete", "timeout": 400, "unwind": 66, "search": 15,
 "split": [{"match": "^harness", "each": true}],
 "ignore": "pointer_arithmetic|pointer relation",
 "stubs": {"ms_nstime2time": "stub_time"},
 "proved_elsewhere": ["ms_nstime2time"],
 "functions": ["msr3_pack_header3"],
 "note": "the only loop is strlen() of an identifier of at most 63 characters: complete for extra headers and buffers of any length; the quotient stored for rates between 0 and 1 is checked at run time only"}
*/
/* Contract of msr3_pack_header3() for every record description and buffer size, against the field
 * layout of the format (the one msr3_unpack_mseed3() is proved to read). */
#include "vp.h"
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "msrutils.c"
#include "pack.c"
#undef malloc
#undef free
static uint16_t g_y, g_d;
static uint8_t g_h, g_m, g_s;
static uint32_t g_ns;
static int g_tr, g_nt;
static nstime_t g_t;
int
stub_time (nstime_t t, uint16_t *y, uint16_t *d, uint8_t *h, uint8_t *m, uint8_t *s, uint32_t *ns)
{
  VP_ASSERT (t == g_t, "start time converted");
  *y = g_y, *d = g_d, *h = g_h, *m = g_m, *s = g_s, *ns = g_ns;
  g_nt++;
  return g_tr;
}
static double
vp_double (void)
{
#ifdef VP_CBMC
  double d;
  uint64_t b;
  memcpy (&b, &d, 8);
  vp_log = b;
#else
  uint64_t b = vp_u64 ();
  double d;
  memcpy (&d, &b, 8);
#endif
  return d;
}
#define U16(o) ((uint32_t)p[o] | (uint32_t)p[(o) + 1] << 8)
#define U32(o) (U16 (o) | U16 ((o) + 2) << 16)
#define U64(o) ((uint64_t)U32 (o) | (uint64_t)U32 ((o) + 4) << 32)
void
harness (void)
{
  static MS3Record m;
  uint32_t n = (uint32_t)vp_u (0, VP_SZ (UINT32_MAX, 400)), len = (uint32_t)vp_u (0, 63);
  uint16_t xl = (uint16_t)vp_u (0, VP_SZ (65535, 300));
  m.extralength = vp_bool () ? xl : 0;
  m.extra = NULL;
  if (m.extralength)
  {
#ifdef VP_CBMC
    m.extra = vp_alloc (m.extralength);
#else
    m.extra = vp_buf (m.extralength);
#endif
  }
#ifdef VP_CBMC
  MS3Record any;
  memcpy (m.sid, any.sid, sizeof m.sid);
  uint8_t *p = malloc (n);
  __CPROVER_assume (p != NULL);
#else
  for (uint32_t i = 0; i < len; i++)
    m.sid[i] = (char)vp_u (32, 126);
  if (vp_bool ())
    n = 40 + len + m.extralength + (uint32_t)vp_u (0, 3);
  uint8_t *p = vp_buf (n);
#endif
  m.sid[len] = 0;
  for (int i = 0; i < 63; i++)
    if (i < (int)len)
      VP_ASSUME (m.sid[i] != 0);
  m.reclen = vp_bool () ? -1 : (int32_t)vp_i (INT32_MIN, INT32_MAX);
  if (vp_bool ())
    m.reclen = 4096;
  m.flags = vp_u8 ();
  m.pubversion = vp_u8 ();
  m.encoding = (int16_t)vp_i (-1, 255);
  m.starttime = g_t = vp_i (INT64_MIN, INT64_MAX);
  m.samprate = vp_bool () ? (double)vp_i (-1000, 1000) / 8.0 : vp_double ();
  uint32_t k = (uint32_t)vp_u (0, 70000), e = (uint32_t)vp_u (0, 65535), j = (uint32_t)vp_u (0, 62);
  uint8_t before = k < n ? p[k] : 0;
#ifdef VP_CBMC
  g_y = vp_u16 (), g_d = vp_u16 (), g_h = vp_u8 (), g_m = vp_u8 (), g_s = vp_u8 (), g_ns = vp_u32 ();
  g_tr = -(int)vp_bool ();
#else
  g_tr = ms_nstime2time (g_t, &g_y, &g_d, &g_h, &g_m, &g_s, &g_ns);
#endif
  double rate = m.samprate, want = rate;
#ifndef VP_CBMC
  if (rate > 0 && rate < 1.0)
    want = -1.0 / rate;
#endif
  uint64_t bits;
  memcpy (&bits, &want, 8);
  int r = msr3_pack_header3 (&m, (char *)p, n, 0);
  int64_t total = 40 + (int64_t)len + m.extralength;
  int ok = (m.reclen < 0 || (m.reclen >= 40 && m.reclen <= 10485760)) && n >= total && g_tr == 0;
  VP_ASSERT (r == (ok ? total : -1), "header length, or refused exactly if the record length, the buffer or the time does not allow it");
  VP_ASSERT (VP_IMP (k < n && (!ok || k >= total), p[k] == before || (!ok && k < total)), "nothing written after the header");
  if (!ok)
    return;
  VP_ASSERT (p[0] == 'M' && p[1] == 'S' && p[2] == 3, "signature");
  VP_ASSERT (p[3] == m.flags && p[32] == m.pubversion && p[33] == len && U16 (34) == m.extralength, "flags, version and lengths");
  VP_ASSERT (U32 (4) == g_ns && U16 (8) == g_y && U16 (10) == g_d && p[12] == g_h && p[13] == g_m && p[14] == g_s, "start time");
  VP_ASSERT (p[15] == (m.encoding < 0 ? 11 : m.encoding), "encoding");
#ifdef VP_CBMC /* the quotient stored for rates between 0 and 1 is beyond the solvers: native only */
  VP_ASSERT (VP_IMP (!(rate > 0 && rate < 1.0), U64 (16) == bits || want != want), "sample rate");
#else
  VP_ASSERT (U64 (16) == bits || want != want, "sample rate, or period if less than one");
#endif
  VP_ASSERT (VP_IMP (j < len, (char)p[40 + j] == m.sid[j]), "identifier");
  VP_ASSERT (VP_IMP (e < m.extralength, (char)p[40 + len + e] == m.extra[e]), "extra headers");
  if (m.extralength > 5 && len > 60)
    VP_REACH ("end");
}
