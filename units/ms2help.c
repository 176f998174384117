/*UNIT
{"mode": "complete", "unwind": 66, "timeout": 300, "cbmc": ["--object-bits", "8"],
 "variants": {"sid": {"defs": ["V_SID"], "functions": ["ms2_recordsid", "ms_nslc2sid", "ms_seedchan2xchan", "ms_strncpclean"], "cbmc": ["--sat-solver", "cadical"]},
              "misc": {"split": [{"match": "vp: rate", "flags": ["--cvc5"]}], "functions": ["ms_nomsamprate", "ms_btime2nstime", "ms2_blktlen"], "stubs": {"ms_time2nstime": "stub_t2n"}, "proved_elsewhere": ["ms_time2nstime"]}}}
*/
/* Contracts of the functions msr3_unpack_mseed2() is built from: every input, loops over
 * the fixed-length codes unwound completely. */
#include "vp.h"
#include "c_ms2.h"
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "unpack.c"
#undef malloc
#undef free
static int t_year, t_yday, t_h, t_m, t_s;
static uint32_t t_ns;
static int64_t t_ret;
#ifdef VP_CBMC
nstime_t
stub_t2n (int year, int yday, int hour, int min, int sec, uint32_t nsec)
{
  t_year = year, t_yday = yday, t_h = hour, t_m = min, t_s = sec, t_ns = nsec;
  return t_ret;
}
#endif
static void
ref_sid (char *o, int *ascii)
{
  static const int at[3] = {18, 8, 13}, n[3] = {2, 5, 2};
  int k = 0;
  o[k++] = 'F', o[k++] = 'D', o[k++] = 'S', o[k++] = 'N', o[k++] = ':';
  for (int f = 0; f < 3; f++)
  {
    for (int i = 0; i < n[f] && M8 (at[f] + i); i++)
    {
      if (M8 (at[f] + i) >= 0x80)
        *ascii = 0;
      if (M8 (at[f] + i) != ' ')
        o[k++] = (char)M8 (at[f] + i);
    }
    o[k++] = '_';
  }
  for (int i = 0; i < 3 && M8 (15 + i); i++)
  {
    o[k++] = (char)M8 (15 + i);
    if (i < 2)
      o[k++] = '_';
  }
  o[k] = 0;
}
void
harness (void)
{
#ifdef V_SID
  char *p = vp_buf (20), *sid = vp_alloc (LM_SIDLEN), ref[40];
  int ascii = 1, i = 0;
  ms2_rec = p;
  memset (ref, 0, sizeof ref);
  ref_sid (ref, &ascii);
  char *r = ms2_recordsid (p, sid, LM_SIDLEN);
  VP_ASSERT (r == sid, "identifier returned");
  if (ascii)
    for (i = 0; i < 40; i++)
    {
      VP_ASSERT (sid[i] == ref[i], "identifier of the trimmed codes");
      if (!ref[i])
        break;
    }
  if (ascii && i > 15)
    VP_REACH ("end");
#else
  int f = (int16_t)vp_u16 (), m = (int16_t)vp_u16 ();
  double r = ms_nomsamprate (f, m);
  /* negative values are divisors */
  double base = f > 0 ? (double)f : f < 0 ? -1.0 / (double)f : 0.0;
  VP_ASSERT (r == (m > 0 ? base * (double)m : m < 0 ? -1.0 * (base / (double)m) : base), "rate of factor and multiplier");
  uint8_t *bt = vp_buf (10);
  int be = vp_bool ();
  ms2_rec = (char *)bt;
  uint32_t year = M16 (0, be), fr = M16 (8, be);
#ifdef VP_CBMC
  t_ret = vp_i (INT64_MIN, INT64_MAX);
  int64_t t = ms_btime2nstime (bt, be);
  VP_ASSERT (year == 0 ? t == NSTUNSET : fr > 9999 ? t == NSTERROR : t == t_ret, "time of the fields");
  VP_ASSERT (VP_IMP (year != 0 && fr <= 9999, t_year == (int)year && t_yday == (int)M16 (2, be) && t_h == (int)M8 (4) && t_m == (int)M8 (5) && t_s == (int)M8 (6) && t_ns == fr * 100000), "fields of the time");
#else
  t_ret = year == 0 ? NSTUNSET : fr > 9999 ? NSTERROR : ms_time2nstime ((int)year, (int)M16 (2, be), (int)M8 (4), (int)M8 (5), (int)M8 (6), fr * 100000);
  VP_ASSERT (ms_btime2nstime (bt, be) == t_ret, "time of the fields");
#endif
  uint16_t type = vp_u16 ();
  uint16_t l = ms2_blktlen (type, (char *)bt, be);
  VP_ASSERT (l == (type == 2000 ? (uint16_t)M16 (4, be) : ms2_blen (type)), "blockette length");
  VP_REACH ("end");
#endif
}
