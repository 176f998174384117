/*UNIT
{"mode": "complete", "timeout": 250, "functions": ["ms_sampletime", "msr3_endtime"], "search": 20,
 "variants": {"list": {"defs": ["V_LIST"], "mode": "runtime", "search": 15, "procs": 2, "note": "generated times, offsets, rates and tables of up to four leap seconds"},
              "span": {"defs": ["V_LIST", "V_SPAN"], "unwind": 6, "split": [{"match": "vp: ", "each": true, "flags": ["--cvc5"]}]},
              "table": {"defs": ["V_TABLE"], "mode": "runtime", "search": 1, "note": "no input: the evaluation is complete"},
              "end": {"defs": ["V_END"], "unwind": 2, "stubs": {"ms_sampletime": "stub_st"}, "proved_elsewhere": ["ms_sampletime"]}}}
*/
/* Contract of ms_sampletime() for every time, offset and rate without leap seconds (span), and for
 * generated times, spans and any ascending table of up to four leap seconds (list); the embedded table; and of msr3_endtime(). */
#include "vp.h"
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "msrutils.c"
#undef malloc
#undef free
#define NSEC 1000000000ll
#ifdef V_END
static int64_t s_t, s_o, s_ret;
static double s_r;
#ifdef VP_CBMC
nstime_t
stub_st (nstime_t t, int64_t o, double r)
{
  s_t = t, s_o = o, s_r = r;
  return s_ret;
}
#endif
#endif
void
harness (void)
{
#ifdef V_LIST
  LeapSecond ls[4];
  int n = (int)vp_u (0, 4), used = 0;
  int64_t t = vp_i (-8000000000ll * NSEC, 8000000000ll * NSEC), off = vp_i (-1000, 1ll << 40), span = 0;
  double rate;
#ifdef V_SPAN
  n = 0;
#endif
#ifdef VP_CBMC
  for (int i = 0; i < 4; i++)
#else
  switch (vp_u (0, 3))
  {
  case 0: rate = (double)vp_i (-100000, 100000); break;
  case 1: rate = (double)vp_i (-1000000, 1000000) / 1024.0; break;
  case 2: rate = -(double)vp_u (1, 1000000) * 100; break;
  default: rate = 1.0 / (double)vp_u (1, 1000000);
  }
  if (vp_bool ())
    off = (int64_t)vp_u (0, 200000);
  VP_ASSUME (fabs (rate > 0 ? (double)off / rate : (double)off * rate) < 4e9);
  if (off > 0 && rate != 0)
    span = (int64_t)((rate > 0 ? (double)off / rate : (double)off * -rate) * NSTMODULUS + 0.5);
  int64_t v[4];
  for (int i = 0; i < n; i++)
  {
    switch (vp_u (0, 3))
    {
    case 0: v[i] = t + vp_i (-2, 2); break;
    case 1: v[i] = t + span - (int64_t)vp_u (0, 5) * NSEC + vp_i (-2, 2); break;
    case 2: v[i] = t + vp_i (-1000, span + 1000); break;
    default: v[i] = vp_i (-4000000000ll * NSEC, 8000000000ll * NSEC);
    }
    for (int j = i; j > 0 && v[j] < v[j - 1]; j--)
    {
      int64_t x = v[j];
      v[j] = v[j - 1], v[j - 1] = x;
    }
  }
  span = 0;
  for (int i = 0; i < n; i++)
#endif
  {
#ifdef VP_CBMC
    ls[i].leapsecond = vp_i (-4000000000ll * NSEC, 8000000000ll * NSEC);
#else
    ls[i].leapsecond = v[i];
#endif
    if (i)
      VP_ASSUME (i >= n || ls[i].leapsecond > ls[i - 1].leapsecond);
    ls[i].next = i + 1 < n ? &ls[i + 1] : NULL;
  }
  leapsecondlist = n ? &ls[0] : NULL;
  int64_t r = ms_sampletime (t, off, rate);
  if (off > 0 && rate > 0)
    span = (int64_t)((double)off / rate * NSTMODULUS + 0.5);
  if (off > 0 && rate < 0)
    span = (int64_t)((double)off * -rate * NSTMODULUS + 0.5);
  for (int i = 0; i < 4; i++)
    if (i < n && t < ls[i].leapsecond && ls[i].leapsecond <= t + span - (used + 1) * NSEC)
      used++;
  VP_ASSERT (r == t + span - used * NSEC, "start plus offset less the leap seconds within");
#ifdef V_SPAN
  if (off > 0 && rate > 0)
#else
  if (n == 4 && used == 2)
#endif
   
    VP_REACH ("end");
#elif defined(V_TABLE)
  /* IERS Bulletin C: days on which a leap second has taken effect */
  static const struct { int y, m; } day[28] = {{1972, 1}, {1972, 7}, {1973, 1}, {1974, 1}, {1975, 1}, {1976, 1}, {1977, 1}, {1978, 1}, {1979, 1}, {1980, 1},
    {1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7}, {1994, 7}, {1996, 1}, {1997, 7}, {1999, 1},
    {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
  LeapSecond *l = leapsecondlist;
  for (int i = 0; i < 28; i++)
  {
    int y = day[i].y;
    int64_t d = 365 * (y - 1970) + (y - 1969) / 4 + (day[i].m == 7 ? 181 + (y % 4 == 0) : 0);
    VP_ASSERT (l && l->leapsecond == d * 86400 * NSEC && l->TAIdelta == 10 + i, "leap second of the table");
    l = l ? l->next : NULL;
  }
  VP_ASSERT (l == NULL, "no other leap seconds");
  VP_REACH ("end");
#else
  MS3Record *m = vp_alloc (sizeof *m);
  m->starttime = vp_i (-4000000000ll * NSEC, 4000000000ll * NSEC);
  m->samplecnt = vp_i (-2, 1000000);
  m->samprate = (double)(int)vp_i (-10000, 10000);
#ifdef VP_CBMC
  s_ret = vp_i (INT64_MIN, INT64_MAX);
  int64_t r = msr3_endtime (m);
  VP_ASSERT (r == s_ret && s_t == m->starttime && s_r == m->samprate && s_o == (m->samplecnt > 0 ? m->samplecnt - 1 : 0), "end time is the time of the last sample");
#else
  VP_ASSERT (msr3_endtime (m) == ms_sampletime (m->starttime, m->samplecnt > 0 ? m->samplecnt - 1 : 0, m->samprate), "end time is the time of the last sample");
#endif
  VP_ASSERT (msr3_endtime (NULL) == NSTERROR, "no record refused");
  VP_REACH ("end");
#endif
}
