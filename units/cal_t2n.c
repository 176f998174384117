/*UNIT
{"enforce": ["ms_time2nstime"], "timeout": 200, "cbmc": ["--sat-solver", "cadical"],
 "functions": ["ms_time2nstime", "ms_time2nstime_int"],
 "bounded": {"unwind": 2, "note": "all arguments"}}
*/
/* Contract of ms_time2nstime() for all arguments: with days the days since 1970 of the date
 * (ghost step), the result is (60 * (60 * (24 * days + hour) + min) + sec) * 10^9 + nsec */
#include "vp.h"
#include "c_cal.h"
#define STEP(c) __CPROVER_assert (c, "ghost step"); __CPROVER_assume (c);
#define LMV_GHOST_time2nstime_days STEP (days == CAL_DAYS (year) + yday - 1)
/* the epoch time of the components, computed from the arguments that reach the calculation */
static int g_year, g_yday, g_hour, g_min, g_sec;
static uint32_t g_nsec;
static int64_t g_t;
#define LMV_GHOST_time2nstime_end                                                               \
  g_year = year; g_yday = yday; g_hour = hour; g_min = min; g_sec = sec; g_nsec = nsec;         \
  g_t = (int64_t)(60 * (60 * ((int64_t)24 * days + hour) + min) + sec) * 1000000000 + nsec;
#include "repo.h"
#include "gmtime64.c"
#include "genutils.c"
static int
post (int y, int yday, int h, int m, int s, uint32_t ns, int64_t t)
{
  if (CAL_VALID (y, yday, h, m, s, ns))
#ifdef VP_CONTRACT
    return t == g_t && y == g_year && yday == g_yday && h == g_hour && m == g_min && s == g_sec && ns == g_nsec;
#else
    return t == CAL_NS (y, yday, h, m, s, ns);
#endif
  return t == NSTERROR;
}
#ifdef VP_CONTRACT
nstime_t ms_time2nstime (int year, int yday, int hour, int min, int sec, uint32_t nsec)
__CPROVER_requires (1)
__CPROVER_assigns (g_year, g_yday, g_hour, g_min, g_sec, g_nsec, g_t)
__CPROVER_ensures (post (year, yday, hour, min, sec, nsec, __CPROVER_return_value));
#endif
void
harness (void)
{
  int y = (int)vp_i (INT32_MIN, INT32_MAX), d = (int)vp_i (INT32_MIN, INT32_MAX);
  int h = (int)vp_i (INT32_MIN, INT32_MAX), m = (int)vp_i (INT32_MIN, INT32_MAX), s = (int)vp_i (INT32_MIN, INT32_MAX);
  uint32_t ns = vp_u32 ();
#ifdef VP_NATIVE
  if (vp_bool ())
    y = 1678 + (unsigned)y % 585, d = (unsigned)d % 367, h = (unsigned)h % 24, m = (unsigned)m % 60, s = (unsigned)s % 61, ns = ns % 1000000000;
#endif
  int64_t t = ms_time2nstime (y, d, h, m, s, ns);
  VP_POST (post (y, d, h, m, s, ns, t), "epoch time of the date and time, or refused");
  if (t != NSTERROR && y == 2000)
    VP_REACH ("end");
}
