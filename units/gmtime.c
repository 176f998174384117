/*UNIT
{"enforce": ["ms_gmtime64_r"], "timeout": 400, "unwind": 14, "cbmc": ["--sat-solver", "cadical"],
 "split": [{"match": "ms_gmtime64_r.(assertion|postcondition|loop_invariant)", "each": true}],
 "functions": ["ms_gmtime64_r"],
 "variants": {"pos": {"defs": ["SIGN=1"]}, "neg": {"defs": ["SIGN=0"]}},
 "bounded": {"unwind": 14, "unwindset": ["ms_gmtime64_r.0:402", "ms_gmtime64_r.2:402"], "note": "all times, years 1600 to 2400"}}
*/
/* Contract of ms_gmtime64_r(): for every second of the proleptic Gregorian years 1600 to 2400
 * the components are the one valid date and time that the second denotes. */
#include "vp.h"
#include "c_cal.h"
#define CYR (1900 + year)
#define LMV_LOOP_gmtime_years                                                                   \
  __CPROVER_assigns (m, year, leap)                                                             \
  __CPROVER_loop_invariant (m >= 0 && year >= 70 && year <= 600 && leap == CAL_LEAP (CYR) && m + CAL_DAYS (CYR) == v_tm_tday) \
  __CPROVER_decreases (m)
#define LMV_LOOP_gmtime_years_neg                                                               \
  __CPROVER_assigns (m, year, leap)                                                             \
  __CPROVER_loop_invariant (m < 0 && year <= 469 && year >= -400 && leap == CAL_LEAP (CYR) && m + CAL_DAYS (CYR + 1) == v_tm_tday) \
  __CPROVER_decreases (-m)
/* C11 6.5.5: (a / b) * b + a % b == a */
#define DIVMOD(a, b) __CPROVER_assume (((a) / (b)) * (b) + (a) % (b) == (a));
#define STEP(c) __CPROVER_assert (c, "ghost step"); __CPROVER_assume (c);
#define LMV_GHOST_gmtime_sec   DIVMOD (time, 60)
#define LMV_GHOST_gmtime_min   STEP (time * 60 + v_tm_sec == *in_time) DIVMOD (time, 60)
#define LMV_GHOST_gmtime_hour  STEP ((time * 60 + v_tm_min) * 60 + v_tm_sec == *in_time) DIVMOD (time, 24)
#define LMV_GHOST_gmtime_split STEP (((v_tm_tday * 24 + v_tm_hour) * 60 + v_tm_min) * 60 + v_tm_sec == *in_time)
#define LMV_GHOST_gmtime_months                                                                 \
  STEP (m >= 0 && v_tm_mon >= 0 && v_tm_mon < 12 && m < days_in_month[leap][v_tm_mon])          \
  STEP (CAL_DAYS (CYR) + julian_days_by_month[leap][v_tm_mon] + m == v_tm_tday)
#define LMV_LOOP_gmtime_months                                                                  \
  __CPROVER_assigns (m, v_tm_mon)                                                               \
  __CPROVER_loop_invariant (m >= 0 && v_tm_mon >= 0 && v_tm_mon < 12 && julian_days_by_month[leap][v_tm_mon] + m == __CPROVER_loop_entry (m)) \
  __CPROVER_decreases (m)
#define LMV_LOOP_gmtime_months_neg                                                              \
  __CPROVER_assigns (m, v_tm_mon)                                                               \
  __CPROVER_loop_invariant (m < 0 && v_tm_mon >= 0 && v_tm_mon < 12 && m - (365 + leap - julian_days_by_month[leap][v_tm_mon] - days_in_month[leap][v_tm_mon]) == __CPROVER_loop_entry (m)) \
  __CPROVER_decreases (-m)
#include "repo.h"
#include "gmtime64.c"

static int
post_gmtime (const int64_t *in, const struct tm *p, const struct tm *ret)
{
  int64_t y = (int64_t)p->tm_year + 1900;
  return ret == p && y >= 1600 && y <= 2400 && p->tm_sec >= 0 && p->tm_sec < 60 && p->tm_min >= 0 && p->tm_min < 60
         && p->tm_hour >= 0 && p->tm_hour < 24 && p->tm_yday >= 0 && p->tm_yday < 365 + CAL_LEAP (y)
         && p->tm_mon >= 0 && p->tm_mon < 12 && p->tm_mday >= 1 && p->tm_mday <= cal_monthlen (y, p->tm_mon + 1)
         && cal_cum (y, p->tm_mon + 1) + p->tm_mday == p->tm_yday + 1
         && (((CAL_DAYS (y) + p->tm_yday) * 24 + p->tm_hour) * 60 + p->tm_min) * 60 + p->tm_sec == *in;
}
#ifdef VP_CONTRACT
struct tm *ms_gmtime64_r (const int64_t *in_time, struct tm *p)
__CPROVER_requires (in_time != NULL && p != NULL && *in_time >= CAL_SEC (1600) && *in_time < CAL_SEC (2400))
__CPROVER_assigns (*p)
__CPROVER_ensures (post_gmtime (in_time, p, __CPROVER_return_value));
#endif
void
harness (void)
{
  struct tm *p  = vp_alloc (sizeof (struct tm));
  int64_t *in   = vp_alloc (sizeof (int64_t));
  *in = SIGN ? vp_i (0, CAL_SEC (2400) - 1) : vp_i (CAL_SEC (1600), -1);
  struct tm *r = ms_gmtime64_r (in, p);
  VP_POST (post_gmtime (in, p, r), "broken down time denotes the time given");
  if (p->tm_mon == 1 && p->tm_mday == 29)
    VP_REACH ("leap day");
  VP_REACH ("end");
}
