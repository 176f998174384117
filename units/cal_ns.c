/*UNIT
{"enforce": ["ms_nstime2time"], "replace": ["ms_gmtime64_r"], "proved_elsewhere": ["ms_gmtime64_r"], "timeout": 300, "cbmc": ["--sat-solver", "cadical"],
 "functions": ["ms_nstime2time"],
 "bounded": {"unwind": 14, "unwindset": ["ms_gmtime64_r.0:402", "ms_gmtime64_r.2:402"], "note": "all times"}}
*/
/* Contract of ms_nstime2time() for every 64-bit nanosecond time: the components are valid and
 * denote that time */
#include "vp.h"
#include "c_cal.h"
#define STEP(c) __CPROVER_assert (c, "ghost step"); __CPROVER_assume (c);
static struct tm g_tm; /* what ms_gmtime64_r() returned, by its contract the date and time of g_isec */
static int64_t g_isec;
static int g_fract;
static int64_t g_quot;
static int g_rem;
/* quotient and remainder; C11 6.5.5: a - (a / b) * b is less than b in magnitude and has the sign of a */
#define LMV_GHOST_nstime2time_split                                                             \
  STEP (isec == nstime / NSTMODULUS && ifract == (int)(nstime - (isec * NSTMODULUS)))           \
  __CPROVER_assume (ifract > -NSTMODULUS && ifract < NSTMODULUS && (nstime < 0 ? ifract <= 0 : ifract >= 0)); \
  g_quot = isec; g_rem = ifract;
/* the same time as whole seconds and a fraction from 0 to 999999999 */
#define LMV_GHOST_nstime2time_adjusted                                                          \
  STEP (ifract >= 0 && ifract < 1000000000 && ((isec == g_quot && ifract == g_rem) || (isec == g_quot - 1 && ifract == g_rem + 1000000000))) \
  g_isec = isec; g_fract = ifract;
#define LMV_GHOST_nstime2time_broken   g_tm = tms;
#include "repo.h"
#include "gmtime64.c"
#include "genutils.c"

static int
post_gmtime (const int64_t *in, const struct tm *p, const struct tm *ret)
{
  int64_t y = (int64_t)p->tm_year + 1900;
  return ret == p && y >= 1600 && y <= 2400 && p->tm_sec >= 0 && p->tm_sec < 60 && p->tm_min >= 0 && p->tm_min < 60
         && p->tm_hour >= 0 && p->tm_hour < 24 && p->tm_yday >= 0 && p->tm_yday < 365 + CAL_LEAP (y)
         && (((CAL_DAYS (y) + p->tm_yday) * 24 + p->tm_hour) * 60 + p->tm_min) * 60 + p->tm_sec == *in;
}
static int
post_nstime (int64_t t, const uint16_t *year, const uint16_t *yday, const uint8_t *hour, const uint8_t *min, const uint8_t *sec, const uint32_t *nsec, int ret)
{
  if (ret != 0)
    return 0;
  if (nsec && *nsec > 999999999)
    return 0;
  if (hour && *hour > 23)
    return 0;
  if (min && *min > 59)
    return 0;
  if (sec && *sec > 59)
    return 0;
  if (year && yday && (*yday < 1 || *yday > 365 + CAL_LEAP (*year)))
    return 0;
#ifdef VP_CONTRACT
  /* g_isec * 10^9 + g_fract == t (ghost step), g_tm is the date and time of g_isec (contract of ms_gmtime64_r()) */
  return VP_IMP (year, *year == g_tm.tm_year + 1900) && VP_IMP (yday, *yday == g_tm.tm_yday + 1) && VP_IMP (hour, *hour == g_tm.tm_hour)
         && VP_IMP (min, *min == g_tm.tm_min) && VP_IMP (sec, *sec == g_tm.tm_sec) && VP_IMP (nsec, *nsec == (uint32_t)g_fract);
#else
  return VP_IMP (year && yday && hour && min && sec && nsec, CAL_NS (*year, *yday, *hour, *min, *sec, (int64_t)*nsec) == t);
#endif
}
#ifdef VP_CONTRACT
struct tm *ms_gmtime64_r (const int64_t *in_time, struct tm *p)
__CPROVER_requires (in_time != NULL && p != NULL && *in_time >= CAL_SEC (1600) && *in_time < CAL_SEC (2400))
__CPROVER_assigns (*p)
__CPROVER_ensures (post_gmtime (in_time, p, __CPROVER_return_value));
int ms_nstime2time (nstime_t nstime, uint16_t *year, uint16_t *yday, uint8_t *hour, uint8_t *min, uint8_t *sec, uint32_t *nsec)
__CPROVER_requires (1)
__CPROVER_assigns (year: *year; yday: *yday; hour: *hour; min: *min; sec: *sec; nsec: *nsec)
__CPROVER_assigns (g_tm, g_isec, g_fract, g_quot, g_rem)
__CPROVER_ensures (post_nstime (nstime, year, yday, hour, min, sec, nsec, __CPROVER_return_value));
#endif
void
harness (void)
{
  int64_t t      = vp_i (INT64_MIN, INT64_MAX);
  uint16_t *year = vp_bool () ? vp_alloc (2) : NULL, *yday = vp_bool () ? vp_alloc (2) : NULL;
  uint8_t *hour = vp_bool () ? vp_alloc (1) : NULL, *min = vp_bool () ? vp_alloc (1) : NULL, *sec = vp_bool () ? vp_alloc (1) : NULL;
  uint32_t *nsec = vp_bool () ? vp_alloc (4) : NULL;
  int64_t in;
  struct tm tm;
  int r          = ms_nstime2time (t, year, yday, hour, min, sec, nsec);
  VP_POST (post_nstime (t, year, yday, hour, min, sec, nsec, r), "components denote the time given");
#ifdef VP_CONTRACT
  int vp_keep = post_gmtime (&in, &tm, &tm);
#endif
  VP_REACH ("end");
}
