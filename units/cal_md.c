/*UNIT
{"mode": "complete", "timeout": 200, "unwind": 14,
 "functions": ["ms_doy2md", "ms_md2doy"],
 "variants": {"doy2md": {"defs": ["F=0"]}, "md2doy": {"defs": ["F=1"]}},
 "note": "loops run at most 12 times: unwound completely"}
*/
/* Postconditions of ms_doy2md() and ms_md2doy() for all arguments */
#include "vp.h"
#include "c_cal.h"
#include "repo.h"
#include "gmtime64.c"
#include "genutils.c"

void
harness (void)
{
  int y = (int)vp_i (INT32_MIN, INT32_MAX);
  int a = (int)vp_i (INT32_MIN, INT32_MAX), b = (int)vp_i (INT32_MIN, INT32_MAX), ret;
  int yok = y >= 1678 && y <= 2262;
#if F == 0
  int mon = 77, mday = 78;
  ret     = ms_doy2md (y, a, &mon, &mday);
  if (!yok || a < 1 || a > 365 + CAL_LEAP (y))
    VP_ASSERT (ret != 0 && mon == 77 && mday == 78, "invalid day of year refused");
  else
    VP_ASSERT (ret == 0 && mon >= 1 && mon <= 12 && mday >= 1 && mday <= cal_monthlen (y, mon) && cal_cum (y, mon) + mday == a, "month and day of the day of year");
#elif F == 1
  int yday = 77;
  ret      = ms_md2doy (y, a, b, &yday);
  if (!yok || a < 1 || a > 12 || b < 1 || b > cal_monthlen (y, a))
    VP_ASSERT (ret != 0 && yday == 77, "invalid date refused");
  else
    VP_ASSERT (ret == 0 && yday == cal_cum (y, a) + b, "day of year of the date");
#endif
  if (ret == 0 && y == 2000)
    VP_REACH ("end");
}
