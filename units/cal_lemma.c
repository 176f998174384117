/*UNIT
{"mode": "complete", "timeout": 200, "variants": {"days": {"defs": ["L=0"]}, "order": {"defs": ["L=1"]}, "cum": {"defs": ["L=2"]}},
 "note": "lemmas about the specification"}
*/
/* Lemmas: CAL_DAYS counts days of the calendar; dates and epoch times are in the same order,
 * so conversions exact in both directions are inverse to each other */
#include "vp.h"
#include "c_cal.h"
void
harness (void)
{
  int y = (int)vp_i (1, 4000);
#if L == 0
  VP_ASSERT (CAL_DAYS (1970) == 0, "epoch");
  VP_ASSERT (CAL_DAYS (y + 1) - CAL_DAYS (y) == 365 + ((y & 3) == 0 && (y % 100 != 0 || y % 400 == 0)), "length of a year");
#elif L == 1
  /* seconds below 60, as ms_nstime2time() yields */
  int y2 = (int)vp_i (1, 4000), d = (int)vp_i (1, 366), d2 = (int)vp_i (1, 366);
  int64_t s = vp_i (0, 86399), s2 = vp_i (0, 86399), a = CAL_DAYS (y) + d - 1, b = CAL_DAYS (y2) + d2 - 1;
  VP_ASSUME (d <= 365 + CAL_LEAP (y) && d2 <= 365 + CAL_LEAP (y2));
  /* by induction over the lemma above: CAL_DAYS is monotone */
  VP_ASSUME (VP_IMP (y < y2, CAL_DAYS (y + 1) <= CAL_DAYS (y2)));
  if (y < y2 || (y == y2 && (d < d2 || (d == d2 && s < s2))))
    VP_ASSERT (a < b || (a == b && s < s2), "later date, later day or same day and later second");
#else
  int m = (int)vp_i (1, 12);
  VP_ASSERT (cal_cum (y, 1) == 0, "first month");
  if (m < 12)
    VP_ASSERT (cal_cum (y, m + 1) == cal_cum (y, m) + cal_monthlen (y, m), "months add up");
  VP_ASSERT (cal_cum (y, 12) + 31 == 365 + CAL_LEAP (y), "months fill the year");
#endif
  VP_REACH ("end");
}
