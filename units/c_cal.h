/* The proleptic Gregorian calendar. CAL_DAYS(y): days from 1970-01-01 to the first day of year
 * y >= 1; c_cal lemmas (unit cal_lemma): CAL_DAYS(1970) == 0 and CAL_DAYS(y + 1) - CAL_DAYS(y) is
 * the length of year y. */
#ifndef C_CAL_H
#define C_CAL_H
#ifdef VP_CBMC
typedef unsigned __CPROVER_bitvector[13] cal_y; /* years are below 8192: narrow arithmetic for the solver */
#else
typedef uint16_t cal_y;
#endif
#define CAL_LEAP(y) ((((cal_y)(y) % 4 == 0 && (cal_y)(y) % 100 != 0) || (cal_y)(y) % 400 == 0) ? 1 : 0)
#define CAL_CENT(y) ((cal_y)((cal_y)((y) - 1) / (cal_y)100))
#define CAL_DAYS(y) (365 * ((int64_t)(y) - 1970) + (int64_t)((cal_y)((y) - 1) >> 2) - (int64_t)CAL_CENT (y) + (int64_t)(CAL_CENT (y) >> 2) - 477)
#define CAL_SEC(y) (CAL_DAYS (y) * 86400)
static inline int
cal_monthlen (int64_t y, int mon)
{
  return mon == 2 ? 28 + CAL_LEAP (y) : (mon == 4 || mon == 6 || mon == 9 || mon == 11) ? 30 : 31;
}
/* days of year y before month mon */
static inline int
cal_cum (int64_t y, int mon)
{
  int d;
  static const int c[13] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  d = (mon >= 1 && mon <= 12) ? c[mon] : 0;
  return d + (mon > 2 ? CAL_LEAP (y) : 0);
}
#define CAL_VALID(y, yd, h, m, s, ns) ((y) >= 1678 && (y) <= 2262 && (yd) >= 1 && (yd) <= 365 + CAL_LEAP (y) && (h) >= 0 && (h) <= 23 && (m) >= 0 && (m) <= 59 && (s) >= 0 && (s) <= 60 && (ns) <= 999999999u)
#define CAL_ESEC(y, yd, h, m, s) (60 * (60 * ((int64_t)24 * (int)(CAL_DAYS (y) + (yd) - 1) + (h)) + (m)) + (s))
#define CAL_NS(y, yd, h, m, s, ns) ((int64_t)CAL_ESEC (y, yd, h, m, s) * 1000000000 + (ns))
#endif
