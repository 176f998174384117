/*UNIT
{"mode": "runtime", "search": 20, "procs": 4, "functions": ["ms_nstime2timestr", "ms_nstime2timestrz", "ms_timestr2nstime", "ms_mdtimestr2nstime", "ms_seedtimestr2nstime"],
 "note": "every format and subsecond selection of random times from 1677 to 2262 with boundary values preferred; random valid and malformed strings"}
*/
/* Contracts of the time string functions: the string is the format's rendering of the time
 * (truncated to its resolution, in at most 37 bytes), and parsing gives that time; a valid string of
 * each form denotes the time of its components; out of range components and characters are refused. */
#include "vp.h"
#include "repo.h"
#include "genutils.c"
#include "c_cal.h"
#undef malloc
#undef free
static nstime_t
gentime (void)
{
  static const int64_t edge[] = {0, -1, 1, 86400, -86400, 951782400, 951868800, 1078012800, -62135596, -2208988800, 4102444800, 1483228800, 31536000, 9223372036 - 86400};
  int64_t s, n;
  if (vp_u (0, 2) == 0)
    s = edge[vp_u (0, 13)] + vp_i (-2, 2);
  else if (vp_bool ())
    s = vp_i (-9200000000, 9200000000);
  else
    s = vp_i (-100, 100);
  static const int64_t ne[] = {0, 1, 999, 1000, 999999, 1000000, 500000000, 999000000, 999999000, 999999999};
  n = vp_bool () ? ne[vp_u (0, 9)] : vp_i (0, 999999999);
  return s * 1000000000 + n;
}
static void
civil (nstime_t t, int *y, int *mo, int *d, int *yd, int *sod, int *ns)
{
  int64_t s = t / 1000000000, day;
  *ns = (int)(t % 1000000000);
  if (*ns < 0)
    *ns += 1000000000, s--;
  day = s / 86400, *sod = (int)(s % 86400);
  if (*sod < 0)
    *sod += 86400, day--;
  *y = 1670;
  while (CAL_DAYS (*y + 1) <= day)
    ++*y;
  *yd = (int)(day - CAL_DAYS (*y)) + 1;
  for (*mo = 12; cal_cum (*y, *mo) >= *yd; --*mo)
    ;
  *d = *yd - cal_cum (*y, *mo);
}
static void
format (void)
{
  nstime_t t = gentime (), back, trunc;
  int f = (int)vp_u (0, 8), u = (int)vp_u (0, 6), z = vp_bool (), y, mo, d, yd, sod, ns;
  char *b = vp_alloc (37), e[80], sub[20] = "";
  char *r = z ? ms_nstime2timestrz (t, b, f, u) : ms_nstime2timestr (t, b, f, u);
  VP_ASSERT (r == b, "every format and subsecond selection is supported");
  if (z && (f == ISOMONTHDAY || f == ISOMONTHDAY_DOY || f == ISOMONTHDAY_SPACE))
    f++;
  civil (t, &y, &mo, &d, &yd, &sod, &ns);
  int digits = 0;
  switch (u)
  {
  case MICRO: digits = 6; break;
  case NANO: digits = 9; break;
  case MICRO_NONE: digits = ns / 1000 ? 6 : 0; break;
  case NANO_NONE: digits = ns ? 9 : 0; break;
  case NANO_MICRO: digits = ns % 1000 ? 9 : 6; break;
  case NANO_MICRO_NONE: digits = ns % 1000 ? 9 : ns ? 6 : 0; break;
  }
  if (f == NANOSECONDEPOCH)
  {
    sprintf (e, "%lld", (long long)t);
    VP_ASSERT (!strcmp (b, e), "nanosecond epoch");
    return;
  }
  int64_t res = digits == 9 ? 1 : digits == 6 ? 1000 : 1000000000;
  if (f == UNIXEPOCH)
  {
    uint64_t m = t < 0 ? -(uint64_t)t : (uint64_t)t;
    int minus = t < 0 && (digits || m >= 1000000000);
    if (digits)
      sprintf (e, "%s%llu.%0*d", minus ? "-" : "", (unsigned long long)(m / 1000000000), digits, (int)(digits == 9 ? m % 1000000000 : m % 1000000000 / 1000));
    else
      sprintf (e, "%s%llu", minus ? "-" : "", (unsigned long long)(m / 1000000000));
    VP_ASSERT (!strcmp (b, e), "Unix epoch");
    trunc = t / res * res;
    int len = (int)strlen (b);
    if (len == 4 && b[0] != '-')
      return; /* read as a year */
    VP_ASSERT (ms_timestr2nstime (b) == trunc, "time parsed back");
    return;
  }
  trunc = t - ((t % res) + res) % res;
  if (digits)
    sprintf (sub, ".%0*d", digits, digits == 9 ? ns : ns / 1000);
  int h = sod / 3600, mi = sod / 60 % 60, se = sod % 60;
  int zz = f == ISOMONTHDAY_Z || f == ISOMONTHDAY_DOY_Z || f == ISOMONTHDAY_SPACE_Z;
  if (f == SEEDORDINAL)
    sprintf (e, "%04d,%03d,%02d:%02d:%02d%s", y, yd, h, mi, se, sub);
  else
    sprintf (e, "%04d-%02d-%02d%c%02d:%02d:%02d%s%s", y, mo, d, f == ISOMONTHDAY_SPACE || f == ISOMONTHDAY_SPACE_Z ? ' ' : 'T', h, mi, se, sub, zz ? "Z" : "");
  if (f == ISOMONTHDAY_DOY || f == ISOMONTHDAY_DOY_Z)
    sprintf (e + strlen (e), " (%03d)", yd);
  VP_ASSERT (!strcmp (b, e), "time string");
  if (y == 1677)
    return; /* not a year supported */
  if (f == ISOMONTHDAY_DOY || f == ISOMONTHDAY_DOY_Z)
    back = ms_mdtimestr2nstime (b);
  else if (vp_bool ())
    back = f == SEEDORDINAL ? ms_seedtimestr2nstime (b) : ms_mdtimestr2nstime (b);
  else
    back = ms_timestr2nstime (b);
  VP_ASSERT (back == trunc, "time parsed back");
}
static void
parse (void)
{
  int y = (int)vp_i (1678, 2261), mo = 1, d = 1, yd = 1, h = 0, mi = 0, se = 0, ns = 0, bad = (int)vp_u (0, 9), isbad = 0;
  int form = (int)vp_u (0, 2), n; /* 0: month-day, 1: year-day, 2: SEED */
  char s[100], *p = s;
  n = (int)vp_u (form == 1 ? 1 : 0, form == 0 ? 6 : 5);
  if (form == 0 && n == 1)
    n = 2; /* year and month only reads as year and day of year */
  p += sprintf (p, "%04d", y);
  char sep = form == 2 ? ',' : form == 0 && vp_bool () ? '/' : '-';
  int left = n;
  if (form == 0 && left > 0)
  {
    mo = (int)vp_u (1, 12);
    d = (int)vp_u (1, cal_monthlen (y, mo));
    if (bad == 1)
      isbad = 1, vp_bool () ? (d = cal_monthlen (y, mo) + 1) : (d = 0);
    else if (bad == 2)
      isbad = 1, mo = vp_bool () ? 0 : 13;
    p += sprintf (p, "%c%02d%c%02d", sep, mo, sep, d);
    left -= 2;
    yd = isbad ? 1 : cal_cum (y, mo) + d;
  }
  else if (left > 0)
  {
    yd = (int)vp_u (1, 365 + CAL_LEAP (y));
    if (bad == 1)
      isbad = 1, yd = vp_bool () ? 0 : 366 + CAL_LEAP (y);
    p += sprintf (p, "%c%03d", sep, yd);
    left--;
  }
  if (left-- > 0)
  {
    h = (int)vp_u (0, 23);
    if (bad == 3)
      isbad = 1, h = 24;
    p += sprintf (p, "%c%02d", form == 2 ? ":,T "[vp_u (0, 3)] : "T "[vp_u (0, 1)], h);
  }
  if (left-- > 0)
  {
    mi = (int)vp_u (0, 59);
    if (bad == 4)
      isbad = 1, mi = 60;
    p += sprintf (p, ":%02d", mi);
  }
  if (left-- > 0)
  {
    se = (int)vp_u (0, 59);
    if (bad == 5)
      isbad = 1, se = 61;
    p += sprintf (p, ":%02d", se);
    int dig = (int)vp_u (0, 9);
    if (bad == 6)
      isbad = 1, p += sprintf (p, "-%d", (int)vp_u (1, 12));
    else if (dig)
    {
      ns = (int)vp_u (0, 999999999);
      for (int k = dig; k < 9; k++)
        ns -= ns % (int[]){0, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000}[9 - k];
      char f[16];
      sprintf (f, "%09d", ns);
      p += sprintf (p, ".%.*s", dig, f);
    }
  }
  if (bad == 7)
  {
    isbad = 1;
    s[0] = '9'; /* year 9678 or so */
  }
  int direct = vp_bool () && form != 1;
  if (!direct && bad != 7 && n >= 3 && vp_bool ())
    p += sprintf (p, "%c", vp_bool () ? 'Z' : 'z');
  if (!direct && bad == 8)
  {
    isbad = 1;
    s[vp_u (0, p - s - 1)] = "xe(+#"[vp_u (0, 4)];
    if (s[0] == '+')
      s[0] = '(';
  }
  char *b = vp_alloc (strlen (s) + 1);
  strcpy (b, s);
  nstime_t want = CAL_NS (y, yd, h, mi, se, (int64_t)ns);
  nstime_t got = !direct ? ms_timestr2nstime (b) : form == 0 ? ms_mdtimestr2nstime (b) : ms_seedtimestr2nstime (b);
  VP_ASSERT (VP_IMP (isbad, got == NSTERROR), "malformed time string refused");
  VP_ASSERT (VP_IMP (!isbad, got == want), "time denoted by the string");
}
static void
epoch (void)
{
  char s[60];
  int neg = vp_bool (), dig = (int)vp_u (0, 9), sign = neg || vp_bool ();
  int64_t sec = vp_bool () ? vp_i (0, 9223372035) : vp_i (0, 20);
  if (vp_u (0, 7) == 3)
    sec = vp_i (9223372037, INT64_MAX);
  int ns = (int)vp_u (0, 999999999);
  char f[16];
  for (int k = dig; k < 9; k++)
    ns -= ns % (int[]){0, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000}[9 - k];
  sprintf (f, "%09d", ns);
  sprintf (s, "%s%lld", neg ? "-" : sign ? "+" : "", (long long)sec);
  if (dig)
    sprintf (s + strlen (s), ".%.*s", dig, f);
  else
    ns = 0;
  if (!sign && strlen (s) == 4)
    return;
  char *b = vp_alloc (strlen (s) + 1);
  strcpy (b, s);
  nstime_t got = ms_timestr2nstime (b);
  if (sec > 9223372036)
    VP_ASSERT (got == NSTERROR, "epoch value out of range refused");
  else
    VP_ASSERT (got == (neg ? -(sec * 1000000000 + ns) : sec * 1000000000 + ns), "time denoted by the epoch value");
}
void
harness (void)
{
  switch (vp_u (0, 3))
  {
  case 0: parse (); break;
  case 1: epoch (); break;
  default: format ();
  }
}
