/*UNIT
{"mode": "bounded", "unwind": 4, "cbmc": ["--sat-solver", "cadical"], "timeout": 300, "functions": ["ms3_matchselect", "msr3_matchselect"], "search": 15,
 "stubs": {"ms_globmatch": "stub_glob"}, "note": "lists of up to three entries with up to two time windows each, any times, versions and pattern matches"}
*/
/* Contract of ms3_matchselect() over the contract of ms_globmatch(): an entry matches if its pattern
 * does, its version agrees or is unset and it has no time windows or one which overlaps; the first
 * such entry and window are returned. */
#include "vp.h"
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "msrutils.c"
#include "selection.c"
#undef malloc
#undef free
static MS3Selections s0, s1, s2, *const SP[3] = {&s0, &s1, &s2};
static MS3SelectTime w0, w1, w2, w3, w4, w5, *const WP[6] = {&w0, &w1, &w2, &w3, &w4, &w5};
#define S(i) (*SP[i])
static int match[3];
static char sid[4] = "A";
int
stub_glob (const char *string, const char *pattern)
{
  VP_ASSERT (string == sid, "identifier compared");
  return pattern == S(0).sidpattern ? match[0] : pattern == S(1).sidpattern ? match[1] : match[2];
}
void
harness (void)
{
  int n = (int)vp_u (0, 3), nw[3], pv = (int)vp_u (0, 255), first = -1;
  int64_t a = vp_i (INT64_MIN + 1, INT64_MAX), b = vp_i (INT64_MIN + 1, INT64_MAX);
  VP_ASSUME (a <= b && a != NSTUNSET && b != NSTUNSET && a != NSTERROR && b != NSTERROR);
  for (int i = 0; i < 3; i++)
  {
    match[i] = vp_bool ();
    S(i).pubversion = vp_u8 ();
    nw[i] = (int)vp_u (0, 2);
    S(i).timewindows = nw[i] ? WP[2 * i] : NULL;
    S(i).next = i + 1 < n ? &S(i + 1) : NULL;
#ifdef VP_NATIVE
    strcpy (S(i).sidpattern, match[i] ? "A" : "B");
    if (vp_bool ())
      S(i).pubversion = vp_bool () ? pv : 0;
#endif
    for (int j = 0; j < 2; j++)
    {
      MS3SelectTime *w = WP[2 * i + j];
      w->starttime = vp_bool () ? NSTUNSET : vp_i (INT64_MIN + 1, INT64_MAX);
      w->endtime = vp_bool () ? NSTUNSET : vp_i (INT64_MIN + 1, INT64_MAX);
      VP_ASSUME (w->starttime == NSTUNSET || w->endtime == NSTUNSET || w->starttime <= w->endtime);
      w->next = j + 1 < nw[i] ? WP[2 * i + j + 1] : NULL;
    }
  }
  const MS3SelectTime *w = NULL;
  const MS3Selections *f = ms3_matchselect (n ? SP[0] : NULL, sid, a, b, pv, vp_bool () ? &w : NULL);
  const MS3SelectTime *fw = NULL;
  for (int i = 2; i >= 0; i--)
    if (i < n && match[i] && (!S(i).pubversion || S(i).pubversion == pv))
    {
      const MS3SelectTime *o = NULL;
      for (int j = 1; j >= 0; j--)
      {
        MS3SelectTime *t = WP[2 * i + j];
        if (j < nw[i] && (t->starttime == NSTUNSET || t->starttime == NSTERROR || b >= t->starttime) && (t->endtime == NSTUNSET || t->endtime == NSTERROR || a <= t->endtime))
          o = t;
      }
      if (o || !nw[i])
        first = i, fw = o;
    }
  VP_ASSERT (f == (first < 0 ? NULL : &S(first)), "the first entry that matches is returned");
  VP_ASSERT (w == NULL || w == fw, "with its time window");
  if (first == 2 && fw == &w5)
    VP_REACH ("end");
}
