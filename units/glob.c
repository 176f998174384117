/*UNIT
{"mode": "runtime", "search": 20, "procs": 3, "functions": ["ms_globmatch", "ms3_addselect", "ms3_addselect_comp", "ms3_matchselect", "msr3_matchselect"],
 "note": "patterns of up to 8 elements, strings of up to 20 characters, lists of up to 6 entries"}
*/
/* Contract of ms_globmatch(): the language of the pattern, by simulation of its automaton; of
 * selection lists: a list built by ms3_addselect() matches if one of its entries does. */
#include "vp.h"
#include "repo.h"
#include "selection.c"
typedef struct { int kind, neg, n; char lo[4], hi[4]; } elem; /* 0 char, 1 ?, 2 *, 3 set */
static const char AB[] = "AB_1Zc*";
static int
gen (elem *e, char *pat, int max)
{
  int n = (int)vp_u (0, max);
  for (int i = 0; i < n; i++, e++)
  {
    e->kind = (int)vp_u (0, 3), e->neg = 0, e->n = 1;
    if (e->kind == 0)
    {
      e->lo[0] = e->hi[0] = AB[vp_u (0, 6)];
      if (e->lo[0] == '*' || vp_u (0, 7) == 5)
        *pat++ = '\\';
      *pat++ = e->lo[0];
    }
    else if (e->kind == 1)
      *pat++ = '?';
    else if (e->kind == 2)
      *pat++ = '*';
    else
    {
      e->neg = vp_bool ();
      e->n = (int)vp_u (1, 4);
      *pat++ = '[';
      if (e->neg)
        *pat++ = '^';
      for (int k = 0; k < e->n; k++)
      {
        e->lo[k] = e->hi[k] = AB[vp_u (0, 6)];
        *pat++ = e->lo[k];
        if (vp_u (0, 3) == 1 && e->lo[k] != '*')
        {
          e->hi[k] = e->lo[k] < 'A' ? '9' : e->lo[k] < '_' ? 'Z' : 'z';
          *pat++ = '-', *pat++ = e->hi[k];
        }
      }
      *pat++ = ']';
    }
  }
  *pat = 0;
  return n;
}
static int
ref_match (const elem *e, int n, const char *s)
{
  uint32_t st = 1, full = 1u << n;
  for (;; s++)
  {
    for (int i = 0; i < n; i++)
      if ((st >> i & 1) && e[i].kind == 2)
        st |= 2u << i;
    if (!*s)
      return (st & full) != 0;
    uint32_t nx = 0;
    for (int i = 0; i < n; i++)
      if (st >> i & 1)
      {
        int in = 0;
        for (int k = 0; k < e[i].n; k++)
          in |= *s >= e[i].lo[k] && *s <= e[i].hi[k];
        if (e[i].kind == 2)
          nx |= 1u << i;
        else if (e[i].kind == 1 || in != e[i].neg)
          nx |= 2u << i;
      }
    st = nx;
  }
}
static void
gen_string (char *s, const elem *e, int n)
{
  /* often in or near the language */
  int near = vp_u (0, 3) > 0, k = 0, j;
  if (near)
    for (int i = 0; i < n && k < 16; i++)
      for (j = e[i].kind == 2 ? (int)vp_u (0, 2) : 1; j > 0; j--)
        s[k++] = e[i].kind == 0 || (e[i].kind == 3 && !e[i].neg && vp_u (0, 4)) ? (vp_bool () ? e[i].lo[0] : e[i].hi[e[i].n - 1]) : AB[vp_u (0, 6)];
  else
    for (j = (int)vp_u (0, 16); j > 0; j--)
      s[k++] = AB[vp_u (0, 6)];
  if (k && vp_u (0, 7) == 2)
    s[vp_u (0, k - 1)] = AB[vp_u (0, 6)];
  s[k] = 0;
}
static const int64_t UNSET = NSTUNSET;
void
harness (void)
{
  elem e[6][9];
  char pat[6][200], s[40];
  int n[6];
  n[0] = gen (e[0], pat[0], 8);
  gen_string (s, e[0], n[0]);
  VP_ASSERT (!!ms_globmatch (s, pat[0]) == ref_match (e[0], n[0], s), "string is in the language of the pattern");
  if (vp_u (0, 2))
    return;
  int m = (int)vp_u (1, 6), any = 0, pv = (int)vp_u (0, 3);
  int64_t st[6], en[6], ver[6], a = vp_i (-50, 50), b = a + vp_i (0, 30), T = 1000000000;
  MS3Selections *l = NULL;
  const MS3SelectTime *w = NULL;
  for (int i = 0; i < m; i++)
  {
    int same = i && vp_u (0, 2) == 1 ? (int)vp_u (0, i - 1) : -1;
    if (same >= 0)
      n[i] = n[same], strcpy (pat[i], pat[same]), memcpy (e[i], e[same], sizeof e[i]);
    else if (i)
      n[i] = gen (e[i], pat[i], 8);
    st[i] = vp_u (0, 3) ? vp_i (-60, 60) * T : UNSET;
    en[i] = vp_u (0, 3) ? (st[i] == UNSET ? vp_i (-60, 60) : st[i] / T + vp_i (0, 40)) * T : UNSET;
    ver[i] = vp_u (0, 3);
    VP_ASSUME (strlen (pat[i]) < sizeof l->sidpattern);
    VP_ASSERT (ms3_addselect (&l, pat[i], st[i], en[i], (uint8_t)ver[i]) == 0, "selection added");
  }
  a = a * T + vp_i (-1, 1), b = b * T + vp_i (1, 2);
  MS3Record r;
  memset (&r, 0, sizeof r);
  strcpy (r.sid, s);
  r.starttime = a, r.pubversion = pv, r.samplecnt = 2;
  r.samprate = -(double)(b - a) / 1e9;
  for (int i = 0; i < m; i++)
    any |= ref_match (e[i], n[i], s) && (!ver[i] || ver[i] == pv) && (st[i] == UNSET || b >= st[i]) && (en[i] == UNSET || a <= en[i]);
  leapsecondlist = NULL;
  VP_ASSUME (msr3_endtime (&r) == b);
  const MS3Selections *f = vp_bool () ? msr3_matchselect (l, &r, &w) : ms3_matchselect (l, s, a, b, pv, &w);
  VP_ASSERT ((f != NULL) == any, "list matches exactly if one of its entries does");
  if (f)
    VP_ASSERT (w && (w->starttime == UNSET || b >= w->starttime) && (w->endtime == UNSET || a <= w->endtime), "time window returned overlaps");
  VP_ASSERT (f || !w, "no time window without a match");
  /* selection by codes */
  ms3_freeselections (l);
  l = NULL;
  char *code[4], want[100];
  static const char *cs[] = {"IU", "*", "X?", "", "BHZ", "B_H_Z", "B_L_1_2", "BH?", "--", "[AB]H"};
  for (int i = 0; i < 4; i++)
    code[i] = vp_u (0, 3) ? (char *)cs[vp_u (0, 9)] : NULL;
  const char *ch = code[3] ? code[3] : "*";
  int el = 0;
  for (const char *q = ch; *q; q++, el++)
    if (*q == '[' || *q == '-' || *q == '_')
      el = 100;
  sprintf (want, "FDSN:%s_%s_%s_", code[0] ? code[0] : "*", code[1] ? code[1] : "*", code[2] ? (strcmp (code[2], "--") ? code[2] : "") : "*");
  if (el == 3)
    sprintf (want + strlen (want), "%c_%c_%c", ch[0], ch[1], ch[2]);
  else
    strcat (want, ch);
  VP_ASSERT (ms3_addselect_comp (&l, code[0], code[1], code[2], code[3], st[0], en[0], (uint8_t)ver[0]) == 0, "selection by codes added");
  VP_ASSERT (l && !strcmp (l->sidpattern, want) && l->pubversion == ver[0] && l->timewindows && l->timewindows->starttime == st[0] && l->timewindows->endtime == en[0], "identifier pattern of the codes");
  ms3_freeselections (l);
}
