/*UNIT
{"mode": "runtime", "search": 20, "procs": 2, "functions": ["ms_nslc2sid", "ms_sid2nslc", "ms_strncpclean", "ms_strncpcleantail", "ms_strncpopen", "ms_seedchan2xchan", "ms_xchan2seedchan"],
 "note": "codes of up to 14 bytes, capacities to 70, arbitrary strings to 60 bytes"}
*/
/* Contracts of the identifier and string conversions evaluated on the real code; buffers have
 * exactly the stated capacity. */
#include "vp.h"
#include "repo.h"
static char *
gen_code (int max, const char *set)
{
  int n = (int)vp_u (0, max), m = (int)strlen (set);
  char *s = vp_alloc (n + 1);
  for (int i = 0; i < n; i++)
    s[i] = set[vp_u (0, m - 1)];
  s[n] = 0;
  return s;
}
/* bytes of the longest prefix of complete valid UTF-8 characters within n bytes and before a NUL (RFC 3629) */
static int
utf8_prefix (const uint8_t *s, int n)
{
  int i = 0;
  while (i < n && s[i])
  {
    int k, lo = 0x80, hi = 0xbf;
    if (s[i] < 0x80) k = 0;
    else if (s[i] >= 0xc2 && s[i] <= 0xdf) k = 1;
    else if (s[i] >= 0xe0 && s[i] <= 0xef) { k = 2; if (s[i] == 0xe0) lo = 0xa0; if (s[i] == 0xed) hi = 0x9f; }
    else if (s[i] >= 0xf0 && s[i] <= 0xf4) { k = 3; if (s[i] == 0xf0) lo = 0x90; if (s[i] == 0xf4) hi = 0x8f; }
    else return i;
    for (int j = 1; j <= k; j++, lo = 0x80, hi = 0xbf)
      if (i + j >= n || s[i + j] < lo || s[i + j] > hi)
        return i;
    i += k + 1;
  }
  return i;
}
static void
h_build (void)
{
  static const char set[] = "ABZ019az-.";
  char *net = gen_code (14, set), *sta = gen_code (14, set), *loc = vp_u (0, 4) ? gen_code (14, set) : NULL, *chan;
  int kind = (int)vp_u (0, 3), cap = (int)vp_u (0, 70);
  chan = kind == 0 ? gen_code (14, "AB_1") : gen_code (3, "ABHZ12_");
  if (kind == 2)
  {
    chan = vp_alloc (20);
    sprintf (chan, "%.5s_%.5s_%.5s", gen_code (5, set), gen_code (5, set), gen_code (5, set));
  }
  char exp[200], mapped[40];
  if (strlen (chan) == 3)
    sprintf (mapped, "%c_%c_%c", chan[0], chan[1], chan[2]);
  else
    strcpy (mapped, chan);
  int need = sprintf (exp, "FDSN:%s_%s_%s_%s", net, sta, loc ? loc : "", mapped) + 1;
  char *sid = vp_alloc (cap);
  memset (sid, 0x7e, cap);
  int r = ms_nslc2sid (sid, cap, 0, net, sta, loc, chan);
  if (cap < 16)
  {
    VP_ASSERT (r == -1, "capacity below 16 refused");
    return;
  }
  VP_ASSERT (memchr (sid, 0, cap) != NULL, "identifier terminated within its capacity");
  if (need > cap)
  {
    VP_ASSERT (r < 0, "identifier longer than its capacity refused");
    return;
  }
  VP_ASSERT (r == need - 1 && strcmp (sid, exp) == 0, "identifier of the codes");
  int us = 0;
  for (char *c = mapped; *c; c++)
    us += *c == '_';
  char *n2 = vp_alloc (15), *s2 = vp_alloc (15), *l2 = vp_alloc (15), *c2 = vp_alloc (30);
  *n2 = *s2 = *l2 = *c2 = 1;
  int which = (int)vp_u (0, 15);
  r = ms_sid2nslc (sid, which & 1 ? NULL : n2, which & 2 ? NULL : s2, which & 4 ? NULL : l2, which & 8 ? NULL : c2);
  if (us != 2)
  {
    VP_ASSERT (r != 0, "channel without three codes refused");
    return;
  }
  VP_ASSERT (r == 0, "identifier split");
  VP_ASSERT (which & 1 ? *n2 == 1 : !strcmp (n2, net), "network code returned");
  VP_ASSERT (which & 2 ? *s2 == 1 : !strcmp (s2, sta), "station code returned");
  VP_ASSERT (which & 4 ? *l2 == 1 : !strcmp (l2, loc ? loc : ""), "location code returned");
  char back[40];
  if (strlen (mapped) == 5 && mapped[1] == '_' && mapped[3] == '_' && mapped[0] && mapped[2] && mapped[4])
    sprintf (back, "%c%c%c", mapped[0], mapped[2], mapped[4]);
  else
    strcpy (back, mapped);
  VP_ASSERT (which & 8 ? *c2 == 1 : !strcmp (c2, back), "channel code returned");
}
static void
h_split (void)
{
  char *s = gen_code (40, "F_D:A1_B"), *t = vp_alloc (60);
  sprintf (t, "%s%s", vp_u (0, 3) ? "FDSN:" : "", s);
  int us = 0;
  const char *q = strrchr (t, ':');
  q = q ? q + 1 : t;
  for (const char *c = q; *c; c++)
    us += *c == '_';
  int ok = !strncmp (t, "FDSN:", 5) && us == 5;
  char *o[4], keep[60];
  strcpy (keep, t);
  for (int i = 0; i < 4; i++)
    o[i] = vp_alloc (strlen (t) + 1), *o[i] = 1;
  int r = ms_sid2nslc (t, o[0], o[1], o[2], o[3]);
  VP_ASSERT (!strcmp (keep, t), "identifier unchanged");
  VP_ASSERT ((r == 0) == ok, "exactly identifiers with six codes are split");
  if (!ok)
    return;
  for (int i = 0; i < 3; i++)
  {
    int n = (int)(strchr (q, '_') - q);
    VP_ASSERT ((int)strlen (o[i]) == n && !memcmp (o[i], q, n), "code returned");
    q += n + 1;
  }
  if (strlen (q) == 5 && q[1] == '_' && q[3] == '_')
    VP_ASSERT (o[3][0] == q[0] && o[3][1] == q[2] && o[3][2] == q[4] && !o[3][3], "three character channel returned");
  else
    VP_ASSERT (!strcmp (o[3], q), "channel code returned");
}
static void
h_copy (void)
{
  int n = (int)vp_u (0, 24), k = 0, r;
  uint8_t *s = vp_buf (n), *d = vp_alloc (n + 1);
  for (int i = 0; i < n; i++)
  {
    int c = (int)vp_u (0, 7);
    if (c < 3)
      s[i] = ' ';
    else if (c < 6)
      s[i] = "AB\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xc0\xed"[vp_u (0, 14)];
  }
  int v = utf8_prefix (s, n);
  char exp[64];
  memset (exp, 0, sizeof exp);
  switch (vp_u (0, 2))
  {
  case 0:
    for (int i = 0; i < v; i++)
      if (s[i] != ' ')
        exp[k++] = (char)s[i];
    r = ms_strncpclean ((char *)d, (char *)s, n);
    VP_ASSERT (r == k && !memcmp (d, exp, k + 1), "copy without spaces");
    break;
  case 1:
    for (k = v; k > 0 && s[k - 1] == ' '; k--)
      ;
    r = ms_strncpcleantail ((char *)d, (char *)s, n);
    VP_ASSERT (r == k && !memcmp (d, s, k) && d[k] == 0, "copy without trailing spaces");
    break;
  default:
    d = vp_alloc (n);
    r = ms_strncpopen ((char *)d, (char *)s, n);
    for (int i = 0; i < n; i++)
      VP_ASSERT (d[i] == (i < v ? s[i] : ' '), "copy padded with spaces");
    VP_ASSERT (r == v, "copied bytes counted");
  }
}
static void
h_chan (void)
{
  char *s = gen_code (8, "AB_1"), *d = vp_alloc (6), *e = vp_alloc (4);
  int r = ms_seedchan2xchan (d, s);
  VP_ASSERT ((r == 0) == (strlen (s) == 3), "exactly three character channels are mapped");
  if (!r)
  {
    VP_ASSERT (d[0] == s[0] && d[1] == '_' && d[2] == s[1] && d[3] == '_' && d[4] == s[2] && !d[5], "band, source and subsource codes");
    VP_ASSERT (ms_xchan2seedchan (e, d) == 0 && !strcmp (e, s), "mapped back");
  }
  r = ms_xchan2seedchan (e, s);
  VP_ASSERT ((r == 0) == (strlen (s) == 5 && s[1] == '_' && s[3] == '_'), "exactly single character codes are mapped");
  if (!r)
    VP_ASSERT (e[0] == s[0] && e[1] == s[2] && e[2] == s[4] && !e[3], "SEED channel");
}
void
harness (void)
{
  switch (vp_u (0, 3))
  {
  case 0: h_build (); break;
  case 1: h_split (); break;
  case 2: h_copy (); break;
  default: h_chan ();
  }
}
