/*UNIT
{"mode": "runtime", "search": 20, "procs": 4, "functions": ["mseh_get_ptr_r", "mseh_set_ptr_r", "mseh_serialize", "mseh_free_parsestate", "mseh_replace", "parse_json", "mseh_add_event_detection_r", "mseh_add_calibration_r", "mseh_add_timing_exception_r", "mseh_add_recenter_r"],
 "note": "random histories of up to 40 reads, writes, appended events, calibrations, timing exceptions and recenterings, replacements and serializations of values of the four types at nested and escaped paths, with and without a retained parse state, compared with a model; malformed documents, paths, types and values that cannot be stored"}
*/
/* Contracts of the extra header functions: a value set at a path is what a later read gives, with the
 * same type; other paths keep theirs; what is refused changes nothing. */
#include "vp.h"
#include "repo.h"
#include "extraheaders.c"
#undef malloc
#undef free
#define NP 14
static const char *paths[NP] = {"/A", "/B", "/B/C", "/B/D", "/B/D/E", "/A~1B", "/X~0", "/X", "/F/G/H/I", "/F/G", "/", "/B/ ", "/FDSN/Time/Quality", "/\xc3\xa9"};
struct val
{
  int set;
  char t;
  double d;
  int64_t i;
  char s[64];
};
static struct val mod[NP], ser[NP];
/* the four arrays of objects and what was appended to them */
static const char *arrs[4] = {"/FDSN/Event/Detection", "/FDSN/Calibration/Sequence", "/Q/Exceptions", "/FDSN/Recenter/Sequence"};
struct arr
{
  int n;
  struct
  {
    char ty[16];
    double a;
    int64_t c;
    nstime_t t;
  } e[40];
};
static struct arr am[4], as[4];
static int
append (MS3Record *m, LM_PARSED_JSON **st, int k)
{
  int n = am[k].n, l = (int)vp_u (0, 15), rv;
  static MSEHEventDetection ev;
  static MSEHCalibration ca;
  static MSEHTimingException ex;
  static MSEHRecenter re;
  memset (&am[k].e[n], 0, sizeof am[k].e[n]);
  for (int i = 0; i < l; i++)
    am[k].e[n].ty[i] = (char)vp_u (32, 126);
  am[k].e[n].a = (double)vp_i (-3, 3) / 8;
  am[k].e[n].c = vp_i (-1, 5);
  am[k].e[n].t = vp_bool () ? NSTUNSET : vp_i (-2000000000, 2000000000) * 1000000000 + (vp_bool () ? vp_i (0, 999999999) : 0);
  memset (&ev, 0, sizeof ev), memset (&ca, 0, sizeof ca), memset (&ex, 0, sizeof ex), memset (&re, 0, sizeof re);
  strcpy (k == 0 ? ev.type : k == 1 ? ca.type : k == 2 ? ex.type : re.type, am[k].e[n].ty);
  ev.signalamplitude = ca.amplitude = am[k].e[n].a;
  ev.medlookback = ca.steps = ex.receptionquality = (int)am[k].e[n].c;
  ev.onsettime = ca.begintime = ex.time = re.begintime = am[k].e[n].t;
  ev.medpickalgorithm = ca.firstpulsepositive = ca.alternatesign = ca.continued = -1;
  ex.vcocorrection = -1;
  ca.endtime = re.endtime = NSTUNSET;
  rv = k == 0 ? mseh_add_event_detection_r (m, NULL, &ev, st) : k == 1 ? mseh_add_calibration_r (m, NULL, &ca, st) : k == 2 ? mseh_add_timing_exception_r (m, arrs[2], &ex, st) : mseh_add_recenter_r (m, NULL, &re, st);
  if (rv == 0)
    am[k].n++;
  return rv;
}
static void
checkarr (MS3Record *m, LM_PARSED_JSON **st, struct arr *v)
{
  static const char *num[4] = {"SignalAmplitude", "Amplitude", 0, 0}, *cnt[4] = {"MEDLookback", "Steps", "ReceptionQuality", 0}, *tim[4] = {"OnsetTime", "BeginTime", "Time", "BeginTime"};
  for (int k = 0; k < 4; k++)
    for (int j = 0; j <= v[k].n; j++)
    {
      char q[80], s[40] = "";
      double d = 0;
      int64_t i = -1;
      nstime_t t = NSTUNSET;
      sprintf (q, "%s/%d", arrs[k], j);
      VP_ASSERT ((mseh_get_ptr_r (m, q, NULL, 0, 0, st) == 0) == (j < v[k].n), "array holds what was appended");
      if (j == v[k].n)
        break;
      sprintf (q, "%s/%d/Type", arrs[k], j);
      mseh_get_ptr_r (m, q, s, 's', sizeof s, st);
      VP_ASSERT (!strcmp (s, v[k].e[j].ty), "text of an appended value is read back");
      if (num[k])
      {
        sprintf (q, "%s/%d/%s", arrs[k], j, num[k]);
        mseh_get_ptr_r (m, q, &d, 'n', 0, st);
        VP_ASSERT (d == v[k].e[j].a, "number of an appended value is read back");
      }
      if (cnt[k])
      {
        sprintf (q, "%s/%d/%s", arrs[k], j, cnt[k]);
        mseh_get_ptr_r (m, q, &i, 'i', 0, st);
        VP_ASSERT (i == v[k].e[j].c, "count of an appended value is read back");
      }
      sprintf (q, "%s/%d/%s", arrs[k], j, tim[k]);
      if (mseh_get_ptr_r (m, q, s, 's', sizeof s, st) == 0)
        t = ms_timestr2nstime (s);
      VP_ASSERT (t == v[k].e[j].t, "time of an appended value is read back");
    }
}
static int
below (int a, int b) /* a is an ancestor of b */
{
  size_t n = strlen (paths[a]);
  return a != b && n > 1 && !strncmp (paths[a], paths[b], n) && paths[b][n] == '/';
}
static int
isobj (struct val *m, int p)
{
  for (int k = 0; k < NP; k++)
    if (m[k].set && below (p, k))
      return 1;
  return 0;
}
static void
check (MS3Record *m, LM_PARSED_JSON **st, struct val *v)
{
  for (int p = 0; p < NP; p++)
  {
    double d = -7;
    int64_t i = -7;
    int b = -7;
    char s[64] = "?";
    int rd = mseh_get_ptr_r (m, paths[p], &d, 'n', 0, st), ri = mseh_get_ptr_r (m, paths[p], &i, 'i', 0, st), rb = mseh_get_ptr_r (m, paths[p], &b, 'b', 0, st), rs = mseh_get_ptr_r (m, paths[p], s, 's', sizeof s, st), re = mseh_get_ptr_r (m, paths[p], NULL, 0, 0, st);
    int obj = isobj (v, p);
    if (!v[p].set)
    {
      VP_ASSERT (re == !obj, "a path never set is not found");
      VP_ASSERT (rd == (obj ? 2 : 1) && ri == rd && rb == rd && rs == rd && d == -7 && i == -7 && b == -7, "a path without a value gives none");
      continue;
    }
    VP_ASSERT (re == 0, "a path that was set is found");
    char t = v[p].t;
    VP_ASSERT (rd == ((t == 'n' || t == 'i') ? 0 : 2) && ri == (t == 'i' ? 0 : 2) && rb == (t == 'b' ? 0 : 2) && rs == (t == 's' ? 0 : 2), "only a read of the type that was set succeeds");
    if (t == 'n')
      VP_ASSERT (d == v[p].d, "number is the one set");
    if (t == 'i')
      VP_ASSERT (i == v[p].i && d == (double)i, "integer is the one set");
    if (t == 'b')
      VP_ASSERT (b == (v[p].i != 0), "boolean is the one set");
    if (t == 's')
    {
      VP_ASSERT (!strcmp (s, v[p].s), "string is the one set");
      size_t n = (size_t)vp_u (1, 63);
      char *e = vp_alloc (n);
      VP_ASSERT (mseh_get_ptr_r (m, paths[p], e, 's', (uint32_t)n, st) == 0 && strlen (e) == (strlen (s) < n ? strlen (s) : n - 1) && !strncmp (e, s, strlen (e)), "string is cut to the space given");
    }
  }
}
void
harness (void)
{
  MS3Record m = {0};
  LM_PARSED_JSON *st = NULL;
  int keep = vp_bool (), nops = (int)vp_u (1, 40), dirty = 0;
  memset (mod, 0, sizeof mod);
  memset (ser, 0, sizeof ser);
  memset (am, 0, sizeof am);
  memset (as, 0, sizeof as);
  for (int o = 0; o < nops; o++)
  {
    int op = (int)vp_u (0, 12), p = (int)vp_u (0, NP - 1), bad = vp_u (0, 9);
    char *old = m.extra ? strndup (m.extra, m.extralength) : NULL;
    int oldn = m.extralength;
    if (op <= 6)
    {
      struct val v = {1, "nisb"[vp_u (0, 3)], 0, 0, ""};
      int blocked = 0, rv, refuse = 0;
      static const double ds[] = {0, -0.5, 1, 3, 0.1, 1e300, -1e-300, 123456789.125, 5e-324, 1.7976931348623157e308};
      v.d = vp_bool () ? ds[vp_u (0, 9)] : (double)vp_i (-1000000, 1000000) / (double)vp_i (1, 9999);
      v.i = v.t == 'b' ? (int64_t)(int)vp_i (-2, 2) : vp_i (INT64_MIN, INT64_MAX);
      int b = (int)v.i;
      size_t n = (size_t)vp_u (0, 40);
      for (size_t k = 0; k < n; k++)
        v.s[k] = (char)vp_u (1, 127);
      if (vp_u (0, 3) == 0)
        strcat (v.s, "\xe2\x82\xac\"\\/");
      const char *path = paths[p];
      char bigs[66000];
      void *x = v.t == 'n' ? (void *)&v.d : v.t == 'i' ? (void *)&v.i : v.t == 'b' ? (void *)&b : (void *)v.s;
      if (bad == 0)
      {
        refuse = 1;
        switch (vp_u (0, keep ? 2 : 6))
        {
        case 0: path = "A"; break;
        case 1: v.t = 'z'; break;
        case 2: path = "/B~2"; break;
        case 3: v.t = 'n', v.d = NAN, x = &v.d; break;
        case 4: v.t = 'n', v.d = INFINITY, x = &v.d; break;
        case 5: v.t = 's', strcpy (v.s, "\xff"), x = v.s; break;
        default: v.t = 's', memset (bigs, 'a', 65999), bigs[65999] = 0, x = bigs; break;
        }
      }
      for (int k = 0; k < NP; k++)
        blocked |= mod[k].set && below (k, p);
      rv = mseh_set_ptr_r (&m, path, x, v.t, keep ? &st : NULL);
      if (refuse || blocked)
        VP_ASSERT (rv != 0, "what cannot be set is refused");
      else
      {
        VP_ASSERT (rv == 0, "a value is set");
        for (int k = 0; k < NP; k++)
          if (below (p, k))
            mod[k].set = 0;
        mod[p] = v;
        if (!keep)
          memcpy (ser, mod, sizeof mod), memcpy (as, am, sizeof am);
        dirty = keep;
      }
      if (rv != 0 || keep)
        VP_ASSERT (m.extralength == oldn && (!old || !memcmp (m.extra, old, (size_t)oldn)), "refused or unserialized values leave the headers unchanged");
    }
    else if (op == 7)
    {
      if (keep && dirty)
      {
        int n = mseh_serialize (&m, &st);
        VP_ASSERT (n == m.extralength && n > 0, "serialization gives the length");
        memcpy (ser, mod, sizeof mod), memcpy (as, am, sizeof am);
        dirty = 0;
      }
      if (vp_bool () && (!keep || !dirty))
      {
        mseh_free_parsestate (&st);
        VP_ASSERT (st == NULL, "state is released");
      }
    }
    else if (op == 8)
      check (&m, keep ? &st : NULL, mod), checkarr (&m, keep ? &st : NULL, am);
    else if (op >= 10)
    {
      VP_ASSERT (append (&m, keep ? &st : NULL, (int)vp_u (0, 3)) == 0, "a value is appended");
      if (!keep)
        memcpy (as, am, sizeof am);
      dirty = keep;
    }
    else if (!keep)
    {
      /* replacement by a document, whole, damaged or none */
      char *doc = old ? strdup (old) : strdup ("{}");
      size_t n = strlen (doc);
      int damage = (int)vp_u (0, 3);
      if (damage == 1)
        doc[n - 1] = 0;
      else if (damage == 2)
        doc[0] = 'x';
      else if (damage == 3)
        doc[0] = 0;
      int rv = mseh_replace (&m, doc);
      free (doc);
      if (damage)
        VP_ASSERT (rv < 0 && m.extralength == oldn && (!old || !memcmp (m.extra, old, (size_t)oldn)), "a malformed document is refused");
      else
        VP_ASSERT (rv == m.extralength && rv == (old ? oldn : 2) && !memcmp (m.extra, old ? old : "{}", (size_t)rv), "a document replaces the headers");
    }
    free (old);
    if (m.extra)
      VP_ASSERT (m.extralength > 0 && strlen (m.extra) == m.extralength, "length of the headers is kept");
  }
  check (&m, keep ? &st : NULL, mod), checkarr (&m, keep ? &st : NULL, am);
  checkarr (&m, NULL, as);
  check (&m, NULL, ser); /* what is stored in the record */
  mseh_free_parsestate (&st);
  free (m.extra);
  VP_REACH ("extra headers");
}
