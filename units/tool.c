/*UNIT
{"mode": "runtime", "search": 25, "procs": 4, "functions": ["main", "processparam", "getoptval", "addfile", "my_globmatch", "msr3_print", "mstl3_printtracelist", "mstl3_printgaplist", "mstl3_printsynclist"],
 "note": "the whole tool run on random files of up to 24 records of three identifiers and two versions, in and out of time order, with random combinations of its listing, selection, tolerance, format, count, data and output options; its whole output is compared with a rendering of the records written"}
*/
/* Contract of the tool: what it prints and writes is the rendering of the records, coverage and gaps of
 * its input under the options given. */
#define _GNU_SOURCE
#include "vp.h"
#undef VP_STUB_LOG
#include "repo.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#define main msi_main
#include "msi.c"
#undef main
#undef malloc
#undef free
#define NR 24
struct rc
{
  int sid, ver, n, slot, fmt;
  nstime_t t, e;
  int64_t off;
  int len;
  int32_t d[24];
};
static struct rc R[NR];
static int nr;
static char st[200000], ex[400000], got[400000];
static int64_t sl;
static int el;
static void
put (char *r, int n, void *x)
{
  (void)x;
  memcpy (st + sl, r, (size_t)n);
  sl += n;
}
static void
pr (const char *f, ...)
{
  va_list a;
  va_start (a, f);
  el += vsnprintf (ex + el, sizeof ex - (size_t)el, f, a);
  va_end (a);
}
static char *
gap_text (char *b, double g, int first)
{
  if (first)
    strcpy (b, " == ");
  else if (fabs (g) >= 86400)
    sprintf (b, "%-3.1fd", g / 86400);
  else if (fabs (g) >= 3600)
    sprintf (b, "%-3.1fh", g / 3600);
  else if (g == 0)
    strcpy (b, "-0  ");
  else
    sprintf (b, "%-4.4g", g);
  return b;
}
static const char *sids[] = {"FDSN:XX_AAA_00_B_H_Z", "FDSN:XX_AAA_10_B_H_Z", "FDSN:YY_B__L_H_N"};
struct seg
{
  nstime_t s, e;
  int64_t n;
};
/* coverage of one trace: records in slots, each slot at most once; joined where they adjoin, or, in time
 * order, where the gap is within the tolerance */
static int
cover (int sid, int ver, const char *use, double tol, nstime_t per, struct seg *o)
{
  int n = 0, last = -1;
  for (;;)
  {
    int b = -1;
    for (int i = 0; i < nr; i++)
      if (use[i] && R[i].sid == sid && (ver < 0 || R[i].ver == ver) && R[i].slot > last && (b < 0 || R[i].slot < R[b].slot))
        b = i;
    if (b < 0)
      return n;
    last = R[b].slot;
    if (n && llabs (R[b].t - o[n - 1].e - per) <= (nstime_t)(1e9 * tol))
      o[n - 1].e = R[b].e, o[n - 1].n += R[b].n;
    else
      o[n++] = (struct seg){R[b].t, R[b].e, R[b].n};
  }
}
static char *
ts (char *b, nstime_t t, int f, int u)
{
  ms_nstime2timestr (t, b, f, u);
  return b;
}
/* a time at, next to or some samples from the start or end of a record */
static nstime_t
edge (struct rc *r, nstime_t per, int len)
{
  return (vp_bool () ? r->t : r->e) + (vp_bool () ? per * vp_i (-2, 2) * len / 2 : 0) + vp_i (-1, 1);
}
void
harness (void)
{
  static const double rates[] = {1, 20, 0.1, 100};
  double rate = rates[vp_u (0, 3)];
  nstime_t per = (nstime_t)(1e9 / rate), base = 1600000000000000000 + (nstime_t)vp_u (0, 1000) * 1000000;
  int len = (int)vp_u (1, 3) * 5 + (int)vp_u (0, 1), span = (int)vp_u (NR + 1, 60), ordered = vp_bool (), scale = vp_bool () ? 1 : (int)vp_u (1, 9000);
  char used[64] = {0};
  sl = 0, el = 0, nr = (int)vp_u (1, NR);
  if (len % 6 == 0)
    len--;
  (void)scale;
  for (int i = 0; i < nr; i++)
  {
    struct rc *r = &R[i];
    int slot = ordered ? (i ? R[i - 1].slot : -1) + 1 + (int)(vp_u (0, 2) == 0) : (int)vp_u (0, (uint64_t)span);
    if (!ordered)
      while (used[slot])
        slot = (slot + 1) % (span + 1);
    used[slot] = 1;
    r->slot = slot, r->sid = (int)vp_u (0, 2), r->ver = (int)vp_u (1, 2), r->n = len, r->fmt = vp_u (0, 2) ? 3 : 2;
    if (r->fmt == 2)
      r->ver = r->ver == 1 ? 2 : 3; /* D or Q */
    r->t = base + per * slot * len, r->e = r->t + per * (len - 1), r->off = sl;
    for (int k = 0; k < len; k++)
      r->d[k] = (int32_t)vp_i (INT32_MIN, INT32_MAX);
    MS3Record m = {0};
    strcpy (m.sid, sids[r->sid]);
    m.reclen = r->fmt == 2 ? 256 : 512, m.pubversion = (uint8_t)r->ver, m.starttime = r->t, m.samprate = rate, m.encoding = DE_INT32, m.sampletype = 'i', m.datasamples = r->d, m.numsamples = m.samplecnt = len, m.datasize = (size_t)len * 4;
    VP_ASSUME (msr3_pack (&m, put, NULL, NULL, MSF_FLUSHDATA | (r->fmt == 2 ? MSF_PACKVER2 : 0), 0) == 1);
    r->len = (int)(sl - r->off);
  }
  char *av[40];
  int ac = 0, quiet = 0, list = 0, fmt = ISOMONTHDAY_Z, split = 0, tg = 0, count = -1, print = 0, offs = 0, sum = 0, mat = -1, rej = -1, out = 0;
  char use[NR], b1[64], b2[64], b3[64], tsb[64], teb[64], cnt[20], tt[40], gmin[40], gmax[40], path[64], opath[64], bpath[64];
  double tol = 0.5 / rate, mn = -1e300, mx = 1e300;
  av[ac++] = "msi";
#define OPT(S) (av[ac++] = (S))
  switch (vp_u (0, 7))
  {
  case 0: OPT ("-t"), list = 1; break;
  case 1: OPT ("-T"), list = 1, quiet = 1; break;
  case 2: OPT ("-tg"), list = 1, tg = 1, quiet = 1; break;
  case 3: OPT ("-t"), OPT ("-tg"), list = 1, tg = 1; break;
  case 4: OPT ("-g"), list = 2; break;
  case 5: OPT ("-G"), list = 2, quiet = 1; break;
  case 6: OPT ("-S"), list = 3, quiet = 1; break;
  default: break;
  }
  if (list == 2 && vp_bool ())
    mn = (double)vp_i (0, 100), sprintf (gmin, "%g", mn), OPT ("-gmin"), OPT (gmin);
  if (list == 2 && vp_bool ())
    mx = (double)vp_i (0, 2000), sprintf (gmax, "%g", mx), OPT ("-gmax"), OPT (gmax);
  if (list && vp_bool ())
  {
    tol = (ordered && vp_bool () ? len * 1.5 : 0.25) / rate;
    sprintf (tt, "%.9g", tol);
    tol = strtod (tt, NULL);
    OPT ("-tt"), OPT (tt);
  }
  if (list && vp_u (0, 2) == 0)
    OPT (vp_bool () ? "-Q" : "-P"), split = 1;
  switch (vp_u (0, 5))
  {
  case 0: OPT ("-tf"), OPT ("0"), fmt = SEEDORDINAL; break;
  case 1: OPT ("-tf"), OPT ("1"), fmt = ISOMONTHDAY; break;
  case 2: OPT ("-tf"), OPT ("2"), fmt = UNIXEPOCH; break;
  default: break;
  }
  if (vp_u (0, 3) == 0)
    count = (int)vp_u (1, NR), sprintf (cnt, "%d", count), OPT ("-n"), OPT (cnt);
  if (vp_u (0, 2) == 0)
    OPT ("-O"), offs = 1;
  if (vp_u (0, 2) == 0)
    OPT ("-s"), sum = 1;
  if (vp_u (0, 4) == 0)
    print = (int)vp_u (1, 2), OPT (print == 1 ? "-d" : "-D");
  nstime_t lo = INT64_MIN, hi = INT64_MAX;
  if (vp_u (0, 3) == 0)
    lo = edge (&R[vp_u (0, (uint64_t)nr - 1)], per, len), OPT ("-ts"), OPT (ts (tsb, lo, ISOMONTHDAY_Z, NANO));
  if (vp_u (0, 3) == 0)
    hi = edge (&R[vp_u (0, (uint64_t)nr - 1)], per, len), OPT ("-te"), OPT (ts (teb, hi, ISOMONTHDAY_Z, NANO));
  static const char *pats[] = {"XX_AAA_00", "AAA_?0", "YY*N", "nothing", "[XY][XY]_[A]", "XX*H_Z"};
  static const char hit[6][3] = {{1, 0, 0}, {1, 1, 0}, {0, 0, 1}, {0, 0, 0}, {1, 1, 0}, {1, 1, 0}};
  if (vp_u (0, 3) == 0)
    mat = (int)vp_u (0, 5), OPT ("-m"), OPT ((char *)pats[mat]);
  if (vp_u (0, 3) == 0)
    rej = (int)vp_u (0, 5), OPT ("-r"), OPT ((char *)pats[rej]);
  int fd = memfd_create ("in", 0), od = memfd_create ("out", 0), ofd = -1, bfd = -1, left = count, recs = 0;
  VP_ASSUME (fd >= 0 && od >= 0 && write (fd, st, (size_t)sl) == sl);
  if (vp_u (0, 3) == 0)
    out = 1, ofd = memfd_create ("rec", 0), sprintf (opath, "/proc/self/fd/%d", ofd), OPT ("-o"), OPT (opath);
  if (vp_u (0, 3) == 0)
    out |= 2, bfd = memfd_create ("bin", 0), sprintf (bpath, "/proc/self/fd/%d", bfd), OPT ("-b"), OPT (bpath);
  sprintf (path, "/proc/self/fd/%d", fd);
  OPT (path);
  av[ac] = NULL;
  /* expected output */
  static char eo[200000], eb[10000];
  int64_t eol = 0, ebl = 0, samples = 0;
  for (int i = 0; i < nr; i++)
  {
    struct rc *r = &R[i];
    use[i] = 0;
    if (left == 0)
      continue;
    if (r->e < lo || r->t > hi || (mat >= 0 && !hit[mat][r->sid]) || (rej >= 0 && hit[rej][r->sid]))
      continue;
    use[i] = 1, recs++, samples += r->n;
    if (left > 0)
      left--;
    if (!quiet)
    {
      if (offs)
        pr ("%-10lld", (long long)r->off);
      pr ("%s, %d, %d, %d samples, %-.10g Hz, %s\n", sids[r->sid], r->ver, r->len, r->n, rate, ts (b1, r->t, ISOMONTHDAY_DOY_Z, NANO_MICRO));
      for (int k = 0; print && k < (print == 1 && r->n > 6 ? 6 : r->n); k++)
        pr ("%10d  %s", r->d[k], k % 6 == 5 || k == r->n - 1 ? "\n" : "");
    }
    memcpy (eo + eol, st + r->off, (size_t)r->len), eol += r->len;
    memcpy (eb + ebl, r->d, (size_t)r->n * 4), ebl += r->n * 4;
  }
  if (sum)
    pr ("Files: 1, Records: %d, Samples: %lld\n", recs, (long long)samples);
  if (list == 1)
    pr (tg ? "       SourceID                      Start sample                End sample           Gap  Hz  Samples\n" : "       SourceID                      Start sample                End sample           Hz  Samples\n");
  if (list == 2)
    pr ("       SourceID                      Last Sample                 Next Sample          Gap  Samples\n");
  if (list == 3)
  {
    time_t now = time (NULL);
    struct tm *g = localtime (&now);
    pr ("DCC|%04d,%03d\n", g->tm_year + 1900, g->tm_yday + 1);
  }
  int traces = 0, segs = 0, gaps = 0;
  for (int s = 0; list && s < 3; s++)
    for (int v = split ? 1 : -1; v <= (split ? 3 : -1); v++)
    {
      struct seg o[NR];
      int n = cover (s, v, use, tol, per, o);
      traces += n > 0;
      for (int k = 0; k < n; k++)
      {
        char name[80];
        double gap = k ? (double)(o[k].s - o[k - 1].e) / 1e9 : 0;
        segs++;
        if (split)
          sprintf (name, "%s#%d", sids[s], v);
        else
          strcpy (name, sids[s]);
        if (list == 1 && tg)
          pr ("%-27s %-28s %-28s %-s %-3.3g %-lld\n", name, ts (b1, o[k].s, fmt, NANO_MICRO), ts (b2, o[k].e, fmt, NANO_MICRO), gap_text (b3, gap, k == 0), rate, (long long)o[k].n);
        else if (list == 1)
          pr ("%-27s %-28s %-28s %-3.3g %-lld\n", name, ts (b1, o[k].s, fmt, NANO_MICRO), ts (b2, o[k].e, fmt, NANO_MICRO), rate, (long long)o[k].n);
        else if (list == 2 && k && gap >= mn && gap <= mx)
        {
          pr ("%-27s %-28s %-28s %-4s %-.8g\n", sids[s], ts (b1, o[k - 1].e, fmt, NANO_MICRO), ts (b2, o[k].s, fmt, NANO_MICRO), gap_text (b3, gap, 0), gap * rate - 1.0);
          gaps++;
        }
        else if (list == 3)
        {
          char net[11] = "", sta[11] = "", loc[11] = "", ch[11] = "";
          static const char *c[3][4] = {{"XX", "AAA", "00", "BHZ"}, {"XX", "AAA", "10", "BHZ"}, {"YY", "B", "", "LHN"}};
          time_t now = time (NULL);
          struct tm *g = localtime (&now);
          (void)net, (void)sta, (void)loc, (void)ch;
          pr ("%s|%s|%s|%s|%s|%s||%.10g|%lld|||||||%04d,%03d\n", c[s][0], c[s][1], c[s][2], c[s][3], ts (b1, o[k].s, SEEDORDINAL, 1), ts (b2, o[k].e, SEEDORDINAL, 1), rate, (long long)o[k].n, g->tm_year + 1900, g->tm_yday + 1);
        }
      }
    }
  if (list == 1)
    pr ("Total: %d trace(s) with %d segment(s)\n", traces, segs);
  if (list == 2)
    pr ("Total: %d gap(s)\n", gaps);
  fflush (stdout);
  fflush (stderr);
  pid_t pid = fork ();
  VP_ASSUME (pid >= 0);
  if (pid == 0)
  {
    dup2 (od, 1);
    fflush (stdout);
    int rc = msi_main (ac, av);
    fflush (stdout);
    _exit (rc);
  }
  int ws = -1;
  waitpid (pid, &ws, 0);
  VP_ASSERT (WIFEXITED (ws) && WEXITSTATUS (ws) == 0, "the tool succeeds");
  ssize_t gl = pread (od, got, sizeof got - 1, 0);
  got[gl < 0 ? 0 : gl] = 0;
  if (gl != el || memcmp (got, ex, (size_t)el))
    fprintf (stderr, "expected:\n%.*s\nprinted:\n%s\n", el, ex, got);
  VP_ASSERT (gl == el && !memcmp (got, ex, (size_t)el), "the output is the rendering of the input");
  if (out & 1)
    VP_ASSERT (pread (ofd, got, sizeof got, 0) == eol && !memcmp (got, eo, (size_t)eol), "records written are those listed");
  if (out & 2)
    VP_ASSERT (pread (bfd, got, sizeof got, 0) == ebl && !memcmp (got, eb, (size_t)ebl), "samples written are those listed");
  close (fd), close (od);
  if (ofd >= 0)
    close (ofd);
  if (bfd >= 0)
    close (bfd);
  VP_REACH ("tool run");
}
