/*UNIT
{"mode": "runtime", "search": 25, "procs": 4, "functions": ["ms3_readmsr_selection", "ms3_shift_msfp", "parse_pathname_range", "ms3_readtracelist_selection", "mstl3_readbuffer_selection", "msio_fopen", "msio_fread", "msio_feof"],
 "note": "random streams of up to 30 records of both versions and of any length up to the buffer's, with other bytes between, cut anywhere, read by path, by descriptor of a pipe and from memory, with byte ranges, selections and both handlings of other bytes; the read buffer of the reader is reduced to 1200 bytes so that every alignment of records and buffer is reached"}
*/
/* Contract of the stream reader: exactly the records of the stream that start in the range, in order,
 * each once and at its offset; then end of file, or the error that other bytes were found. */
#define _GNU_SOURCE
#include "vp.h"
#include "repo.h"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#undef MAXRECLEN
#define MAXRECLEN 1200
#include "fileutils.c"
#undef malloc
#undef free
#define MAXS 40000
struct item
{
  int64_t off;
  int len, sid;
  int64_t time;
};
static struct item it[32];
static int nit;
static char st[MAXS];
static int64_t sl;
static void
put (char *r, int n, void *x)
{
  (void)x;
  memcpy (st + sl, r, (size_t)n);
  sl += n;
}
static const char *sids[] = {"FDSN:XX_AAA_00_B_H_Z", "FDSN:XX_B__L_H_N", "FDSN:XX_AAAB_10_B_H_E"};
static void
addrec (int i)
{
  MS3Record m = {0};
  static char text[1200];
  struct item *q = &it[nit++];
  int v2 = vp_u (0, 3) == 0;
  q->off = sl, q->sid = (int)vp_u (0, 2), q->time = 1000000000ll * (1600000000 + i * 100);
  strcpy (m.sid, sids[q->sid]);
  m.starttime = q->time, m.samprate = 1, m.encoding = DE_TEXT, m.pubversion = 1, m.sampletype = 't';
  m.formatversion = v2 ? 2 : 3, m.datasamples = text, m.reclen = v2 ? 128 << vp_u (0, 3) : MAXRECLEN;
  int room = v2 ? m.reclen - 64 : MAXRECLEN - 40 - (int)strlen (m.sid);
  int n = vp_bool () ? (int)vp_u (0, 30) : (int)vp_u (0, room);
  if (n > room)
    n = room;
  if (n == 0)
    n = 1;
  memset (text, 'a' + i % 26, (size_t)n);
  m.numsamples = m.samplecnt = n, m.datasize = (size_t)n;
  int64_t packed = 0;
  VP_ASSUME (msr3_pack (&m, put, NULL, &packed, MSF_FLUSHDATA | (v2 ? MSF_PACKVER2 : 0), 0) == 1);
  q->len = (int)(sl - q->off);
}
void
harness (void)
{
  int nr = (int)vp_u (1, 30), garb = vp_u (0, 2) == 0, flags = 0, how = (int)vp_u (0, 4), sel = vp_u (0, 3) == 0;
  int skip = garb ? vp_u (0, 3) != 0 : vp_bool ();
  int64_t badat = -1;
  nit = 0, sl = 0;
  for (int i = 0; i < nr; i++)
  {
    if (garb && vp_u (0, 3) == 0)
    {
      int g = vp_bool () ? (int)vp_u (1, 60) : (int)vp_u (1, 1300);
      if (sl + g > MAXS - 1300)
        g = 1;
      if (badat < 0)
        badat = sl;
      for (int k = 0; k < g; k++)
        st[sl++] = (char)('a' + (k * 7 + i) % 20);
    }
    if (sl > MAXS - 1300)
      break;
    addrec (i);
  }
  if (vp_u (0, 3) == 0)
    sl -= (int64_t)vp_u (0, (uint64_t)it[nit - 1].len - 1); /* cut in the last record */
  if (skip)
    flags |= MSF_SKIPNOTDATA;
  if (vp_bool ())
    flags |= MSF_VALIDATECRC;
  int64_t lo = 0, hi = sl - 1;
  int range = how <= 1 && vp_bool ();
  if (range)
  {
    lo = it[vp_u (0, (uint64_t)nit - 1)].off;
    hi = lo + (int64_t)vp_u (0, (uint64_t)(sl + 100));
    if (hi == 0)
      hi = 1;
  }
  MS3Selections *s = NULL;
  if (sel)
    VP_ASSUME (ms3_addselect (&s, sids[0], NSTUNSET, NSTUNSET, 0) == 0);
  char path[80];
  int fd = -1, pp[2];
  MS3FileParam *fp = NULL;
  MS3Record *m = NULL;
  if (how <= 3)
  {
    if (how == 2)
    {
      VP_ASSUME (pipe (pp) == 0);
      fcntl (pp[1], F_SETPIPE_SZ, 65536);
      VP_ASSUME (write (pp[1], st, (size_t)sl) == sl);
      close (pp[1]);
      fp = ms3_mstl_init_fd (pp[0]);
      VP_ASSUME (fp != NULL);
      strcpy (path, "a pipe");
    }
    else
    {
      fd = memfd_create ("stream", 0);
      VP_ASSUME (fd >= 0);
      VP_ASSUME (write (fd, st, (size_t)sl) == sl);
      if (!range)
        sprintf (path, "/proc/self/fd/%d", fd);
      else if (lo == 0 && vp_bool ())
        sprintf (path, "/proc/self/fd/%d@-%lld", fd, (long long)hi);
      else if (hi >= sl - 1 && vp_bool ())
        sprintf (path, "/proc/self/fd/%d@%lld", fd, (long long)lo);
      else
        sprintf (path, "/proc/self/fd/%d@%lld-%lld", fd, (long long)lo, (long long)hi);
      if (range)
        flags |= MSF_PNAMERANGE;
    }
  }
  /* what must be delivered */
  int want[32], nw = 0, stop = 0;
  int64_t pos = lo;
  for (int i = 0; i < nit && !stop; i++)
  {
    if (it[i].off < lo)
      continue;
    if (it[i].off > pos && !skip && (how != 4))
      stop = 1; /* other bytes first */
    else if (it[i].off > pos && how == 4)
      stop = 1;
    else if (it[i].off + it[i].len > sl)
      break;
    else if (range && hi + 1 - it[i].off < 40)
      break;
    else
    {
      if (!sel || it[i].sid == 0)
        want[nw++] = i;
      pos = it[i].off + it[i].len;
    }
  }
  if (how <= 2)
  {
    int rc, got = 0;
    for (;;)
    {
      rc = ms3_readmsr_selection (&fp, &m, path, (uint32_t)flags, s, 0);
      if (rc != MS_NOERROR)
        break;
      VP_ASSERT (got < nw, "no more records than the stream holds are delivered");
      struct item *q = &it[want[got++]];
      VP_ASSERT (m->reclen == q->len && m->starttime == q->time && !strcmp (m->sid, sids[q->sid]), "records are delivered in order");
      VP_ASSERT (fp->streampos - m->reclen == q->off, "the stream position is that of the record");
      VP_ASSERT (!memcmp (m->record, st + q->off, (size_t)q->len), "the record is that of the stream");
    }
    VP_ASSERT (got == nw, "every record of the stream is delivered");
    if (stop && sl - pos >= 40 && (!range || hi + 1 - pos >= 40))
      VP_ASSERT (rc < 0 && rc != MS_ENDOFFILE, "other bytes are reported unless they are to be skipped");
    else
      VP_ASSERT (rc == MS_ENDOFFILE || nw == 0 || stop, "the stream ends after its last record");
    VP_ASSERT (m == NULL, "no record is left at the end");
    ms3_readmsr_selection (&fp, &m, NULL, 0, NULL, 0);
    VP_ASSERT (fp == NULL, "parameters are released");
  }
  else
  {
    MS3TraceList *l = NULL;
    int64_t rc;
    int64_t n = 0, smp = 0, wsmp = 0;
    if (how == 3)
      rc = ms3_readtracelist_selection (&l, path, NULL, s, 0, (uint32_t)flags | MSF_RECORDLIST, 0);
    else
      rc = mstl3_readbuffer_selection (&l, st, (uint64_t)sl, 0, (uint32_t)flags | MSF_RECORDLIST, NULL, s, 0);
    uint8_t seen[32] = {0};
    if (l)
      for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0])
        for (MS3TraceSeg *g = id->first; g; g = g->next)
        {
          smp += g->samplecnt;
          for (MS3RecordPtr *r = g->recordlist ? g->recordlist->first : NULL; r; r = r->next, n++)
          {
            int k;
            int64_t off = how == 4 ? r->bufferptr - st : r->fileoffset;
            for (k = 0; k < nw && it[want[k]].off != off; k++)
              ;
            VP_ASSERT (k < nw && !seen[k]++ && r->msr->starttime == it[want[k]].time && r->msr->reclen == it[want[k]].len, "listed records are those of the stream at their offsets");
            if (r->msr->formatversion == 3)
              VP_ASSERT (r->dataoffset == 40 + strlen (r->msr->sid), "data offset of the record is right");
            wsmp += r->msr->samplecnt;
          }
        }
    VP_ASSERT (n == nw && smp == wsmp, "every record of the stream is added once");
    if (how == 4)
      VP_ASSERT (stop || rc == nw, "count of records read is returned");
    else
      VP_ASSERT (stop || nw == 0 || rc == MS_NOERROR, "reading succeeds");
    if (l)
      mstl3_free (&l, 0);
  }
  if (s)
    ms3_freeselections (s);
  if (fd >= 0)
    close (fd);
  VP_REACH ("stream read");
}
