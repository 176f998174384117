/*UNIT
{"mode": "runtime", "search": 25, "procs": 4, "functions": ["mstl3_addmsr_recordptr", "mstl3_findID", "mstl3_addID", "mstl3_msr2seg", "mstl3_addmsrtoseg", "mstl3_addsegtoseg", "mstl3_add_recordptr", "mstl3_free"],
 "note": "random sequences of up to 40 records of up to three identifiers and three versions on and off a common time grid, any arrival order, default and given tolerances, with and without healing, splitting and record lists; the whole list is compared with its state before after every step"}
*/
/* Contract of adding a record: exactly one segment is created, extended at one end, or two are joined
 * through the record, by the stated rate and time tolerances and whenever those allow; all other
 * segments keep their values, and the list invariants (order, links, counts, times, data) hold. */
#include "vp.h"
#include "repo.h"
#include "tracelist.c"
#undef malloc
#undef free

#define MAXR 40
#define MAXN 6
struct snap
{
  MS3TraceSeg *p;
  nstime_t start, end;
  double rate;
  int64_t cnt, num;
  char type;
  int32_t data[MAXR * MAXN];
  int nrec;
  MS3RecordPtr *rec[MAXR];
  void *prv;
};
struct isnap
{
  MS3TraceID *p;
  char sid[LM_SIDLEN];
  uint8_t pub;
  nstime_t earliest, latest;
  int n;
  struct snap s[MAXR];
};
static struct isnap A[10], B[10];
static double ttol, rtol;
static double tfn (const MS3Record *m) { (void)m; return ttol; }
static double rfn (const MS3Record *m) { (void)m; return rtol; }

static int
take_snap (MS3TraceList *l, struct isnap *o, int big)
{
  int n = 0;
  for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0], n++)
  {
    struct isnap *q = &o[n];
    nstime_t lo = INT64_MAX, hi = INT64_MIN;
    q->p = id, q->pub = id->pubversion, q->n = 0, q->earliest = id->earliest, q->latest = id->latest;
    memcpy (q->sid, id->sid, sizeof q->sid);
    MS3TraceSeg *prev = NULL;
    for (MS3TraceSeg *g = id->first; g; prev = g, g = g->next)
    {
      struct snap *s = &q->s[q->n++];
      VP_ASSERT (g->prev == prev, "each segment links back to the one before it");
      if (prev && !big)
        VP_ASSERT (prev->starttime < g->starttime || (prev->starttime == g->starttime && prev->endtime >= g->endtime), "segments are in time order");
      if (g->starttime < lo)
        lo = g->starttime;
      if (g->endtime > hi)
        hi = g->endtime;
      s->p = g, s->start = g->starttime, s->end = g->endtime, s->rate = g->samprate, s->cnt = g->samplecnt, s->num = g->numsamples, s->type = g->sampletype, s->prv = g->prvtptr;
      VP_ASSERT (g->numsamples == 0 || (g->datasamples && (int64_t)g->datasize >= g->numsamples * 4), "sample data are present and fit");
      if (g->numsamples)
        memcpy (s->data, g->datasamples, (size_t)g->numsamples * 4);
      s->nrec = 0;
      if (g->recordlist)
      {
        MS3RecordPtr *last = NULL;
        for (MS3RecordPtr *r = g->recordlist->first; r; last = r, r = r->next)
          s->rec[s->nrec++] = r;
        VP_ASSERT (g->recordlist->last == last && g->recordlist->recordcnt == (uint64_t)s->nrec, "record list count and end are right");
      }
    }
    VP_ASSERT (id->first && id->last == prev, "first and last segments are the ends of the list");
    VP_ASSERT (id->numsegments == (uint32_t)q->n, "segment count is right");
    if (!big)
      VP_ASSERT (id->earliest == lo && id->latest == hi, "earliest and latest times are those of the segments");
    if (n)
    {
      int c = strcmp (o[n - 1].sid, q->sid);
      VP_ASSERT (c < 0 || (c == 0 && o[n - 1].pub < q->pub), "identifiers are in order and unique");
    }
  }
  VP_ASSERT (l->numtraceids == (uint32_t)n, "trace count is right");
  for (int lev = 1; lev < MSTRACEID_SKIPLIST_HEIGHT; lev++)
  {
    MS3TraceID *z = l->traces.next[0];
    for (MS3TraceID *id = l->traces.next[lev]; id; id = id->next[lev])
    {
      while (z && z != id)
        z = z->next[0];
      VP_ASSERT (z != NULL, "upper levels of the list are in the order of the lowest");
    }
  }
  return n;
}
static int
same (struct snap *a, struct snap *b)
{
  return a->p == b->p && a->start == b->start && a->end == b->end && a->rate == b->rate && a->cnt == b->cnt && a->num == b->num && a->prv == b->prv &&
         (!a->num || (a->type == b->type && !memcmp (a->data, b->data, (size_t)a->num * 4))) && a->nrec == b->nrec && !memcmp (a->rec, b->rec, (size_t)a->nrec * sizeof a->rec[0]);
}
static struct snap *
find (struct isnap *i, MS3TraceSeg *p)
{
  for (int k = 0; k < i->n; k++)
    if (i->s[k].p == p)
      return &i->s[k];
  return NULL;
}
/* r is the concatenation of the parts */
static void
joined (struct snap *r, struct snap *a, const MS3Record *m, MS3RecordPtr *rp, struct snap *b)
{
  int64_t cnt = m->samplecnt, num = 0;
  int nr = 0;
  if (a)
  {
    cnt += a->cnt;
    VP_ASSERT (r->num >= a->num && !memcmp (r->data, a->data, (size_t)a->num * 4), "samples before the record come first");
    num = a->num;
    for (int k = 0; k < a->nrec; k++)
      {
        VP_ASSERT (nr < r->nrec && r->rec[nr] == a->rec[k], "records before come first");
        nr++;
      }
  }
  VP_ASSERT (r->num >= num + m->numsamples && !memcmp (r->data + num, m->datasamples ? m->datasamples : "", (size_t)m->numsamples * 4), "samples of the record follow in order");
  num += m->numsamples;
  if (rp)
    {
      VP_ASSERT (nr < r->nrec && r->rec[nr] == rp, "the record is listed in order");
      nr++;
    }
  if (b)
  {
    cnt += b->cnt;
    VP_ASSERT (r->num >= num + b->num && !memcmp (r->data + num, b->data, (size_t)b->num * 4), "samples after the record come last");
    num += b->num;
    for (int k = 0; k < b->nrec; k++)
      {
        VP_ASSERT (nr < r->nrec && r->rec[nr] == b->rec[k], "records after come last");
        nr++;
      }
  }
  VP_ASSERT (r->cnt == cnt && r->num == num && r->nrec == nr, "counts are the sums of what was joined");
}
static int
agree (double a, double b, int given)
{
  if (given && rtol > 0)
    return fabs (a - b) <= rtol;
  return fabs (1.0 - a / b) < 0.0001;
}
void
harness (void)
{
  static const char *sids[] = {"FDSN:XX_AAA__B_H_Z", "FDSN:XX_AAA_00_B_H_Z", "FDSN:XX_B__L_H_N"};
  static const double rates[] = {1.0, 1.00005, 1.0002, 2.0, 20.0, -10.0};
  static int32_t buf[MAXN];
  int nr = (int)vp_u (1, MAXR), ns = (int)vp_u (1, 3), nver = (int)vp_u (1, 3), nrate = vp_bool () ? 1 : (int)vp_u (1, 4), r0 = (int)vp_u (0, 5);
  int split = vp_bool (), heal = vp_bool (), recs = vp_bool (), usetol = (int)vp_u (0, 3), span = (int)vp_u (4, 60), jit = vp_u (0, 2), big = 0, len = (int)vp_u (1, MAXN), data = vp_u (0, 4) != 0;
  MS3Tolerance tol = {0};
  ttol = (double)vp_u (0, 2000) / 4000.0;
  rtol = (double)vp_u (0, 40) / 20000.0;
  if (usetol & 1)
    tol.time = tfn;
  if (usetol & 2)
    tol.samprate = rfn;
  if (vp_u (0, 9) == 0 && (usetol & 1))
    ttol *= 40;
  for (int k = 0; k < nrate; k++) /* tolerances of a period and more join overlapping records: times may then shrink */
    if ((usetol & 1) && ttol * fabs (rates[(r0 + k) % 6] < 0 ? 0.1 : rates[(r0 + k) % 6]) > 0.9)
      big = 1;
  libmseed_prealloc_block_size = vp_bool () ? 0 : 64;
  MS3TraceList *l = mstl3_init (NULL);
  VP_ASSERT (l != NULL && l->numtraceids == 0, "a new list is empty");
  int na = take_snap (l, A, big);
  int perm = vp_bool ();
  uint8_t used[64] = {0};
  for (int i = 0; i < nr; i++)
  {
    MS3Record m = {0};
    MS3RecordPtr *rp = NULL;
    double rate = rates[(r0 + (int)vp_u (0, nrate - 1)) % 6], per = rate > 0 ? 1e9 / rate : -1e9 * rate;
    int n = (int)vp_u (0, 12) == 0 ? (int)vp_u (1, MAXN) : len, slot = (int)vp_u (0, span);
    if (perm) /* each slot once: gaps get filled in */
    {
      for (int k = 0; k <= span && used[slot]; k++)
        slot = (slot + 1) % (span + 1);
      used[slot] = 1;
    }
    strcpy (m.sid, sids[vp_u (0, ns - 1)]);
    m.pubversion = (uint8_t)vp_u (1, nver);
    m.reclen = 512, m.formatversion = 3;
    m.samprate = rate;
    m.starttime = 1600000000000000000 + (nstime_t)(per * slot * len);
    if (jit == 1)
      m.starttime += (nstime_t)(per * (double)vp_i (-1100, 1100) / 1000.0);
    else if (jit == 2 && vp_bool ())
      m.starttime += (nstime_t)(((usetol & 1) ? (nstime_t)(1e9 * ttol) : (nstime_t)(0.5 * per)) + vp_i (-1, 1)) * (vp_bool () ? 1 : -1);
    m.samplecnt = n;
    m.sampletype = 'i';
    if (data)
    {
      for (int k = 0; k < n; k++)
        buf[k] = i * 100 + k;
      m.datasamples = buf, m.numsamples = n, m.datasize = (size_t)n * 4;
    }
    nstime_t end = msr3_endtime (&m), p = msr3_nsperiod (&m);
    nstime_t tt = (usetol & 1) ? (nstime_t)(1e9 * ttol) : (nstime_t)(0.5 * p);
    double hz = msr3_sampratehz (&m);
    MS3TraceSeg *g = mstl3_addmsr_recordptr (l, &m, recs ? &rp : NULL, (int8_t)split, (int8_t)heal, 0, (usetol || vp_bool ()) ? &tol : NULL);
    VP_ASSERT (g != NULL, "record is added");
    int nb = take_snap (l, B, big);
    struct isnap *ia = NULL, *ib = NULL;
    for (int k = 0; k < na; k++)
      if (!strcmp (A[k].sid, m.sid) && (!split || A[k].pub == m.pubversion))
        ia = &A[k];
    for (int k = 0; k < nb; k++)
      if (!strcmp (B[k].sid, m.sid) && (!split || B[k].pub == m.pubversion))
        ib = &B[k];
    VP_ASSERT (ib != NULL && nb == na + (ia == NULL), "one identifier is added if there was none");
    VP_ASSERT (ib->pub == (ia && ia->pub > m.pubversion ? ia->pub : m.pubversion), "version is the largest added");
    VP_ASSERT (mstl3_findID (l, m.sid, split ? m.pubversion : 0, NULL) == ib->p, "the identifier is found");
    for (int k = 0, z = 0; k < nb; k++)
    {
      if (&B[k] == ib)
      {
        z += ia != NULL;
        continue;
      }
      VP_ASSERT (B[k].p == A[z].p && B[k].n == A[z].n && B[k].pub == A[z].pub && B[k].earliest == A[z].earliest && B[k].latest == A[z].latest, "other identifiers are unchanged");
      for (int s = 0; s < B[k].n; s++)
        VP_ASSERT (same (&B[k].s[s], &A[z].s[s]), "other identifiers are unchanged");
      z++;
    }
    struct snap *r = find (ib, g), *a = NULL, *b = NULL;
    VP_ASSERT (r != NULL, "the segment returned is in the list");
    int fitend = 0, fitstart = 0, dup = 0, before = ia ? ia->n : 0;
    for (int k = 0; k < before; k++)
    {
      struct snap *s = &ia->s[k];
      nstime_t ge = m.starttime - s->end - p, gs = s->start - end - p;
      fitend |= ge <= tt && ge >= -tt && agree (hz, s->rate, usetol & 2);
      fitstart |= gs <= tt && gs >= -tt && agree (hz, s->rate, usetol & 2);
      dup |= m.starttime == s->start && end == s->end;
    }
    if (ib->n == before + 1)
    {
      VP_ASSERT (!(fitend || fitstart) || (heal && dup), "a record that fits a segment is joined to it");
      VP_ASSERT (r->start == m.starttime && r->end == end && r->rate == hz && r->type == m.sampletype, "a new segment is the record");
      joined (r, NULL, &m, rp, NULL);
    }
    else
    {
      a = find (ia, g);
      VP_ASSERT (a != NULL, "an existing segment is extended");
      VP_ASSERT (r->rate == a->rate && r->prv == a->prv, "rate of an extended segment is kept");
      nstime_t ge = m.starttime - a->end - p, gs = a->start - end - p;
      int e = ge <= tt && ge >= -tt, s = gs <= tt && gs >= -tt;
      VP_ASSERT ((e || s) && agree (hz, a->rate, usetol & 2), "only a segment that fits within the tolerances is extended");
      if (ib->n == before)
      {
        if (e && s)
          VP_ASSERT (big && r->cnt == a->cnt + n && ((r->start == a->start && r->end == end) || (r->start == m.starttime && r->end == a->end)), "segment is extended by the record");
        else if (e)
        {
          VP_ASSERT (r->start == a->start && r->end == end, "segment is extended to the end of the record");
          joined (r, a, &m, rp, NULL);
        }
        else
        {
          VP_ASSERT (s && r->start == m.starttime && r->end == a->end, "segment is extended to the start of the record");
          joined (r, NULL, &m, rp, a);
        }
      }
      else
      {
        VP_ASSERT (heal && ib->n == before - 1, "segments are joined only if healing");
        for (int k = 0; k < before; k++)
          if (!find (ib, ia->s[k].p))
            b = &ia->s[k];
        VP_ASSERT (e && b, "the record extends the first of the joined segments");
        gs = b->start - end - p;
        VP_ASSERT (gs <= tt && gs >= -tt && agree (hz, b->rate, usetol & 2), "the record fits the second of the joined segments");
        VP_ASSERT (r->start == a->start && r->end == b->end, "joined segment covers both");
        joined (r, a, &m, rp, b);
      }
    }
    if (heal && fitend && fitstart && !dup && !big && (!usetol || usetol == 2) && ia->n > 1)
    {
      /* the simple cases take only the last segment; otherwise a record filling a gap joins both */
      struct snap *last = &ia->s[ia->n - 1];
      nstime_t gl = m.starttime - last->end - p;
      int simple = gl <= tt && gl >= -tt && agree (hz, last->rate, usetol & 2);
      nstime_t gf = ia->s[0].start - end - p;
      simple |= (gf <= tt && gf >= -tt && agree (hz, ia->s[0].rate, usetol & 2)) || m.starttime - p - tt > ia->latest || end + p + tt < ia->earliest;
      VP_ASSERT (simple || ib->n == before - 1, "a record that fills a gap joins the segments around it");
    }
    for (int k = 0; k < before; k++)
      if (&ia->s[k] != a && &ia->s[k] != b)
      {
        struct snap *o = find (ib, ia->s[k].p);
        VP_ASSERT (o && same (o, &ia->s[k]), "other segments are unchanged");
      }
    memcpy (A, B, sizeof A[0] * (size_t)nb);
    na = nb;
  }
  mstl3_free (&l, 0);
  VP_ASSERT (l == NULL, "list is released");
  VP_REACH ("records added");
}
