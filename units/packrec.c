/*UNIT
{"mode": "runtime", "search": 20, "procs": 4,
 "variants": {"hdr": {"defs": ["V_HDR"], "functions": ["msr3_pack_header2", "msr3_pack_header3", "msr3_repack_mseed3", "msr3_pack", "msr3_parse"], "note": "random record descriptions of both format versions, records of up to 1024 bytes, blockettes of every kind"},
              "cover": {"defs": ["V_COVER"], "functions": ["msr3_pack", "msr3_pack_mseed2", "msr3_pack_mseed3", "msr_pack_data", "msr3_parse"], "note": "series of up to 1500 samples, every encoding, records of 40 to 1024 bytes, with and without flushing"}}}
*/
/* Contracts of the record writer, executed on the real code: what is written is read back with the
 * same header (hdr); the records of a series hold every sample once, in order, each starting at the
 * time of its first sample and within the record length (cover). */
#define VP_DEFINE_LOG
#include "vp.h"
#include "repo.h"
#include "genutils.c"
#undef malloc
#undef free
static uint32_t
rnd (uint32_t n)
{
  return (uint32_t)vp_u (0, n - 1);
}
static void
gensid (char *sid, int v2)
{
  static const char A[] = "ABCXYZ0189";
  char n[9], s[20], l[9], b[5], r[3], u[5];
  int nl = 1 + rnd (v2 ? 2 : 8), sl = 1 + rnd (v2 ? 5 : 8), ll = rnd (v2 ? 3 : 9), i;
  for (i = 0; i < nl; i++) n[i] = A[rnd (10)];
  n[i] = 0;
  for (i = 0; i < sl; i++) s[i] = A[rnd (10)];
  s[i] = 0;
  for (i = 0; i < ll; i++) l[i] = A[rnd (10)];
  l[i] = 0;
  for (i = 0; i < 1; i++) b[i] = A[rnd (6)], u[i] = A[rnd (6)];
  b[1] = r[1] = u[1] = 0;
  r[0] = A[rnd (6)];
  if (v2 == 1 && rnd (8) == 7)
    strcat (s, "TOOLONG"), s[8] = 0;
  sprintf (sid, "FDSN:%s_%s_%s_%s_%s_%s", n, s, l, b, r, u);
}
static double
genrate (void)
{
  switch (rnd (7))
  {
  case 0: return 0;
  case 1: return 1 + rnd (400);
  case 2: return -(double)(1 + rnd (400));
  case 3: return (1 + rnd (100000)) / 1000.0;
  case 4: return -(double)(1 + rnd (100000)) / 1000.0;
  case 5: return 1.0 / (1 + rnd (1000));
  }
  return 20.0 * (1 + (double)rnd (2000000));
}
static nstime_t
gentime (void)
{
  static const int64_t ns[] = {0, 1000, 99000, 100000, 99999000, 999999999, 123456789, 500000000, 1};
  return ((int64_t)vp_i (-2000000000, 4000000000) * 1000000000) + (vp_bool () ? ns[rnd (9)] : (int64_t)rnd (1000000000));
}
static void
describe (MS3Record *m, int v2)
{
  memset (m, 0, sizeof *m);
  gensid (m->sid, v2);
  m->formatversion = v2 ? 2 : 3;
  m->flags = (uint8_t)vp_u (0, v2 ? 7 : 255);
  do /* the byte order of miniSEED 2 headers of days 1, 256 and 257 of 2056 (0x0808) cannot be told */
    m->starttime = gentime ();
  while (v2 && m->starttime / 1000000000 / 86400 >= 31410 && m->starttime / 1000000000 / 86400 <= 31778);
  m->samprate = genrate ();
  m->pubversion = v2 ? (uint8_t)vp_u (1, 4) : vp_u8 ();
  m->encoding = (int16_t[]){0, 1, 3, 4, 5, 10, 11, -1}[rnd (8)];
}
static int
floor_to (nstime_t t, int64_t res, nstime_t got)
{
  return got == t - ((t % res) + res) % res;
}
static double
hz (double r)
{
  return r < 0 ? -1.0 / r : r;
}
static int
rate_same (double given, double got, int v2)
{
  double a = hz (given), b = hz (got);
  return fabs (a - b) <= (v2 ? 1.0001e-4 + fabs (a) * 1e-7 : fabs (a) * 1e-14);
}
#ifdef V_HDR
static const char *flagkeys[] = {"Flags/StationVolumeParityError", "Flags/LongRecordRead", "Flags/ShortRecordRead", "Flags/StartOfTimeSeries", "Flags/EndOfTimeSeries",
                                 "Flags/AmplifierSaturation", "Flags/DigitizerClipping", "Flags/Spikes", "Flags/Glitches", "Flags/MissingData", "Flags/TelemetrySyncError",
                                 "Flags/FilterCharging", "Event/Begin", "Event/End", "Event/InProgress"};
static uint8_t *g_rec;
static int g_len, g_count;
static void
keep (char *rec, int len, void *x)
{
  (void)x;
  g_count++;
  g_len = len;
  g_rec = vp_alloc (len);
  memcpy (g_rec, rec, len);
}
static void
same_header (const MS3Record *m, const MS3Record *g, int v2, int enc)
{
  VP_ASSERT (!strcmp (m->sid, g->sid), "identifier read back");
  VP_ASSERT (floor_to (m->starttime, v2 ? 1000 : 1, g->starttime), "start time read back");
  VP_ASSERT (rate_same (m->samprate, g->samprate, v2), "sample rate read back");
  VP_ASSERT (g->encoding == enc && g->pubversion == m->pubversion && g->flags == m->flags, "encoding, version and flags read back");
}
static void
v3 (void)
{
  MS3Record m, *g = NULL;
  describe (&m, 0);
  if (rnd (4) == 0)
    memset (m.sid, 'S', 63), m.sid[63] = 0;
  m.extralength = (uint16_t)(vp_bool () ? 0 : vp_u (1, 300));
  m.extra = m.extralength ? vp_buf (m.extralength) : NULL;
  if (m.extra && rnd (2)) /* a valid header */
  {
    memset (m.extra, ' ', m.extralength);
    if (m.extralength > 1)
      m.extra[0] = '{', m.extra[m.extralength - 1] = '}';
  }
  int sl = (int)strlen (m.sid), need = 40 + sl + m.extralength;
  m.reclen = vp_bool () ? -1 : need + (int)vp_i (-3, 60);
  g_count = 0;
  int r = msr3_pack (&m, keep, NULL, NULL, MSF_FLUSHDATA, 0);
  VP_ASSERT (r == (m.reclen == -1 || m.reclen >= need ? 1 : -1) && g_count == (r == 1), "one record, or refused if it does not fit");
  if (r != 1)
    return;
  VP_ASSERT (g_len == need, "length written");
  r = msr3_parse ((char *)g_rec, g_len, &g, MSF_VALIDATECRC, 0);
  VP_ASSERT (r == 0 && g && g->formatversion == 3 && g->reclen == need, "record written is parsed");
  same_header (&m, g, 0, DE_TEXT);
  VP_ASSERT (g->samplecnt == 0 && g->datalength == 0 && g->extralength == m.extralength && (!m.extralength || !memcmp (m.extra, g->extra, m.extralength)), "extra headers read back");
  /* repacked with another identifier into a buffer of any size */
  char *p;
  int n = need + (int)vp_i (-70, 70);
  gensid (g->sid, 0);
  int want = need - sl + (int)strlen (g->sid);
  if (n < 0)
    n = 0;
  g->reclen = g_len;
  p = vp_alloc (n);
  r = msr3_repack_mseed3 (g, p, n, 0);
  VP_ASSERT (r == (n >= want ? want : -1), "repacked exactly if it fits");
  if (r > 0)
  {
    MS3Record *h = NULL;
    VP_ASSERT (!msr3_parse (p, r, &h, MSF_VALIDATECRC, 0) && !strcmp (h->sid, g->sid), "repacked record is parsed");
    same_header (g, h, 0, DE_TEXT);
    msr3_free (&h);
  }
  msr3_free (&g);
}
static void
v2 (void)
{
  static char x[8000];
  MS3Record m, *g = NULL;
  describe (&m, 1);
  int mask = 0, q = -1, leap = 0, corr = 0, det = 0, exc = 0, cal = 0, murdock = 0;
  char *e = x, fl[1000] = "", ev[3000] = "", ti[3000] = "", ca[2000] = "";
  if (vp_bool ())
    mask = (int)vp_u (0, (1 << 15) - 1);
  for (int i = 0; i < 15; i++)
  {
    char *o = i < 12 ? fl : ev;
    if (mask >> i & 1)
      sprintf (o + strlen (o), "%s\"%s\":true", *o ? "," : "", strchr (flagkeys[i], '/') + 1);
    else if (rnd (8) == 0)
      sprintf (o + strlen (o), "%s\"%s\":false", *o ? "," : "", strchr (flagkeys[i], '/') + 1);
  }
#define ADD(o, ...) (sprintf ((o) + strlen (o), "%s", *(o) ? "," : ""), sprintf ((o) + strlen (o), __VA_ARGS__))
  if (vp_bool ())
    q = (int)vp_u (0, 100), ADD (ti, "\"Quality\":%d", q);
  if (rnd (3) == 0)
    leap = vp_bool () ? 1 : -1, ADD (ti, "\"LeapSecond\":%d", leap);
  if (rnd (3) == 0)
    corr = (int)vp_i (-20000, 20000), ADD (ti, "\"Correction\":%.4f", corr / 10000.0);
  if (rnd (4) == 0)
  {
    exc = 1 + rnd (2);
    ADD (ti, "\"Exception\":[");
    for (int i = 0; i < exc; i++)
      sprintf (ti + strlen (ti), "%s{\"Time\":\"2012-05-12T12:34:56.5%03dZ\",\"VCOCorrection\":%d,\"ReceptionQuality\":%d,\"Count\":%u,\"Type\":\"Valid%d\"}", i ? "," : "", rnd (1000), rnd (100), rnd (101), rnd (100000), i);
    strcat (ti, "]");
  }
  if (rnd (3) == 0)
  {
    det = 1 + rnd (3);
    murdock = vp_bool ();
    ADD (ev, "\"Detection\":[");
    for (int i = 0; i < det; i++)
    {
      sprintf (ev + strlen (ev), "%s{\"Type\":\"%s\",\"SignalAmplitude\":%d,\"SignalPeriod\":%d,\"BackgroundEstimate\":%d,\"Wave\":\"DILATATION\",\"OnsetTime\":\"2022-06-05T20:32:38.1230Z\",\"MEDSNR\":[", i ? "," : "",
               murdock ? "MURDOCK" : "GENERIC", 80 + i, rnd (50), rnd (50));
      int n = rnd (4) ? 6 : rnd (40);
      for (int k = 0; k < n; k++)
        sprintf (ev + strlen (ev), "%s%d", k ? "," : "", k + 1);
      sprintf (ev + strlen (ev), "],\"MEDLookback\":%d,\"MEDPickAlgorithm\":%d,\"Detector\":\"D%d\"}", rnd (3), rnd (3), i);
    }
    strcat (ev, "]");
  }
  if (rnd (4) == 0)
  {
    cal = 1 + rnd (4);
    strcat (ca, "\"Sequence\":[");
    for (int i = 0; i < cal; i++)
    {
      sprintf (ca + strlen (ca), "%s{\"Type\":\"%s\",\"BeginTime\":\"2022-06-05T20:32:38.1230Z\",", i ? "," : "", ((const char *[]){"STEP", "SINE", "PSEUDORANDOM", "GENERIC"})[i]);
      if (vp_bool ())
        strcat (ca, "\"EndTime\":\"2022-06-05T20:33:38.1230Z\",");
      sprintf (ca + strlen (ca), "\"Amplitude\":%d,\"InputChannel\":\"BH%c\",\"Duration\":%d}", 10 + i, 'X' + rnd (3), rnd (300));
    }
    strcat (ca, "]");
  }
  *e = 0;
  e += sprintf (e, "{\"FDSN\":{");
  int some = 0;
  if (*ti) e += sprintf (e, "%s\"Time\":{%s}", some++ ? "," : "", ti);
  if (*fl) e += sprintf (e, "%s\"Flags\":{%s}", some++ ? "," : "", fl);
  if (*ev) e += sprintf (e, "%s\"Event\":{%s}", some++ ? "," : "", ev);
  if (*ca) e += sprintf (e, "%s\"Calibration\":{%s}", some++ ? "," : "", ca);
  e += sprintf (e, "}}");
  int bad = rnd (20) == 0;
  if (bad)
    x[rnd (1)] = '?';
  if (some || bad)
  {
    m.extralength = (uint16_t)(e - x);
    m.extra = vp_alloc (m.extralength);
    memcpy (m.extra, x, m.extralength);
  }
  m.reclen = 128 << rnd (4);
  int fits = strlen (strchr (strchr (m.sid, '_') + 1, '_')) > 0 && strchr (strchr (m.sid, '_') + 1, '_') - strchr (m.sid, '_') <= 6;
  int us = (int)(((m.starttime % 1000000000 + 1000000000) % 1000000000) / 1000 % 100);
  /* header only, into a buffer of any size: safe (AddressSanitizer) */
  {
    int n = (int)vp_u (0, 400);
    char *p = vp_alloc (n);
    int r = msr3_pack_header2 (&m, p, n, 0);
    VP_ASSERT (r <= n, "header within the buffer");
  }
  g_count = 0;
  int r = msr3_pack (&m, keep, NULL, NULL, MSF_FLUSHDATA, 0);
  VP_ASSERT (VP_IMP (!fits || bad, r == -1), "codes too long for the format and invalid extra headers refused");
  VP_ASSERT (VP_IMP (fits && !bad && !det && !exc && !cal, r == 1), "record written");
  VP_ASSERT (VP_IMP (fits && !bad && hz (m.samprate) < 1e6, r == (48 + 28 + 200 * exc + det * 60 + cal * 80 <= m.reclen ? 1 : r)), "record written if the blockettes fit");
  if (r != 1)
    return;
  VP_ASSERT (g_count == 1 && g_len == m.reclen, "length written");
  r = msr3_parse ((char *)g_rec, g_len, &g, 0, 0);
  VP_ASSERT (r == 0 && g && g->formatversion == 2 && g->reclen == m.reclen, "record written is parsed");
  same_header (&m, g, 1, DE_TEXT);
  int b;
  char key[100];
  int64_t iv = -1;
  double dv = 0;
  for (int i = 0; i < 15; i++)
  {
    sprintf (key, "/FDSN/%s", flagkeys[i]);
    b = 0;
    if (mseh_get_boolean (g, key, &b))
      b = 0;
    VP_ASSERT ((b & 1) == (mask >> i & 1), "flags of the extra headers read back");
  }
  int have = !mseh_get_int64 (g, "/FDSN/Time/Quality", &iv);
  VP_ASSERT (VP_IMP (q >= 0, have && iv == q) && VP_IMP (q < 0 && us == 0, !have), "timing quality read back");
  iv = 0;
  have = !mseh_get_int64 (g, "/FDSN/Time/LeapSecond", &iv);
  VP_ASSERT (leap == (have ? iv : 0), "leap second read back");
  have = !mseh_get_number (g, "/FDSN/Time/Correction", &dv);
  VP_ASSERT (have == (corr != 0) && (!have || fabs (dv - corr / 10000.0) < 1e-9), "time correction read back");
  if (det)
    VP_ASSERT (!mseh_get_number (g, "/FDSN/Event/Detection/0/SignalAmplitude", &dv) && dv == 80, "event detection read back");
  if (exc)
    VP_ASSERT (!mseh_get_string (g, "/FDSN/Time/Exception/0/Type", key, 100) && !strcmp (key, "Valid0"), "time exception read back");
  if (cal)
    VP_ASSERT (!mseh_get_number (g, "/FDSN/Calibration/Sequence/0/Amplitude", &dv) && dv == 10, "calibration read back");
  msr3_free (&g);
}
void
harness (void)
{
  if (vp_bool ())
    v3 ();
  else
    v2 ();
}
#endif
#ifdef V_COVER
static MS3Record m;
static int64_t g_done;
static int g_count, g_v2, g_max, g_enc, g_b1001;
static void
check (char *rec, int len, void *x)
{
  MS3Record *g = NULL;
  (void)x;
  g_count++;
  char *copy = vp_alloc (len);
  memcpy (copy, rec, len);
  VP_ASSERT (g_v2 ? len == g_max : len <= g_max, "record within the record length");
  int r = msr3_parse (copy, len, &g, MSF_UNPACKDATA | MSF_VALIDATECRC, 0);
  VP_ASSERT (r == 0 && g && g->reclen == len, "record written is parsed");
  VP_ASSERT (!strcmp (g->sid, m.sid) && g->flags == m.flags && g->pubversion == m.pubversion && g->encoding == g_enc && rate_same (m.samprate, g->samprate, g_v2), "header of every record");
  nstime_t t = ms_sampletime (m.starttime, g_done, m.samprate);
  if (g_count == 1)
    g_b1001 = (m.starttime % 100000 + 100000) % 100000 / 1000 != 0;
  VP_ASSERT (floor_to (t, g_v2 ? (g_b1001 ? 1000 : 100000) : 1, g->starttime), "record starts at the time of its first sample");
  VP_ASSERT (g->numsamples > 0 && g->samplecnt == g->numsamples && g->numsamples <= m.numsamples - g_done && g->sampletype == m.sampletype, "samples of the record");
  int ss = ms_samplesize (m.sampletype);
  if (g_enc == DE_INT16)
    for (int64_t i = 0; i < g->numsamples; i++)
      VP_ASSERT (((int32_t *)g->datasamples)[i] == (int16_t)((int32_t *)m.datasamples)[g_done + i], "every sample once and in order");
  else
    VP_ASSERT (!memcmp (g->datasamples, (char *)m.datasamples + g_done * ss, g->numsamples * ss), "every sample once and in order");
  g_done += g->numsamples;
  msr3_free (&g);
}
void
harness (void)
{
  g_v2 = vp_bool ();
  int override = g_v2 && vp_bool ();
  describe (&m, g_v2 * 2);
  if (override)
    m.formatversion = 3; /* MSF_PACKVER2 */
  if (hz (m.samprate) > 1e5)
    m.samprate = 100;
  g_enc = m.encoding = m.encoding == -1 ? 11 : m.encoding;
  if (rnd (8) == 0)
    m.encoding = -1, g_enc = 11;
  m.sampletype = "t?i?ifd????ii"[g_enc == 0 ? 0 : g_enc == 4 ? 5 : g_enc == 5 ? 6 : 2];
  int ss = ms_samplesize (m.sampletype);
  m.numsamples = rnd (4) ? vp_u (1, 1500) : vp_u (1, 20);
  m.datasamples = vp_alloc (m.numsamples * ss);
  if (m.sampletype == 'i')
  {
    int32_t v = (int32_t)vp_i (-1000, 1000);
    int w = 2 + rnd (27);
    for (int64_t i = 0; i < m.numsamples; i++)
    {
      if (rnd (32) == 0)
        w = 2 + rnd (27);
      int64_t nv = v + vp_i (-(1 << w) / 2, (1 << w) / 2 - 1);
      if (nv > 500000000 || nv < -500000000)
        nv = v;
      if (i == 0)
        nv = v;
      ((int32_t *)m.datasamples)[i] = v = (int32_t)nv;
    }
  }
  else
    for (int64_t i = 0; i < m.numsamples * ss; i++)
      ((uint8_t *)m.datasamples)[i] = (uint8_t)(i * 131 + m.numsamples);
  int room = 0;
  if (g_v2)
    m.reclen = 128 << rnd (4);
  else
    m.reclen = vp_bool () ? 40 + (int)strlen (m.sid) + (int)vp_u (0, 70) : (int)vp_u (128, 1024);
  g_max = m.reclen;
  room = g_v2 ? 128 : m.reclen - 40 - (int)strlen (m.sid);
  int steim = g_enc == 10 || g_enc == 11;
  int min = steim ? 64 : g_enc == 0 ? 1 : g_enc == 1 ? 2 : g_enc == 5 ? 8 : 4;
  int flush = vp_bool ();
  int64_t packed = -7;
  g_done = 0, g_count = 0;
  int r = msr3_pack (&m, check, NULL, &packed, (flush ? MSF_FLUSHDATA : 0) | (override ? MSF_PACKVER2 : 0), 0);
  if (r < 0)
  {
    VP_ASSERT (room < min || (g_v2 && steim && m.reclen == 128), "packed unless no sample fits");
    VP_ASSERT (g_count == 0, "no record");
    return;
  }
  VP_ASSERT (r == g_count && packed == g_done, "reports exactly the records and samples packed");
  VP_ASSERT (VP_IMP (flush, g_done == m.numsamples), "every sample packed when flushing");
  int dmax = g_v2 ? m.reclen - 48 : room, left = (int)(m.numsamples - g_done);
  VP_ASSERT (left <= (steim ? dmax / 64 * (g_enc == 10 ? 60 : 105) : dmax / (g_enc == 1 ? 4 : min)), "samples left over fit in one record");
}
#endif
