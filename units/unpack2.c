/*UNIT
{"mode": "runtime", "search": 25, "procs": 3, "functions": ["msr3_unpack_mseed2"],
 "note": "contract of msr3_unpack_mseed2() evaluated on the real code for generated records of up to 500 bytes with up to 8 blockettes"}
*/
/* Contract of msr3_unpack_mseed2(): the blockette chain is followed in step with the specification
 * machine of c_ms2.h and the fields follow from its final state. */
#include "vp.h"
#include "c_ms2.h"
static ms2_chain g_c;
static int64_t g_time;
static int g_be, g_timed;
#include "repo.h"
static int
valid2 (const char *p)
{
#define DSN(i) ((M8 (i) >= '0' && M8 (i) <= '9') || M8 (i) == ' ' || M8 (i) == 0)
  return DSN (0) && DSN (1) && DSN (2) && DSN (3) && DSN (4) && DSN (5) && (M8 (6) == 'D' || M8 (6) == 'R' || M8 (6) == 'Q' || M8 (6) == 'M')
         && (M8 (7) == ' ' || M8 (7) == 0) && M8 (24) <= 23 && M8 (25) <= 59 && M8 (26) <= 60;
}
static double
nomrate (int f, int m)
{
  double r = f > 0 ? f : f < 0 ? 1.0 / -(double)f : 0;
  return m > 0 ? r * m : m < 0 ? r / -(double)m : r;
}
/* calendar by counting, independent of the library */
static int64_t
civil (int64_t y, int yday, int h, int mi, int s, int64_t ns)
{
  int64_t d = 365 * (y - 1970) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 - 477 + yday - 1;
  return ((d * 24 + h) * 60 + mi) * 60000000000ll + s * 1000000000ll + ns;
}
static int
same (double a, double b)
{
  return a == b || (a != a && b != b) || fabs (a - b) <= 1e-12 * fabs (b);
}
/* trimmed codes; *ascii cleared if a code holds other than ASCII */
static void
ref_sid (char *o, int *ascii)
{
  static const int at[3] = {18, 8, 13}, n[3] = {2, 5, 2};
  o += sprintf (o, "FDSN:");
  for (int f = 0; f < 3; f++, *o++ = '_')
    for (int i = 0; i < n[f] && M8 (at[f] + i); i++)
    {
      if (M8 (at[f] + i) >= 0x80)
        *ascii = 0;
      if (M8 (at[f] + i) != ' ')
        *o++ = (char)M8 (at[f] + i);
    }
  for (int i = 0; i < 3 && M8 (15 + i); i++)
  {
    *o++ = (char)M8 (15 + i);
    if (i < 2)
      *o++ = '_';
  }
  *o = 0;
}
void
harness (void)
{
  int alloc = (int)vp_u (64, 500), reclen = vp_bool () ? alloc : (int)vp_u (0, alloc), n, bad = (int)vp_u (0, 7), off, be = vp_bool ();
  uint32_t flags = vp_bool () ? 0 : vp_u32 ();
  MS3Record *m = NULL;
  uint8_t *p = vp_buf (alloc);
#define W16(o, v) (be ? (p[o] = (v) >> 8, p[(o) + 1] = (v) & 255) : (p[(o) + 1] = (v) >> 8, p[o] = (v) & 255))
  if (bad)
  {
    static const char cc[] = "ABHZ0 1 \0n";
    memcpy (p, "000001", 6);
    p[6] = "DRQM"[vp_u (0, 3)], p[7] = ' ';
    if (vp_bool ())
      for (int i = 8; i < 20; i++)
        p[i] = cc[vp_u (0, 9)];
    W16 (20, (int)vp_u (1890, 2110));
    W16 (22, (int)vp_u (0, 370));
    p[24] = vp_u (0, 24), p[25] = vp_u (0, 60), p[26] = vp_u (0, 61);
    W16 (28, (int)vp_u (0, 9999));
    W16 (44, vp_bool () ? 64 : (int)vp_u (0, 520));
    if (vp_bool ())
      p[36] &= 0x83, p[37] &= 0x20, p[38] &= 0x80;
    n = (int)vp_u (0, 8);
    off = 48;
    W16 (46, n ? off : 0);
    for (int i = 0; i < n && off + 12 <= alloc; i++)
    {
      static const int ty[] = {100, 1000, 1001, 500, 2000, 200, 201, 300, 310, 320, 390, 395, 400, 405, 7};
      int t = ty[vp_bool () ? vp_u (0, 2) : vp_u (0, 14)], l = t == 2000 ? (int)vp_u (6, 40) : ms2_blen (t), nx;
      if (t == 2000)
        W16 (off + 4, l);
      if (t == 1000)
        p[off + 6] = vp_u (0, 10), p[off + 5] = vp_u (0, 2), p[off + 4] = vp_u (0, 33);
      nx = off + l + (int)vp_u (0, 3) % 2 * 4;
      if (vp_u (0, 15) == 7)
        nx = (int)vp_u (0, 65535);
      W16 (off, t);
      W16 (off + 2, i == n - 1 && vp_bool () ? 0 : nx);
      if (nx < off + 4 || nx > alloc)
        break;
      off = nx;
    }
  }
  ms2_rec = (char *)p;
  g_be = ms2_be ();
  g_c.off = (int)M16 (46, g_be);
  if (g_c.off + 4 > reclen)
    g_c.off = 0;
  g_c.rate = nomrate ((int16_t)M16 (32, g_be), (int16_t)M16 (34, g_be)), g_c.len = reclen, g_c.enc = -1, g_c.b1000 = g_c.b1001 = 0;
  g_timed = 0;
  uint8_t *copy = vp_alloc (alloc);
  memcpy (copy, p, alloc);
  int64_t r = msr3_unpack_mseed2 ((char *)p, reclen, &m, flags, 0);
  VP_ASSERT (memcmp (copy, p, alloc) == 0, "record bytes unchanged");
  if (reclen < 64 || !valid2 (ms2_rec))
  {
    VP_ASSERT (r < 0, "not a record: refused");
    msr3_free (&m);
    return;
  }
  for (int i = 0; g_c.off && i < 70000; i++)
  {
    uint32_t t = M16 (g_c.off, g_be);
    g_timed |= t >= 200 && t < 1000 && t != 400 && t != 405;
    ms2_step (&g_c, reclen, g_be);
  }
  int be2 = g_be, year = (int)M16 (20, be2), yday = (int)M16 (22, be2), fract = (int)M16 (28, be2);
  int dayok = yday >= 1 && yday <= 365 + (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0));
  g_time = civil (year, yday, M8 (24), M8 (25), M8 (26), (int64_t)fract * 100000);
  int unpack = (flags & MSF_UNPACKDATA) && M16 (30, be2) > 0;
  if (r < 0)
  {
    VP_ASSERT (!dayok || fract > 9999 || year > 2262 || year < 1678 || g_timed || unpack || year == 0, "record with valid header accepted");
    msr3_free (&m);
    return;
  }
  VP_ASSERT (r == 0 && m && m->record == ms2_rec && m->formatversion == 2, "record");
  uint32_t a = M8 (36), o = M16 (44, be2);
  if (year >= 1700 && year <= 2260 && dayok)
  {
    int64_t t = g_time;
    if (!(a & 2))
      t += (int64_t)(int32_t)M32 (40, be2) * 100000;
    if (g_c.b1001)
      t += (int64_t)(int8_t)M8 (g_c.b1001 + 5) * 1000;
    VP_ASSERT (m->starttime == t, "start time with correction and microseconds");
  }
  VP_ASSERT (year == 0 || dayok, "day of year out of range refused");
  VP_ASSERT (m->samplecnt == M16 (30, be2), "sample count");
  VP_ASSERT (same (m->samprate, g_c.rate), "sample rate");
  VP_ASSERT (m->encoding == g_c.enc || (unpack && g_c.enc == -1 && m->encoding == DE_STEIM1), "encoding");
  VP_ASSERT (m->reclen == g_c.len, "record length");
  VP_ASSERT (m->pubversion == (M8 (6) == 'M' ? 4 : M8 (6) == 'Q' ? 3 : M8 (6) == 'D' ? 2 : 1), "publication version");
  VP_ASSERT (m->flags == ((a & 1) | (M8 (37) & 0x20 ? 4 : 0) | (M8 (38) & 0x80 ? 2 : 0)), "flags");
  VP_ASSERT (m->swapflag == ((be2 ? MSSWAP_HEADER : 0) | ((g_c.b1000 ? M8 (g_c.b1000 + 5) > 0 : be2) ? MSSWAP_PAYLOAD : 0)), "byte order");
  VP_ASSERT (m->datalength == (o == 0 ? 0 : o < (uint32_t)g_c.len ? (uint32_t)g_c.len - o : 0), "payload length");
  char sid[100];
  int ascii = 1;
  ref_sid (sid, &ascii);
  VP_ASSERT (memchr (m->sid, 0, sizeof m->sid) && (!ascii || !strcmp (m->sid, sid)), "identifier of the trimmed codes");
  if (!unpack)
    VP_ASSERT (m->numsamples == 0, "no samples unless asked for");
  msr3_free (&m);
}
