/*UNIT
{"mode": "complete", "timeout": 300, "unwind": 1,
 "ignore": "pointer_arithmetic|pointer relation",
 "stubs": {"ms_crc32c": "stub_crc", "ms_time2nstime": "stub_time", "msr3_unpack_data": "stub_unpack"},
 "proved_elsewhere": ["ms_crc32c", "ms_time2nstime", "msr3_unpack_data"],
 "functions": ["msr3_unpack_mseed3", "msr3_init"],
 "note": "loop free: complete for records of any length to 10 MiB"}
*/
/* Contract of msr3_unpack_mseed3() for any bytes and any record length, against the field
 * layout of the format.  Callees are replaced by their contracts: each stub checks the
 * precondition and returns any value the postcondition allows. */
#include "vp.h"
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "msrutils.c"
#include "unpack.c"
#undef malloc
#undef free
static uint32_t g_crc;           /* CRC-32C of the record with its CRC field zeroed */
static nstime_t g_time;          /* ms_time2nstime() of the date fields */
static int64_t g_ret;            /* msr3_unpack_data() */
static int g_ncrc, g_ntime, g_nunpack;
static uint64_t g_k;             /* arbitrary position in the record */
static uint8_t g_rec;            /* its byte before the call */
static uint32_t g_reclen, g_flags;
static const uint8_t *g_p;
static MS3Record *g_out;
#define U8(o) ((uint32_t)g_p[o])
#define U16(o) (U8 (o) | U8 ((o) + 1) << 8)
#define U32(o) (U16 (o) | U16 ((o) + 2) << 16)
#define U64(o) ((uint64_t)U32 (o) | (uint64_t)U32 ((o) + 4) << 32)
#define SIDLEN U8 (33)
#define EXTLEN U16 (34)
#define DATLEN U32 (36)
static int
fields_set (const MS3Record *m)
{
  double rate = m->samprate;
  uint64_t bits;
  memcpy (&bits, &rate, 8);
  return m->record == (const char *)g_p && m->reclen == (int32_t)g_reclen && m->formatversion == 3 && m->flags == U8 (3)
         && m->starttime == g_time && bits == U64 (16) && m->samplecnt == U32 (24) && m->crc == U32 (28)
         && m->pubversion == U8 (32) && m->encoding == (int16_t)U8 (15) && m->extralength == EXTLEN && m->datalength == DATLEN
         && m->swapflag == ((U8 (15) == 10 || U8 (15) == 11) ? MSSWAP_PAYLOAD : 0);
}
uint32_t
stub_crc (const uint8_t *p, int len, uint32_t crc)
{
  g_ncrc++;
  VP_ASSERT (p == g_p && len == (int)g_reclen && crc == 0, "CRC of the whole record");
  VP_ASSERT (g_p[28] == 0 && g_p[29] == 0 && g_p[30] == 0 && g_p[31] == 0, "CRC field zeroed for the calculation");
  VP_ASSERT (VP_IMP (g_k < 28 || g_k > 31, g_p[g_k] == g_rec), "other bytes as stored for the calculation");
  return g_crc;
}
nstime_t
stub_time (int year, int yday, int hour, int min, int sec, uint32_t nsec)
{
  g_ntime++;
  VP_ASSERT (year == (int)U16 (8) && yday == (int)U16 (10) && hour == (int)U8 (12) && min == (int)U8 (13) && sec == (int)U8 (14) && nsec == U32 (4),
             "time of the date and time fields");
  return g_time;
}
int64_t
stub_unpack (MS3Record *msr, int8_t verbose)
{
  (void)verbose;
  g_nunpack++;
  VP_ASSERT (fields_set (msr), "fields set before samples are unpacked");
  if (g_ret >= 0)
    msr->numsamples = g_ret;
  return g_ret;
}
void
harness (void)
{
  uint64_t alloc = vp_u (40, VP_SZ (MAXRECLEN, 200));
  int32_t reclen = vp_bool () ? (int32_t)alloc : (int32_t)vp_i (INT32_MIN, (int64_t)alloc);
  uint32_t flags = vp_bool () ? vp_u32 () : MSF_UNPACKDATA | MSF_VALIDATECRC;
  int prior = vp_bool (), prior_extra = vp_bool (), prior_data = vp_bool ();
  MS3Record *msr = NULL;
  g_crc = vp_u32 ();
  g_time = vp_i (INT64_MIN, INT64_MAX);
  g_ret = vp_i (-20, INT32_MAX);
#ifdef VP_CBMC
  uint8_t *p = malloc (alloc);
  __CPROVER_assume (p != NULL);
#else
  uint8_t *p = vp_buf (alloc);
#endif
#ifdef VP_NATIVE
  if (vp_bool ())
  {
    memcpy (p, "MS\3", 3);
    p[12] %= 24; p[13] %= 60; p[14] %= 61;
    p[8] = 2000 % 256; p[9] = 2000 / 256; p[10] = vp_u (1, 255); p[11] = 0; p[7] %= 59;
    if (vp_bool ()) p[24] = vp_u (0, 20), p[25] = p[26] = p[27] = 0;
    if (vp_bool ()) p[33] = vp_u (0, 64);
    if (vp_bool ()) p[34] = vp_u (0, 100), p[35] = 0;
    if (vp_bool ())
    {
      int64_t d = (int64_t)alloc - 40 - p[33] - p[34] - 256 * p[35] + vp_i (-3, 1);
      if (d >= 0)
        p[36] = d, p[37] = d >> 8, p[38] = p[39] = 0;
    }
    if (vp_bool ()) p[15] = (uint8_t[]){0, 1, 3, 4, 5, 10, 11, 16, 30, 32, 99}[vp_u (0, 10)];
  }
#endif
  g_k = vp_u (0, alloc - 1);
  if (prior)
  {
    msr = malloc (sizeof (MS3Record));
    VP_ASSUME (msr != NULL);
    memset (msr, 0x55, sizeof (MS3Record));
    msr->extra = prior_extra ? malloc (3) : NULL;
    msr->datasamples = prior_data ? malloc (16) : NULL;
    msr->datasize = prior_data ? 16 : 0;
  }
  g_p = p;
  g_reclen = (uint32_t)reclen;
  g_flags = flags;
#ifdef VP_NATIVE
  if (reclen >= 40 && (size_t)reclen <= alloc)
  {
    uint8_t *c = malloc (reclen);
    memcpy (c, p, reclen);
    memset (c + 28, 0, 4);
    g_crc = ms_crc32c (c, reclen, 0);
    free (c);
    if (vp_bool ())
      memcpy (p + 28, &g_crc, 4);
    g_time = ms_time2nstime (U16 (8), U16 (10), U8 (12), U8 (13), U8 (14), U32 (4));
  }
#endif
  g_rec = p[g_k];
  int64_t ret = msr3_unpack_mseed3 ((const char *)p, reclen, &msr, flags, 0);
  VP_ASSERT (p[g_k] == g_rec, "bytes of the record restored");
  if (reclen < MINRECLEN || reclen > MAXRECLEN)
    VP_ASSERT (ret == MS_OUTOFRANGE, "record length out of range refused");
  else if (!(U8 (0) == 'M' && U8 (1) == 'S' && U8 (2) == 3 && U8 (12) <= 23 && U8 (13) <= 59 && U8 (14) <= 60))
    VP_ASSERT (ret == MS_NOTSEED, "not a version 3 header refused");
  else if (SIDLEN >= LM_SIDLEN)
    VP_ASSERT (ret == MS_GENERROR, "identifier longer than supported refused");
  else if ((uint64_t)40 + SIDLEN + EXTLEN + DATLEN > (uint64_t)reclen)
    VP_ASSERT (ret == MS_WRONGLENGTH, "lengths beyond the record refused");
  else if ((flags & MSF_VALIDATECRC) && g_crc != U32 (28))
    VP_ASSERT (ret == MS_INVALIDCRC, "wrong CRC refused");
  else if (g_time == NSTERROR)
    VP_ASSERT (ret == MS_GENERROR, "impossible time refused");
  else if (vp_nomem)
    VP_ASSERT (ret == MS_GENERROR, "out of memory reported");
#ifdef VP_CBMC
  else if ((flags & MSF_UNPACKDATA) && U32 (24) > 0 && g_ret < 0)
    VP_ASSERT (ret == g_ret, "error of sample decoding returned");
#else
  else if ((flags & MSF_UNPACKDATA) && U32 (24) > 0 && ret < 0)
    ;
#endif
  else
  {
    VP_ASSERT (ret == MS_NOERROR, "record accepted");
    VP_ASSERT (msr != NULL && fields_set (msr), "every field equals its header field");
#ifdef VP_CBMC
    VP_ASSERT (g_ncrc == !!(flags & MSF_VALIDATECRC) && g_ntime == 1, "CRC checked when requested");
    VP_ASSERT (g_nunpack == ((flags & MSF_UNPACKDATA) && U32 (24) > 0), "samples unpacked when requested");
#endif
    VP_ASSERT (msr->sid[SIDLEN] == 0, "identifier terminated");
    VP_ASSERT (VP_IMP (g_k < SIDLEN, (uint8_t)msr->sid[g_k < LM_SIDLEN ? g_k : 0] == g_p[40 + (g_k < LM_SIDLEN ? g_k : 0)]), "identifier as in the record");
    VP_ASSERT (VP_IMP (EXTLEN == 0, msr->extra == NULL), "no extra headers");
    VP_ASSERT (VP_IMP (EXTLEN > 0, msr->extra != NULL && msr->extra[EXTLEN] == 0), "extra headers terminated");
    VP_ASSERT (VP_IMP (g_k < EXTLEN, (uint8_t)msr->extra[g_k] == g_p[40 + SIDLEN + g_k]), "extra headers as in the record");
    if ((flags & MSF_UNPACKDATA) && U32 (24) > 0)
    {
#ifdef VP_CBMC
      VP_ASSERT (msr->numsamples == g_ret, "number of samples unpacked");
#else
      VP_ASSERT (msr->numsamples >= 0 && msr->numsamples <= msr->samplecnt, "number of samples unpacked");
#endif
    }
    else
      VP_ASSERT (msr->datasamples == NULL && msr->datasize == 0 && msr->numsamples == 0, "no samples unless unpacked");
    VP_REACH ("accepted");
  }
#ifdef VP_NATIVE
  msr3_free (&msr);
#endif
}
