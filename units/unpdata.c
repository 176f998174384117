/*UNIT
{"mode": "complete", "timeout": 200, "unwind": 1, "search": 20,
 "ignore": "pointer_arithmetic|pointer relation",
 "stubs": {"msr3_data_bounds": "stub_bounds", "ms_decode_data": "stub_decode"},
 "proved_elsewhere": ["msr3_data_bounds", "ms_decode_data"],
 "functions": ["msr3_unpack_data", "ms_encoding_sizetype"],
 "note": "loop free: complete for records of any length to 10 MiB and any sample count"}
*/
/* Contract of msr3_unpack_data(): the decoder is given exactly the payload located, and an
 * output of exactly the size of the samples stated, for every record. */
#include "vp.h"
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "lookup.c"
#include "unpack.c"
#undef malloc
#undef free
static uint32_t g_off, g_size; /* payload located */
static int g_err, g_called;
static int64_t g_ret;
static uint64_t g_k;
static MS3Record *g_m;
static int64_t g_cnt;
static int
samplebytes (int enc)
{
  switch (enc)
  {
  case 0: return 1;
  case 1: case 3: case 10: case 11: case 16: case 30: case 32: return 4;
  case 4: case 12: case 13: case 14: return 4;
  case 5: return 8;
  }
  return 0;
}
#ifdef VP_CBMC
int
stub_bounds (const MS3Record *msr, uint32_t *off, uint32_t *size)
{
  VP_ASSERT (msr == g_m && msr->reclen >= MINRECLEN && __CPROVER_r_ok (msr->record, msr->reclen), "record to locate the payload in");
  *off = g_off;
  *size = g_size;
  return g_err;
}
int64_t
stub_decode (const void *input, uint64_t inputsize, uint8_t encoding, uint64_t samplecount, void *output, uint64_t outputsize,
             char *sampletype, int8_t swapflag, const char *sid, int8_t verbose)
{
  g_called++;
  VP_ASSERT (inputsize == g_size && __CPROVER_r_ok (input, inputsize), "input is the payload");
  VP_ASSERT (VP_IMP (g_k < g_size, ((const char *)input)[g_k] == g_m->record[g_off + g_k]), "input holds the bytes of the payload");
  VP_ASSERT (samplecount == (uint64_t)g_cnt && encoding == g_m->encoding, "samples and encoding of the record");
  VP_ASSERT (outputsize >= samplecount * samplebytes (encoding) && __CPROVER_w_ok (output, outputsize), "output holds the samples");
  VP_ASSERT (!!swapflag == !!(g_m->swapflag & MSSWAP_PAYLOAD), "byte order of the payload");
  VP_ASSERT (sampletype == &g_m->sampletype, "sample type set");
  return g_ret;
}
#endif
void
harness (void)
{
  int32_t alloc = (int32_t)vp_u (40, VP_SZ (MAXRECLEN, 400));
  MS3Record *m = vp_alloc (sizeof (MS3Record));
#ifdef VP_CBMC
  uint8_t *rec = vp_alloc (alloc);
#else
  uint8_t *rec = vp_buf (alloc);
#endif
  memset (m, 0, sizeof (MS3Record));
  m->record = vp_bool () || vp_bool () || vp_bool () ? (char *)rec : NULL;
  m->reclen = vp_bool () ? alloc : (int32_t)vp_i (INT32_MIN, alloc);
  m->formatversion = (uint8_t)vp_u (2, 3);
  m->encoding = (int16_t)vp_i (INT16_MIN, 255);
  m->swapflag = (uint8_t)vp_u8 ();
  m->samplecnt = vp_i (INT64_MIN, INT64_MAX);
#ifdef VP_NATIVE
  m->encoding = (int16_t[]){0, 1, 3, 4, 5, 10, 11, 16, 30, 32, 12, 13, 14, -1, 99}[vp_u (0, 14)];
  m->samplecnt = vp_u (0, 300);
  if (m->formatversion == 3)
  {
    rec[33] = vp_u (0, 20); rec[34] = rec[35] = 0;
    int n = alloc - 40 - rec[33] + (int)vp_i (-3, 1);
    if (n >= 64 && vp_bool ()) n -= n % 64;
    if (n >= 0)
      rec[36] = n, rec[37] = n >> 8, rec[38] = rec[39] = 0;
  }
  else
    if (alloc >= 48) m->swapflag &= MSSWAP_PAYLOAD, rec[44] = vp_u (40, 80), rec[45] = 0;
#endif
  VP_ASSUME (VP_IMP (m->formatversion == 2, alloc >= 48 && (m->reclen < 40 || m->reclen >= 48))); /* else not detected as version 2 */
  int prior = vp_bool ();
  m->datasamples = prior ? malloc (5) : NULL;
  m->datasize = m->datasamples ? 5 : 0;
  m->numsamples = prior ? 1 : 0;
  g_err = vp_bool () ? 0 : MS_GENERROR;
  g_off = vp_u32 ();
  g_size = vp_u32 ();
  g_k = vp_u32 ();
  g_m = m;
  g_cnt = m->samplecnt;
  g_ret = vp_bool () ? g_cnt : vp_i (-20, -1);
#ifdef VP_CBMC
  /* contract of msr3_data_bounds() */
  if (!g_err && m->reclen >= 0)
    __CPROVER_assume (g_size == 0 || (uint64_t)g_off + g_size <= (uint64_t)m->reclen);
#else
  g_err = 0, g_off = g_size = 0;
  if (m->record && m->reclen >= MINRECLEN)
    g_err = msr3_data_bounds (m, &g_off, &g_size);
#endif
  int64_t r = msr3_unpack_data (m, 0);
  int enc = m->encoding, w = samplebytes (enc);
  if (g_cnt <= 0)
    VP_ASSERT (r == 0, "no samples");
  else if (m->record == NULL || m->reclen < MINRECLEN || m->reclen > MAXRECLEN || g_cnt > INT32_MAX
           || g_err || g_off < MINRECLEN || g_off >= (uint32_t)m->reclen || w == 0)
    VP_ASSERT (r < 0, "records without a payload refused");
  else if (vp_nomem)
    VP_ASSERT (r < 0, "out of memory reported");
  else
  {
#ifdef VP_CBMC
    VP_ASSERT (g_called == 1 && r == g_ret, "result of the decoder");
#else
    VP_ASSERT (r < 0 || r == g_cnt, "all samples or an error");
#endif
    VP_ASSERT (m->datasamples && m->datasize >= (uint64_t)g_cnt * w, "samples returned have the size stated");
    VP_ASSERT (VP_IMP (r > 0, m->numsamples == r), "number of samples");
    VP_REACH ("decoded");
  }
#ifdef VP_NATIVE
  free (m->datasamples);
#endif
}
