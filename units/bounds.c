/*UNIT
{"enforce": ["msr3_data_bounds"], "timeout": 200, "chunk": 100, "ignore": "pointer_arithmetic|pointer relation",
 "split": [{"match": "postcond|loop_invariant|loop_step|loop_decreases|vp: ", "each": true}],
 "stubs": {"memcmp": "stub_memcmp"}, "proved_elsewhere": ["memcmp"],
 "functions": ["msr3_data_bounds"],
 "bounded": {"unwind": 9, "note": "records up to 600 bytes"}}
*/
/* Contract of msr3_data_bounds(): the payload located lies within the record, and is what the
 * format says: the declared length, less what fixed-length samples do not need, less trailing
 * zeroed Steim frames.  Records of any length to 10 MiB. */
#include "vp.h"
static uint64_t g_k;             /* arbitrary position in the record */
#ifdef VP_CBMC
static const char *g_rec; /* the record */
static uint64_t g_wit;    /* position of a difference found */
#endif
#ifdef VP_CONTRACT
static uint32_t g_decl;         /* declared payload size */
#define LMV_LOOP_bounds_steim                                                                   \
  __CPROVER_assigns (*datasize, g_wit)                                                                 \
  __CPROVER_loop_invariant (*datasize % 64 == 0 && *datasize <= g_decl && g_decl % 64 == 0)     \
  __CPROVER_loop_invariant (VP_IMP (g_k >= (uint64_t)*dataoffset + *datasize && g_k < (uint64_t)*dataoffset + g_decl, msr->record[g_k] == 0)) \
  __CPROVER_decreases (*datasize)
#endif
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "unpack.c"
#undef malloc
#undef free
#ifdef VP_CBMC
/* contract of memcmp(): equal bytes at the arbitrary position, or a witness of a difference */
int
stub_memcmp (const void *a, const void *b, size_t n)
{
  int r;
  VP_ASSERT (__CPROVER_r_ok (a, n) && __CPROVER_r_ok (b, n), "compared bytes lie within the record");
  uint64_t o = __CPROVER_POINTER_OFFSET (a);
  if (r == 0)
    __CPROVER_assume (VP_IMP (__CPROVER_same_object (a, g_rec) && g_k >= o && g_k - o < n, g_rec[g_k] == ((const char *)b)[g_k - o]));
  else if (__CPROVER_same_object (a, g_rec))
  {
    uint64_t w;
    __CPROVER_assume (w >= o && w - o < n && g_rec[w] != ((const char *)b)[w - o]);
    g_wit = w;
  }
  return r;
}
#endif
#define U8(o) ((uint32_t)((const uint8_t *)m->record)[o])
static uint32_t
declared (const MS3Record *m, uint32_t *off)
{
  if (m->formatversion == 3)
  {
    *off = 40 + U8 (33) + (U8 (34) | U8 (35) << 8);
    return U8 (36) | U8 (37) << 8 | U8 (38) << 16 | U8 (39) << 24;
  }
  *off = (m->swapflag & MSSWAP_HEADER) ? U8 (44) << 8 | U8 (45) : U8 (44) | U8 (45) << 8;
  return *off < (uint32_t)m->reclen ? m->reclen - *off : 0;
}
static int
allzero (const char *p)
{
  const uint64_t *x = (const uint64_t *)p;
  return x[0] == 0 && x[1] == 0 && x[2] == 0 && x[3] == 0 && x[4] == 0 && x[5] == 0 && x[6] == 0 && x[7] == 0;
}
#ifdef VP_CBMC
#define NOTZERO(p, o) (g_wit >= (o) && g_wit < (o) + 64 && p[g_wit] != 0)
#else
#define NOTZERO(p, o) (!allzero ((p) + (o)))
#endif
static int
post_bounds (const MS3Record *m, uint32_t off, uint32_t size, int ret)
{
  uint32_t o, s = 0;
  if (m->formatversion != 2 && m->formatversion != 3)
    return ret < 0;
  s = declared (m, &o);
  if (m->formatversion == 3 && (uint64_t)o + s > (uint64_t)m->reclen)
    return ret < 0;
  if (ret != 0 || off != o || size > s || (size > 0 && (uint64_t)off + size > (uint64_t)m->reclen))
    return 0;
  if (m->encoding == 10 || m->encoding == 11)
  {
    if (s % 64)
      return size == s;
    return size % 64 == 0 && VP_IMP (size > 0, NOTZERO (m->record, (uint64_t)off + size - 64))
           && VP_IMP (g_k >= (uint64_t)off + size && g_k < (uint64_t)off + s, m->record[g_k] == 0);
  }
  uint64_t w = m->encoding == 0 ? 1 : m->encoding == 1 ? 2 : m->encoding == 3 || m->encoding == 4 ? 4 : m->encoding == 5 ? 8 : 0;
  uint64_t need = (uint64_t)m->samplecnt * w;
  return size == (w && need < s ? need : s);
}
#ifdef VP_CONTRACT
int msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize)
__CPROVER_requires (msr->reclen >= 40 && VP_IMP (msr->formatversion == 2, msr->reclen >= 48))
__CPROVER_assigns (*dataoffset, *datasize, g_wit)
__CPROVER_ensures (post_bounds (msr, *dataoffset, *datasize, __CPROVER_return_value));
#endif
void
harness (void)
{
  int32_t reclen = (int32_t)vp_u (40, VP_MAX (MAXRECLEN, 600));
  MS3Record *m = vp_alloc (sizeof (MS3Record));
  uint32_t *off = vp_alloc (4), *size = vp_alloc (4);
  uint8_t *rec = vp_buf (reclen);
#ifdef VP_NATIVE
  if (vp_bool ())
  {
    unsigned z = vp_u (1, reclen);
    memset (rec + reclen - z, 0, z);
  }
#endif
  memset (m, 0, sizeof (MS3Record));
  m->record = (char *)rec;
  m->reclen = reclen;
  m->formatversion = (uint8_t)vp_u (1, 4);
  m->encoding = (int16_t)vp_i (-1, 33);
  m->swapflag = (uint8_t)vp_u8 ();
  m->samplecnt = vp_i (INT64_MIN, INT64_MAX);
  VP_ASSUME (VP_IMP (m->formatversion == 2, reclen >= 48)); /* else not detected as version 2 */
#ifdef VP_NATIVE
  m->encoding = vp_bool () ? vp_u (10, 11) : vp_u (0, 5);
  m->samplecnt = vp_u (0, 300);
  if (m->formatversion == 3 && vp_bool ())
  {
    rec[33] = vp_u (0, 20); rec[34] = rec[35] = 0;
    int n = reclen - 40 - rec[33] + (int)vp_i (-3, 1);
    if (n >= 64 && vp_bool ()) n -= n % 64;
    if (n >= 0)
      rec[36] = n, rec[37] = n >> 8, rec[38] = rec[39] = 0;
  }
  else if (m->formatversion == 2)
    m->swapflag = 0, rec[44] = vp_u (0, 80), rec[45] = 0;
#endif
  g_k = vp_u (0, reclen - 1);
#ifdef VP_CONTRACT
  uint32_t o;
  g_decl = m->formatversion == 2 || m->formatversion == 3 ? declared (m, &o) : 0;
#endif
#ifdef VP_CBMC
  g_rec = (char *)rec;
#endif
  int r = msr3_data_bounds (m, off, size);
  VP_POST (post_bounds (m, *off, *size, r), "payload within the record");
  if (r == 0 && *size > 64)
    VP_REACH ("end");
}
