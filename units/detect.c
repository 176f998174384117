/*UNIT
{"enforce": ["ms3_detect"], "timeout": 400, "chunk": 100, "ignore": "pointer_arithmetic|pointer relation", "split": [{"match": "^ms3_detect.(loop|postcond|assertion)|^harness", "each": true}],
 "functions": ["ms3_detect"],
 "bounded": {"unwind": 6, "note": "buffers up to 200 bytes"}}
*/
/* Contract of ms3_detect(): any buffer of any length to 2^40 bytes.
 *
 * The blockette chain of a version 2 header is followed by a specification machine (ghost g_off)
 * in step with the code: spec_step() says whether the chain goes on, ends, or is decided. */
#include "vp.h"
static uint64_t g_off; /* position of the specification machine in the chain */
static uint64_t g_j;   /* arbitrary multiple of 64 */
#define B(p, i) ((uint32_t)((const uint8_t *)(p))[i])
static inline uint32_t rd16 (const char *p, uint64_t o, int be) { return be ? B (p, o) << 8 | B (p, o + 1) : B (p, o + 1) << 8 | B (p, o); }
static inline int dsn (uint32_t c) { return (c >= '0' && c <= '9') || c == ' ' || c == 0; }
static inline int
is_v3 (const char *p)
{
  return B (p, 0) == 'M' && B (p, 1) == 'S' && B (p, 2) == 3 && B (p, 12) <= 23 && B (p, 13) <= 59 && B (p, 14) <= 60;
}
static inline int
is_v2 (const char *p)
{
  return dsn (B (p, 0)) && dsn (B (p, 1)) && dsn (B (p, 2)) && dsn (B (p, 3)) && dsn (B (p, 4)) && dsn (B (p, 5))
         && (B (p, 6) == 'D' || B (p, 6) == 'R' || B (p, 6) == 'Q' || B (p, 6) == 'M') && (B (p, 7) == ' ' || B (p, 7) == 0)
         && B (p, 24) <= 23 && B (p, 25) <= 59 && B (p, 26) <= 60;
}
/* big endian unless the little endian year and day are sane */
static inline int
v2_be (const char *p)
{
  uint32_t y = rd16 (p, 20, 0), d = rd16 (p, 22, 0);
  return !(y >= 1900 && y <= 2100 && d >= 1 && d <= 366);
}
static inline uint64_t
v2_first (const char *p, uint64_t len)
{
  return len >= 48 ? rd16 (p, 46, v2_be (p)) : 0;
}
enum { GOES_ON = -3, ENDS = -2, BAD = -1 }; /* else: exponent of Blockette 1000 */
static inline int
spec_step (const char *p, uint64_t len, uint64_t off)
{
  int be = v2_be (p);
  if (off < 48 || off + 4 > len)
    return ENDS;
  if (rd16 (p, off, be) == 1000 && off + 8 <= len)
    return B (p, off + 6) > 62 ? BAD : (int)B (p, off + 6);
  if (rd16 (p, off + 2, be) == 0)
    return ENDS;
  return rd16 (p, off + 2, be) < off + 5 ? BAD : GOES_ON;
}
static inline uint64_t spec_next (const char *p, uint64_t off) { return rd16 (p, off + 2, v2_be (p)); }

#ifdef VP_CONTRACT
#define RD16(o, s) ((s) ? (B (record, o) << 8 | B (record, (o) + 1)) : (B (record, (o) + 1) << 8 | B (record, o)))
#define DSN(c) (((c) >= '0' && (c) <= '9') || (c) == ' ' || (c) == 0)
#define V2AT(o) (DSN (B (record, o)) && DSN (B (record, (o) + 1)) && DSN (B (record, (o) + 2)) && DSN (B (record, (o) + 3)) && DSN (B (record, (o) + 4)) && DSN (B (record, (o) + 5)) \
  && (B (record, (o) + 6) == 'D' || B (record, (o) + 6) == 'R' || B (record, (o) + 6) == 'Q' || B (record, (o) + 6) == 'M') && (B (record, (o) + 7) == ' ' || B (record, (o) + 7) == 0) \
  && B (record, (o) + 24) <= 23 && B (record, (o) + 25) <= 59 && B (record, (o) + 26) <= 60)
#define LMV_LOOP_detect_chain                                                                   \
  __CPROVER_assigns (blkt_offset, blkt_type, next_blkt, foundlen, reclen, g_off)                \
  __CPROVER_loop_invariant (g_off == blkt_offset && !foundlen && reclen == -1)                  \
  __CPROVER_decreases (65536 - (int)blkt_offset + (blkt_offset == 0 ? -65537 : 0))
#define LMV_GHOST_detect_next                                                                   \
  __CPROVER_assert (spec_step (record, recbuflen, g_off) == (next_blkt ? GOES_ON : ENDS), "vp: next blockette where the chain says"); \
  g_off = spec_next (record, g_off);
#define LMV_GHOST_detect_scan SAMEPTR (nextfsdh, const char *, record)
#define OFFS (__CPROVER_POINTER_OFFSET (nextfsdh) - __CPROVER_POINTER_OFFSET (record))
#define LMV_LOOP_detect_scan                                                                    \
  __CPROVER_assigns (nextfsdh, foundlen, reclen)                                                \
  __CPROVER_loop_invariant (__CPROVER_same_object (nextfsdh, record) && OFFS >= 64 && OFFS <= recbuflen + 64 && OFFS % 64 == 0) \
  __CPROVER_loop_invariant (!foundlen && reclen == -1)                                          \
  __CPROVER_loop_invariant (VP_IMP (g_j >= 64 && g_j < OFFS && g_j + 48 < recbuflen, !V2AT (g_j)))                      \
  __CPROVER_decreases (recbuflen + 64 - OFFS)
#endif
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "parseutils.c"

static int
post_detect (const char *p, uint64_t len, int fv, int64_t ret)
{
  int st;
  if (len < 40)
    return ret == -1;
  if (is_v3 (p))
    return fv == 3 && ret == 40 + (int64_t)B (p, 33) + (int64_t)rd16 (p, 34, 0) + (int64_t)((uint64_t)B (p, 36) | (uint64_t)B (p, 37) << 8 | (uint64_t)B (p, 38) << 16 | (uint64_t)B (p, 39) << 24);
  if (!is_v2 (p))
    return fv == 0 && ret == -1;
  if (fv != 2)
    return 0;
#ifndef VP_CONTRACT
  g_off = v2_first (p, len);
  while ((st = spec_step (p, len, g_off)) == GOES_ON)
    g_off = spec_next (p, g_off);
#endif
  st = spec_step (p, len, g_off);
  if (st == BAD)
    return ret == -1;
  if (st >= 0)
    return ret == (int64_t)1 << st;
  if (st == GOES_ON)
    return 0;
  /* no Blockette 1000: the next header */
  if (ret == 0)
    return VP_IMP (g_j >= 64 && g_j + 48 < len, !is_v2 (p + g_j));
  return ret >= 64 && ret % 64 == 0 && (uint64_t)ret + 48 < len && is_v2 (p + ret) && VP_IMP (g_j >= 64 && g_j < (uint64_t)ret, !is_v2 (p + g_j));
}
#ifdef VP_CONTRACT
int64_t ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
__CPROVER_requires (g_j % 64 == 0)
__CPROVER_assigns (*formatversion, g_off)
__CPROVER_ensures (post_detect (record, recbuflen, *formatversion, __CPROVER_return_value));
#endif
void
harness (void)
{
  uint64_t len = vp_u (1, VP_MAX (1ull << 40, 200));
  uint8_t *fv  = vp_alloc (1);
  char *p      = vp_buf (len);
  *fv = 0;
  g_j = vp_u (0, VP_MAX (1ull << 34, 3)) * 64;
#ifdef VP_NATIVE
  /* mostly headers */
  static const char h2[] = "000001D ";
  if (len >= 48 && vp_bool ())
  {
    memcpy (p, h2, 8);
    p[24] %= 24; p[25] = (uint8_t)p[25] % 60; p[26] = (uint8_t)p[26] % 61;
    if (vp_bool ()) { p[20] = 2000 / 256; p[21] = 2000 % 256; p[22] = 0; p[23] = 9; p[46] = 0; p[47] = 48; }
    else { p[21] = 2000 / 256; p[20] = 2000 % 256; p[23] = 0; p[22] = 9; p[46] = 48; p[47] = 0; }
    if (len >= 56) { p[48] = 3; p[49] = 0xe8; if (vp_bool ()) { p[48] = 0xe8; p[49] = 3; } p[50] = 0; p[51] = vp_bool () ? 60 : 0; }
    if (len > 112 && vp_bool ()) memcpy (p + 64, p, 48);
    if (len > 176 && vp_bool ()) memcpy (p + 128, p, 48);
  }
  else if (len >= 40 && vp_bool ())
  {
    memcpy (p, "MS\3", 3);
    p[12] = (uint8_t)p[12] % 24; p[13] = (uint8_t)p[13] % 60; p[14] = (uint8_t)p[14] % 61;
  }
#endif
#ifdef VP_CONTRACT
  g_off = (len >= 48) ? v2_first (p, len) : 0;
#endif
  int64_t r = ms3_detect (p, len, fv);
  VP_POST (post_detect (p, len, *fv, r), "detected version and length");
  if (r > 64 && *fv == 2)
    VP_REACH ("version 2");
  if (r > 64 && *fv == 3)
    VP_REACH ("version 3");
}
