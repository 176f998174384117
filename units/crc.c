/*UNIT
{"timeout": 200,
 "variants": {
  "top": {"enforce": ["ms_crc32c"], "replace": ["s_crc_generic_sb8", "s_crc_generic_sb1"], "proved_elsewhere": ["s_crc_generic_sb8", "s_crc_generic_sb1"], "functions": ["s_crc32c_sb8", "s_crc_generic_align"]},
  "sb1": {"defs": ["SB=1"], "enforce": ["s_crc_generic_sb1"]},
  "sb4": {"defs": ["SB=4"], "enforce": ["s_crc_generic_sb4"], "replace": ["s_crc_generic_sb1"], "proved_elsewhere": ["s_crc_generic_sb1"], "split": [{"match": "loop_invariant_step", "flags": ["--z3"]}]},
  "sb8": {"defs": ["SB=8"], "enforce": ["s_crc_generic_sb8"], "replace": ["s_crc_generic_sb4"], "proved_elsewhere": ["s_crc_generic_sb4"], "split": [{"match": "loop_invariant_step", "flags": ["--z3"]}]}},
 "bounded": {"unwind": 30, "note": "up to 20 bytes, alignments 0-7"}}
*/
/* Contract of ms_crc32c(): for every length up to INT_MAX, every alignment, every previous value.
 *
 * The CRC register after i bytes is defined by recursion over the input:
 *   g_S[0] = ~previous,  g_S[i+1] = STEP (g_S[i], input[i])
 * where STEP shifts in one byte bit by bit (reflected polynomial 0x82F63B78, no tables).
 * The ghost array g_S is arbitrary; its defining equation is assumed for the bytes
 * at which a loop iteration needs it (an array with these values exists for every input).
 * It is assumed in the form proved equal to one, four
 * and eight STEPs by crc_lemma.c, from the real tables. */
#include "vp.h"

static const uint8_t *g_in;
static uint32_t *g_S;
static int64_t g_n;

#include "c_crc.h"
#ifdef VP_CONTRACT
#define OFF(p) ((int64_t)__CPROVER_POINTER_OFFSET (p) - (int64_t)__CPROVER_POINTER_OFFSET (g_in))
#define LMV_LOOP_crc_sb1                                                                        \
  __CPROVER_assigns (length, crc, input)                                                        \
  __CPROVER_loop_invariant (__CPROVER_same_object (input, g_in) && OFF (input) + length <= g_n && OFF (input) >= 0 && 0 <= length && length <= __CPROVER_loop_entry (length)) \
  __CPROVER_loop_invariant (OFF (input) == OFF (__CPROVER_loop_entry (input)) + (__CPROVER_loop_entry (length) - length)) \
  __CPROVER_loop_invariant (crc == g_S[OFF (input)])                                            \
  __CPROVER_decreases (length)
#define SB_LOOP                                                                                 \
  __CPROVER_assigns (remaining, crc, current)                                                   \
  __CPROVER_loop_invariant (__CPROVER_same_object (current, g_in) && 0 <= remaining && remaining <= length && OFF (current) >= 0 && OFF (current) == OFF (input) + (length - remaining)) \
  __CPROVER_loop_invariant (crc == g_S[OFF (current)])                                          \
  __CPROVER_decreases (remaining)
#define LMV_LOOP_crc_sb4 SB_LOOP
#define LMV_LOOP_crc_sb8 SB_LOOP
/* one, four, eight steps, by the lemmas of crc_lemma.c in terms of the tables (little endian host) */
#define TAB(k, x) CRC32C_TABLE[k][(x) & 0xff]
#define LMV_GHOST_crc_sb1 SAMEPTR (input, const uint8_t *, g_in) \
  { int64_t o = OFF (input); __CPROVER_assert (crc == g_S[o], "ghost state"); \
    __CPROVER_assume (g_S[o + 1] == ((crc >> 8) ^ TAB (0, crc ^ *input))); }
#define LMV_GHOST_crc_sb4 SAMEPTR (current, const uint32_t *, g_in) \
  { int64_t o = OFF (current); __CPROVER_assert (crc == g_S[o], "ghost state"); \
    uint32_t w = current[0] ^ crc; \
    __CPROVER_assume (g_S[o + 4] == (TAB (3, w) ^ TAB (2, w >> 8) ^ TAB (1, w >> 16) ^ TAB (0, w >> 24))); }
#define LMV_GHOST_crc_sb8 SAMEPTR (current, const uint32_t *, g_in) \
  { int64_t o = OFF (current); __CPROVER_assert (crc == g_S[o], "ghost state"); \
    uint32_t w = current[0] ^ crc, v = current[1]; \
    __CPROVER_assume (g_S[o + 8] == ((TAB (7, w) ^ TAB (6, w >> 8) ^ TAB (5, w >> 16) ^ TAB (4, w >> 24)) \
                                     ^ (TAB (3, v) ^ TAB (2, v >> 8) ^ TAB (1, v >> 16) ^ TAB (0, v >> 24)))); }
#endif

#ifdef VP_CONTRACT
/* the loops: from the register state at the input to the state length bytes later */
#define SB_CONTRACT                                                                             \
  __CPROVER_requires (__CPROVER_same_object (input, g_in) && length >= 0 && OFF (input) >= 0 && OFF (input) + length <= g_n) \
  __CPROVER_requires (table_ptr == &CRC32C_TABLE[0][0] && crc == g_S[OFF (input)])              \
  __CPROVER_assigns ()                                                                          \
  __CPROVER_ensures (__CPROVER_return_value == g_S[OFF (input) + length])
extern const uint32_t CRC32C_TABLE[8][256];
static uint32_t s_crc_generic_sb1 (const uint8_t *input, int length, uint32_t crc, const uint32_t *table_ptr) SB_CONTRACT;
static uint32_t s_crc_generic_sb4 (const uint8_t *input, int length, uint32_t crc, const uint32_t *table_ptr) SB_CONTRACT;
static uint32_t s_crc_generic_sb8 (const uint8_t *input, int length, uint32_t crc, const uint32_t *table_ptr) SB_CONTRACT;
#endif

#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "crc32c.c"

static int
post_crc (const uint8_t *input, int length, uint32_t prev, uint32_t ret)
{
  return (!input || length <= 0) ? ret == 0 : ret == ~g_S[length];
}
#ifdef VP_CONTRACT
uint32_t ms_crc32c (const uint8_t *input, int length, uint32_t previousCRC32C)
__CPROVER_assigns ()
__CPROVER_ensures (post_crc (input, length, previousCRC32C, __CPROVER_return_value));
#endif

#define SBCAT(n) s_crc_generic_sb##n
#define SBCAT1(n) SBCAT (n)
#define SBNAME SBCAT1 (SB)

void
harness (void)
{
  int off       = vp_u (0, 7); /* alignment of the input */
  int n         = vp_i (-1, VP_MAX (INT32_MAX, 20));
  uint32_t prev = vp_u32 ();
  int isnull    = vp_bool ();
  uint64_t size = (uint64_t)(n > 0 ? n : 0) + off + (n <= 0);
  uint8_t *buf  = vp_buf (size);
  uint32_t ret;

  g_in   = buf + off;
  g_n    = n;
  g_S    = vp_alloc (((n > 0 ? (uint64_t)n : 0) + 1) * sizeof (uint32_t));
  g_S[0] = ~prev;
#ifndef VP_CONTRACT
  for (int i = 0; i < n; i++)
    g_S[i + 1] = spec_step (g_S[i], g_in[i]);
#endif
#if defined(SB) && defined(VP_CONTRACT)
  if (n < 0)
    return;
  int o = vp_u (0, INT32_MAX), len = vp_u (0, INT32_MAX);
  VP_ASSUME (o <= n && len <= n - o);
  ret = SBNAME (g_in + o, len, g_S[o], &CRC32C_TABLE[0][0]);
  if (len > 100)
    VP_REACH ("long");
#else
  ret = ms_crc32c (isnull ? NULL : g_in, n, prev);
  VP_ASSERT (post_crc (isnull ? NULL : g_in, n, prev, ret), "CRC-32C of the input continued from the previous value");
  if (!isnull && n > 100)
    VP_REACH ("long");
  if (ret)
    VP_REACH ("short");
#endif
  vp_release (buf);
  vp_release (g_S);
}
