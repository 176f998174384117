/*UNIT
{"timeout": 300, "unwind_inner": {"msr_encode_steim[12]": 8},
 "variants": {
  "1": {"defs": ["STEIM=1"], "enforce": ["msr_encode_steim1"]},
  "2": {"defs": ["STEIM=2"], "enforce": ["msr_encode_steim2"]}},
 "bounded": {"unwind": 17, "note": "up to 6 samples, 1 frame"}}
*/
/* Contract of msr_encode_steim1/2(): any sample count to 2^31-1, any payload size to 2^40.
 *
 * For the arbitrary data word W (frame g_F, word g_w; its number in the sequence of all data
 * words is 15 * g_F + g_w - 1) either the word holds, by the format definition (c_steim.h),
 * the differences of the samples from g_c0 on, as many as g_c advances, or it comes after
 * the last word used and its nibble is 0.  g_c[q]: samples encoded before word q. */
#include "vp.h"
#include "c_steim.h"

static uint64_t g_F, g_w, g_Q; /* the arbitrary word */
static uint32_t g_wv, g_nib;   /* its value and nibble when it was written */
static uint64_t g_c0;          /* samples before it */
static int g_cnt, g_hit, g_refused;
static uint64_t *g_c, g_end;   /* samples encoded before each word, number of the word after the last */
static int32_t g_diff0;

#if STEIM == 1
#define NMAX 4
#define ENCODE(in, n, out, len, diff0, bw, swap) msr_encode_steim1 (in, n, out, len, diff0, bw, swap)
#else
#define NMAX 7
#define ENCODE(in, n, out, len, diff0, bw, swap) msr_encode_steim2 (in, n, out, len, diff0, bw, "", swap)
#endif
#define D(in, k) ((k) == 0 ? g_diff0 : (int32_t)((uint32_t)(in)[k] - (uint32_t)(in)[(k) - 1]))
#define SWAP4(u, be) ((be) ? (((uint32_t)(u) >> 24) | (((uint32_t)(u) >> 8) & 0xff00u) | (((uint32_t)(u) << 8) & 0xff0000u) | ((uint32_t)(u) << 24)) : (uint32_t)(u))
#define FITS30(v) ((v) >= -536870912 && (v) <= 536870911)

#ifdef VP_CONTRACT
#define BWF(v) ((v) >= -8 && (v) <= 7 ? 4 : (v) >= -16 && (v) <= 15 ? 5 : (v) >= -32 && (v) <= 31 ? 6 : (v) >= -128 && (v) <= 127 ? 8 \
                : (v) >= -512 && (v) <= 511 ? 10 : (v) >= -16384 && (v) <= 16383 ? 15 : (v) >= -32768 && (v) <= 32767 ? 16 : FITS30 (v) ? 30 : 32)
#define WIN1(i) VP_IMP (i < diffcount, diffs[packedsamples + i] == D (input, outputsamples + i) && bitwidth[packedsamples + i] == BWF (diffs[packedsamples + i]))
#if STEIM == 1
#define WINDOW (WIN1 (0) && WIN1 (1) && WIN1 (2))
#else
#define WINDOW (WIN1 (0) && WIN1 (1) && WIN1 (2) && WIN1 (3) && WIN1 (4) && WIN1 (5))
#endif
#define COMMON_INV                                                                             \
  __CPROVER_loop_invariant (outputsamples <= samplecount && 0 <= diffcount && diffcount < NMAX && 0 <= packedsamples && packedsamples <= NMAX && packedsamples + diffcount <= NMAX) \
  __CPROVER_loop_invariant (inputidx + 1 == outputsamples + diffcount && inputidx <= samplecount - 1) \
  __CPROVER_loop_invariant (WINDOW)
#define OUT(i) (((const uint32_t *)output)[i])
#define WORDW OUT (16 * g_F + g_w)
#define NIBW(be) ((SWAP4 (OUT (16 * g_F), be) >> (30 - 2 * g_w)) & 3)
#define WSTATE(be)                                                                              \
  (g_hit ? WORDW == g_wv && NIBW (be) == g_nib && g_c[g_Q] == g_c0 && g_c[g_Q + 1] == g_c0 + g_cnt && g_c0 + g_cnt <= outputsamples && g_c0 <= outputsamples && 1 <= g_cnt && g_cnt <= NMAX \
         : WORDW == 0 && NIBW (be) == 0)
#define STATE_ASSIGNS widx, idx, inputidx, outputsamples, diffcount, packedsamples, word, __CPROVER_object_whole (diffs), __CPROVER_object_whole (bitwidth), \
  g_wv, g_nib, g_c0, g_cnt, g_hit, g_end, __CPROVER_object_whole (g_c) REFUSE_ASSIGNS
#if STEIM == 1
#define REFUSE_ASSIGNS
#else
#define REFUSE_ASSIGNS , g_refused
#endif
#define FRAMES_LOOP                                                                             \
  __CPROVER_assigns (frameidx, frameptr, Xnp, startnibble, __CPROVER_object_whole (output), STATE_ASSIGNS) \
  __CPROVER_loop_invariant (frameidx <= maxframes && (frameidx == 0) == (Xnp == NULL) && VP_IMP (frameidx > 0, (void *)Xnp == (void *)(output + 2))) \
  COMMON_INV                                                                                    \
  __CPROVER_loop_invariant (VP_IMP (frameidx > 0, outputsamples > 0 && SWAP4 (OUT (1), swapflag) == (uint32_t)input[0])) \
  __CPROVER_loop_invariant (frameidx == 0 ? g_end == 2 && outputsamples == 0 : g_end <= 15 * frameidx && g_end > 15 * (frameidx - 1) && VP_IMP (outputsamples < samplecount, g_end == 15 * frameidx)) \
  __CPROVER_loop_invariant (g_c[g_end] == outputsamples)                                        \
  __CPROVER_loop_invariant (VP_IMP (g_F < frameidx, WSTATE (swapflag) && (SWAP4 (OUT (16 * g_F), swapflag) >> (g_F ? 30 : 26)) == 0)) \
  __CPROVER_loop_invariant (g_hit == (g_Q < g_end))                                             \
  __CPROVER_decreases (maxframes - frameidx)
#define FR(i) (((const uint32_t *)frameptr)[i])
#define WORDS_LOOP                                                                              \
  __CPROVER_assigns (__CPROVER_object_upto (frameptr, 64), STATE_ASSIGNS)                       \
  __CPROVER_loop_invariant (startnibble <= widx && widx <= 16)                                  \
  COMMON_INV                                                                                    \
  __CPROVER_loop_invariant (VP_IMP (frameidx == 0, SWAP4 (FR (1), swapflag) == (uint32_t)input[0])) \
  __CPROVER_loop_invariant ((widx >= 16 || (FR (0) << (2 * widx)) == 0) && (FR (0) >> (32 - 2 * startnibble)) == 0) \
  __CPROVER_loop_invariant (VP_IMP (g_F == frameidx && !g_hit, FR (g_w) == 0))                  \
  __CPROVER_loop_invariant (VP_IMP (g_F == frameidx && g_hit, FR (g_w) == g_wv && ((FR (0) >> (30 - 2 * g_w)) & 3) == g_nib && g_w < widx)) \
  __CPROVER_loop_invariant (VP_IMP (g_hit, g_c[g_Q] == g_c0 && g_c[g_Q + 1] == g_c0 + g_cnt && g_c0 + g_cnt <= outputsamples && g_c0 <= outputsamples && 1 <= g_cnt && g_cnt <= NMAX)) \
  __CPROVER_loop_invariant (g_end == 15 * frameidx + widx - 1 && g_c[g_end] == outputsamples && g_hit == (g_Q < g_end)) \
  __CPROVER_loop_invariant (VP_IMP (widx > startnibble, outputsamples > 0))                     \
  __CPROVER_decreases (16 - widx)

#define WORD_STEP                                                                               \
  if (frameidx == g_F && widx == (int)g_w)                                                      \
  {                                                                                             \
    g_wv  = FR (widx);                                                                          \
    g_nib = (FR (0) >> (30 - 2 * widx)) & 3;                                                    \
    g_c0  = outputsamples - packedsamples;                                                      \
    g_cnt = packedsamples;                                                                      \
    g_hit = 1;                                                                                  \
    __CPROVER_assert (st_count (g_nib, g_wv, swapflag) == g_cnt, "vp: word holds as many differences as its nibble says"); \
    STEP1 (0) STEP1 (1) STEP1 (2) STEP1 (3) STEP1 (4) STEP1 (5) STEP1 (6)                       \
  }                                                                                             \
  g_end      = 15 * frameidx + widx;                                                            \
  g_c[g_end] = outputsamples;
#define STEP1(j)                                                                                \
  if (j < NMAX && j < g_cnt)                                                                    \
    __CPROVER_assert (st_value (g_nib, g_wv, swapflag, j) == D (input, g_c0 + j), "vp: word decodes to the differences of its samples");

#if STEIM == 1
#define LMV_LOOP_encode_steim1_frames FRAMES_LOOP
#define LMV_LOOP_encode_steim1_words  WORDS_LOOP
#define LMV_GHOST_encode_steim1_word  WORD_STEP
#define LMV_GHOST_encode_steim1_end   if (Xnp) SAMEPTR (Xnp, int32_t *, output)
#else
#define LMV_LOOP_encode_steim2_frames FRAMES_LOOP
#define LMV_LOOP_encode_steim2_words  WORDS_LOOP
#define LMV_GHOST_encode_steim2_word  WORD_STEP
#define LMV_GHOST_encode_steim2_end   if (Xnp) SAMEPTR (Xnp, int32_t *, output)
#define LMV_GHOST_encode_steim2_refuse                                                          \
  __CPROVER_assert (!FITS30 (D (input, outputsamples)), "vp: refused only a difference of more than 30 bits"); \
  g_refused = 1;
#endif
#endif

#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "packdata.c"

static int
post_encode (const int32_t *input, uint64_t n, const int32_t *output, uint64_t outlen, int be, uint32_t bw, int64_t ret)
{
  uint64_t frames = bw / 64;

  if (n == 0)
    return ret == 0;
  if (outlen < 64)
    return outlen == 0 ? ret < 0 : ret == 0 && bw == 0;
  if (ret < 0)
    return STEIM == 2 && g_refused;
  if (ret == 0 || (uint64_t)ret > n || bw % 64 || bw == 0 || frames > outlen / 64)
    return 0;
  if (g_c[g_end] != (uint64_t)ret || g_end > 15 * frames || g_end <= 15 * (frames - 1))
    return 0;
  if ((uint64_t)ret < n && (g_end != 15 * frames || frames != outlen / 64))
    return 0; /* stops early only when full */
  if (st_u32 (output[1], be) != (uint32_t)input[0] || st_u32 (output[2], be) != (uint32_t)input[ret - 1])
    return 0;
  if (g_hit != (g_Q < g_end))
    return 0;
  if (g_F < frames)
  {
    uint32_t w0 = st_u32 (output[16 * g_F], be), w = output[16 * g_F + g_w];
    uint32_t nib = (w0 >> (30 - 2 * g_w)) & 3;
    if ((w0 >> (g_F ? 30 : 26)) != 0)
      return 0;
    return g_hit ? nib == g_nib && w == g_wv && g_c[g_Q] == g_c0 && g_c[g_Q + 1] == g_c0 + g_cnt && g_c0 + g_cnt <= (uint64_t)ret && g_c0 <= (uint64_t)ret
                 : nib == 0 && w == 0;
  }
  return 1;
}

#ifdef VP_CONTRACT
#define ENC_CONTRACT                                                                            \
  __CPROVER_requires (samplecount <= INT32_MAX && g_diff0 == diff0 && g_end == 2 && g_c[2] == 0 && !g_hit && !g_refused) \
  __CPROVER_assigns (__CPROVER_object_whole (output), *byteswritten)                            \
  __CPROVER_assigns (g_wv, g_nib, g_c0, g_cnt, g_hit, g_end, g_refused, __CPROVER_object_whole (g_c)) \
  __CPROVER_ensures (post_encode (input, samplecount, output, outputlength, swapflag, *byteswritten, __CPROVER_return_value));
#if STEIM == 1
int64_t msr_encode_steim1 (int32_t *input, uint64_t samplecount, int32_t *output, uint64_t outputlength,
                           int32_t diff0, uint32_t *byteswritten, int swapflag) ENC_CONTRACT
#else
int64_t msr_encode_steim2 (int32_t *input, uint64_t samplecount, int32_t *output, uint64_t outputlength,
                           int32_t diff0, uint32_t *byteswritten, const char *sid, int swapflag) ENC_CONTRACT
#endif
#endif

void
harness (void)
{
#ifdef VP_CONTRACT
  uint64_t n      = vp_u (0, INT32_MAX);
#ifdef FRAMES
  uint64_t outlen = FRAMES * 64;
#else
  uint64_t outlen = vp_u (0, 64ull * 67108863);
#endif
  int be          = BE;
  int32_t *in     = VP_ARRAY (int32_t, n + 1);
  int32_t *out    = VP_ARRAY (int32_t, outlen / 4 + 1);
  uint32_t bw     = 0;
  g_diff0         = (int32_t)vp_u32 ();
  g_F             = vp_u (0, 67108863);
  g_w             = vp_u (1, 15);
  VP_ASSUME (g_F > 0 || g_w >= 3);
  g_Q    = 15 * g_F + g_w - 1;
  VP_ASSUME (g_F < outlen / 64);
  g_c    = VP_ARRAY (uint64_t, 15 * (outlen / 64) + 4);
  g_c[2] = 0;
  g_end  = 2;
  g_hit = g_refused = 0;
  int64_t ret = ENCODE (in, n, out, outlen, g_diff0, &bw, be);
  if (ret > 100)
    VP_REACH ("encoded");
  if (ret > 0 && g_hit && g_F > 1)
    VP_REACH ("word in a later frame");
  if (ret > 0 && !g_hit)
    VP_REACH ("word unused");
#endif
}
