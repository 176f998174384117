/*UNIT
{"timeout": 400, "unwind_inner": {"msr_decode_steim[12]": 8}, "chunk": 60, "ignore": "pointer_arithmetic|pointer relation",
 "split": [{"match": "postcond|loop_invariant|loop_step|loop_decreases|vp: ", "each": true}],
 "variants": {
  "1": {"defs": ["STEIM=1"], "enforce": ["msr_decode_steim1"], "functions": ["msr_decode_steim1"]},
  "2": {"defs": ["STEIM=2"], "enforce": ["msr_decode_steim2"], "functions": ["msr_decode_steim2"]}},
 "bounded": {"unwind": 17, "note": "up to 6 samples, 1 frame"}}
*/
/* Contract of msr_decode_steim1/2() for any payload bytes, payload size and sample count: no
 * access outside the payload and the output, and no more samples than asked for. */
#include "vp.h"
#if STEIM == 1
#define NMAX 4
#define DECODE msr_decode_steim1
#else
#define NMAX 7
#define DECODE msr_decode_steim2
#endif
static uint64_t g_k; /* arbitrary sample of the output */
static int32_t g_o;  /* its value before the call */
#ifdef VP_CONTRACT
#define WORD_LOC word,
#if STEIM == 2
#define MORE , dnib, s4, s5, s6, s10, s15, s30
#else
#define MORE
#endif
#define FRAMES                                                                                  \
  __CPROVER_assigns (frameidx, outputidx, diffidx, startnibble, nibble, widx, idx, word, Xn,    \
                     __CPROVER_object_whole (frame), __CPROVER_object_whole (diff),             \
                     __CPROVER_object_whole (output) MORE)                                      \
  __CPROVER_loop_invariant (frameidx <= maxframes && outputidx <= samplecount && (frameidx == 0) == (outputidx == 0)) \
  __CPROVER_decreases (maxframes - frameidx)
#define WORDS                                                                                   \
  __CPROVER_assigns (diffidx, nibble, widx, idx, word, __CPROVER_object_whole (frame), __CPROVER_object_whole (diff) MORE) \
  __CPROVER_loop_invariant (startnibble <= widx && widx <= 16 && 0 <= diffidx && diffidx <= NMAX * (widx - startnibble)) \
  __CPROVER_decreases (16 - widx)
#define DIFFS                                                                                   \
  __CPROVER_assigns (idx, outputidx, __CPROVER_object_whole (output))                           \
  __CPROVER_loop_invariant (0 <= idx && outputidx >= 1 && outputidx <= samplecount)             \
  __CPROVER_decreases (106 - idx)
#if STEIM == 1
#define LMV_LOOP_decode_steim1_frames FRAMES
#define LMV_LOOP_decode_steim1_words WORDS
#define LMV_LOOP_decode_steim1_diffs DIFFS
#else
#define LMV_LOOP_decode_steim2_frames FRAMES
#define LMV_LOOP_decode_steim2_words WORDS
#define LMV_LOOP_decode_steim2_diffs DIFFS
#endif
#endif
#include "repo.h"
#include "unpackdata.c"
#undef malloc
#undef free
static int
post_steim (uint64_t len, uint64_t n, uint64_t outlen, int64_t ret)
{
  if (len < 64)
    return ret == 0;
  if (outlen == 0 || outlen < n * 4)
    return ret == -1;
  return ret >= -1 && (ret < 0 || (uint64_t)ret <= n);
}
#ifdef VP_CONTRACT
int64_t DECODE (int32_t *input, uint64_t inputlength, uint64_t samplecount, int32_t *output, uint64_t outputlength, const char *srcname, int swapflag)
__CPROVER_requires (samplecount >= 1)
__CPROVER_assigns (__CPROVER_object_whole (output))
__CPROVER_ensures (post_steim (inputlength, samplecount, outputlength, __CPROVER_return_value));
#endif
void
harness (void)
{
  uint64_t len = vp_u (0, VP_MAX (1ull << 33, 300)), n = vp_u (1, VP_MAX ((1ull << 31) - 1, 800));
  uint64_t outlen = vp_bool () ? n * 4 : vp_u (0, VP_MAX (1ull << 34, 4000));
  int swap = vp_bool ();
  int32_t *in = vp_buf (len), *out = vp_alloc (outlen);
#ifdef VP_NATIVE
  if (swap >= 0 && vp_bool ())
    for (uint64_t i = 0; i + 64 <= len; i += 64)
      ((uint8_t *)in)[i] &= 3;
#endif
  int64_t r = DECODE (in, len, n, out, outlen, "", swap);
  VP_POST (post_steim (len, n, outlen, r), "samples decoded");
  if (r > 100)
    VP_REACH ("end");
}
