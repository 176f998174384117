/*UNIT
{"enforce": ["ms_decode_data"], "timeout": 200,
 "functions": ["ms_decode_data", "ms_encoding_sizetype", "ms_samplesize"],
 "variants": {
  "text":       {"defs": ["ENC=0"],  "functions": []},
  "int16":      {"defs": ["ENC=1"],  "functions": ["msr_decode_int16"]},
  "int32":      {"defs": ["ENC=3"],  "functions": ["msr_decode_int32"]},
  "float32":    {"defs": ["ENC=4"],  "functions": ["msr_decode_float32"]},
  "float64":    {"defs": ["ENC=5"],  "functions": ["msr_decode_float64"]},
  "geoscope24": {"defs": ["ENC=12"], "functions": ["msr_decode_geoscope"], "cbmc": ["--sat-solver", "cadical"]},
  "geoscope163":{"defs": ["ENC=13"], "functions": ["msr_decode_geoscope"], "cbmc": ["--sat-solver", "cadical"]},
  "geoscope164":{"defs": ["ENC=14"], "functions": ["msr_decode_geoscope"], "cbmc": ["--sat-solver", "cadical"]},
  "cdsn":       {"defs": ["ENC=16"], "functions": ["msr_decode_cdsn"]},
  "sro":        {"defs": ["ENC=30"], "functions": ["msr_decode_sro"]},
  "dwwssn":     {"defs": ["ENC=32"], "functions": ["msr_decode_dwwssn"]}},
 "bounded": {"unwind": 26, "note": "up to 3 samples, 24 input bytes"}}
*/
/* Contract of ms_decode_data() for every encoding with a fixed sample length:
 * any sample count up to 2^31-1, any buffer sizes up to 2^40, either byte order. */
#include "vp.h"

static uint64_t g_k; /* ghost: arbitrary sample index */
static uint64_t g_s; /* ghost: value of that sample by the format definition */

static inline uint32_t b1 (const void *p, uint64_t i) { return ((const uint8_t *)p)[i]; }

/* The format definitions, on the bytes of the payload.  be: payload is big endian */
#define B1(p, i) ((uint32_t)((const uint8_t *)(p))[i])
#define SPEC_U16(p, k, be) ((be) ? (B1 (p, 2 * (k)) << 8 | B1 (p, 2 * (k) + 1)) : (B1 (p, 2 * (k) + 1) << 8 | B1 (p, 2 * (k))))
static inline uint32_t
spec_u16 (const void *p, uint64_t k, int be)
{
  return SPEC_U16 (p, k, be);
}
static inline uint32_t
spec_u32 (const void *p, uint64_t k, int be)
{
  return be ? (b1 (p, 4 * k) << 24 | b1 (p, 4 * k + 1) << 16 | b1 (p, 4 * k + 2) << 8 | b1 (p, 4 * k + 3))
            : (b1 (p, 4 * k + 3) << 24 | b1 (p, 4 * k + 2) << 16 | b1 (p, 4 * k + 1) << 8 | b1 (p, 4 * k));
}
static inline uint64_t
spec_u64 (const void *p, uint64_t k, int be)
{
  return be ? ((uint64_t)spec_u32 (p, 2 * k, be) << 32 | spec_u32 (p, 2 * k + 1, be))
            : ((uint64_t)spec_u32 (p, 2 * k + 1, be) << 32 | spec_u32 (p, 2 * k, be));
}
static inline uint32_t fbits (float f) { uint32_t u; memcpy (&u, &f, 4); return u; }

#if ENC == 0
#define WIN 1
#define WOUT 1
#define STYPE 't'
#elif ENC == 1 || ENC == 16 || ENC == 30 || ENC == 32
#define WIN 2
#define WOUT 4
#define STYPE 'i'
#elif ENC == 3
#define WIN 4
#define WOUT 4
#define STYPE 'i'
#elif ENC == 4
#define WIN 4
#define WOUT 4
#define STYPE 'f'
#elif ENC == 5
#define WIN 8
#define WOUT 8
#define STYPE 'd'
#elif ENC == 12
#define WIN 3
#define WOUT 4
#define STYPE 'f'
#elif ENC == 13 || ENC == 14
#define WIN 2
#define WOUT 4
#define STYPE 'f'
#endif

/* exact powers of two */
static inline float
pow2neg (int e)
{
  static const float t[16] = {1.0f, 0.5f, 0.25f, 0.125f, 0.0625f, 0.03125f, 0.015625f, 0.0078125f,
                              0.00390625f, 0.001953125f, 0.0009765625f, 0.00048828125f,
                              0.000244140625f, 0.0001220703125f, 0.00006103515625f, 0.000030517578125f};
  return t[e & 15];
}

static inline uint64_t
spec_sample (const void *p, uint64_t k, int be)
{
#if ENC == 0
  return b1 (p, k);
#elif ENC == 1 || ENC == 32
  return (uint32_t)(int32_t)(int16_t)spec_u16 (p, k, be);
#elif ENC == 3 || ENC == 4
  return spec_u32 (p, k, be);
#elif ENC == 5
  return spec_u64 (p, k, be);
#elif ENC == 12
  uint32_t u = be ? (b1 (p, 3 * k) << 16 | b1 (p, 3 * k + 1) << 8 | b1 (p, 3 * k + 2))
                  : (b1 (p, 3 * k + 2) << 16 | b1 (p, 3 * k + 1) << 8 | b1 (p, 3 * k));
  int32_t v = (u & 0x800000u) ? (int32_t)(u | 0xff000000u) : (int32_t)u;
  return fbits ((float)v);
#elif ENC == 13 || ENC == 14
  uint32_t u = spec_u16 (p, k, be);
  int32_t m  = (int32_t)(u & 0xfff) - 2048;
  int e      = (u >> 12) & (ENC == 13 ? 7 : 15);
  return fbits ((float)m * pow2neg (e));
#elif ENC == 16
  uint32_t u = spec_u16 (p, k, be);
  int32_t m  = (int32_t)(u & 0x3fff) - 8191;
  int e      = (u >> 14) == 0 ? 0 : (u >> 14) == 1 ? 2 : (u >> 14) == 2 ? 4 : 7;
  return (uint32_t)m << e;
#elif ENC == 30
  uint32_t u = spec_u16 (p, k, be);
  int32_t m  = (u & 0x800) ? (int32_t)(u & 0xfff) - 4096 : (int32_t)(u & 0xfff);
  return (u >> 12) <= 10 ? (uint32_t)m << (10 - (u >> 12)) : 0;
#endif
}
#if WOUT == 1
#define OUTVAL(out, k) ((uint64_t)((const uint8_t *)(out))[k])
#elif WOUT == 4
#define OUTVAL(out, k) ((uint64_t)((const uint32_t *)(out))[k])
#else
#define OUTVAL(out, k) (((const uint64_t *)(out))[k])
#endif
/* sample k cannot be decoded (SRO gain range with a negative exponent) */
#if ENC == 30
#define BADSAMPLE(p, k, be) ((SPEC_U16 (p, k, be) >> 12) > 10)
#else
#define BADSAMPLE(p, k, be) 0
#endif

#ifdef VP_CONTRACT
#define DECODE_LOOP(IDX, WIDTH, EXTRA, ASSIGNS)                                              \
  __CPROVER_assigns (idx, outputlength, __CPROVER_object_whole (output) ASSIGNS)             \
  __CPROVER_loop_invariant (idx <= samplecount && outputlength == __CPROVER_loop_entry (outputlength) - (uint64_t)WIDTH * idx && (uint64_t)WIDTH * idx <= __CPROVER_loop_entry (outputlength)) \
  __CPROVER_loop_invariant (VP_IMP (g_k < idx, OUTVAL (output, g_k) == g_s))                 \
  EXTRA                                                                                      \
  __CPROVER_decreases (samplecount - idx)
#define COMMA ,
#define LMV_LOOP_decode_int16   DECODE_LOOP (idx, 4, , COMMA sample)
#define LMV_LOOP_decode_int32   DECODE_LOOP (idx, 4, , COMMA sample)
#define LMV_LOOP_decode_float32 DECODE_LOOP (idx, 4, , COMMA sample)
#define LMV_LOOP_decode_float64 DECODE_LOOP (idx, 8, , COMMA sample)
#define LMV_LOOP_decode_cdsn    DECODE_LOOP (idx, 4, , COMMA sample COMMA sint COMMA mantissa COMMA gainrange COMMA mult)
#define LMV_LOOP_decode_sro     DECODE_LOOP (idx, 4, __CPROVER_loop_invariant (VP_IMP (g_k < idx, !BADSAMPLE (__CPROVER_loop_entry (input), g_k, swapflag))), COMMA sample COMMA sint COMMA mantissa COMMA gainrange COMMA exponent)
#define LMV_LOOP_decode_dwwssn  DECODE_LOOP (idx, 4, , COMMA sample COMMA sint)
#define LMV_LOOP_decode_geoscope DECODE_LOOP (idx, 4, __CPROVER_loop_invariant (input == __CPROVER_loop_entry (input) + (uint64_t)WIN * idx), COMMA input COMMA dsample COMMA mantissa COMMA gainrange COMMA exponent COMMA exp2val COMMA sint COMMA k COMMA sample32.i)
#define LMV_LOOP_decode_geoscope_be __CPROVER_assigns (k, sample32.i) __CPROVER_loop_invariant (0 <= k && k <= 3 && sample32.i == 0) __CPROVER_decreases (3 - k)
#define LMV_LOOP_decode_geoscope_le __CPROVER_assigns (k, sample32.i) \
  __CPROVER_loop_invariant (0 <= k && k <= 3 && sample32.b[3] == 0 && sample32.b[swapflag ? 2 : 0] == (k > 0 ? (uint8_t)input[0] : 0) && sample32.b[1] == (k > 1 ? (uint8_t)input[1] : 0) && sample32.b[swapflag ? 0 : 2] == (k > 2 ? (uint8_t)input[2] : 0)) \
  __CPROVER_decreases (3 - k)
#endif

#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "lookup.c"
#include "unpackdata.c"
#include "unpack.c"

/* Postcondition, for the arbitrary sample g_k */
static int
post_decode (const void *input, uint64_t inputsize, uint64_t n, const void *output, uint64_t outputsize,
             char sampletype, int be, int64_t ret)
{
  int fits = n * WIN <= inputsize && n * WOUT <= outputsize;

  if (n == 0)
    return ret == 0;
  if (!fits)
    return ret < 0;
#if ENC == 30
  if (ret < 0) /* only for a bad sample: decided for the single sample payload */
    return ret == MS_GENERROR && VP_IMP (n == 1, BADSAMPLE (input, 0, be));
  if (g_k < n && BADSAMPLE (input, g_k, be))
    return 0;
#endif
  return ret == (int64_t)n && sampletype == STYPE && VP_IMP (g_k < n, OUTVAL (output, g_k) == g_s);
}
#ifdef VP_CONTRACT
int64_t ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
                        uint64_t samplecount, void *output, uint64_t outputsize,
                        char *sampletype, int8_t swapflag, const char *sid, int8_t verbose)
__CPROVER_requires (encoding == ENC && samplecount <= INT32_MAX && sid == NULL)
__CPROVER_assigns (*sampletype, __CPROVER_object_whole (output))
__CPROVER_ensures (post_decode (input, inputsize, samplecount, output, outputsize, *sampletype, swapflag, __CPROVER_return_value));
#endif

void
harness (void)
{
  uint64_t n       = vp_u (0, VP_MAX (INT32_MAX, 3));
  uint64_t insize  = vp_u (1, VP_MAX ((uint64_t)1 << 40, 24));
  uint64_t outsize = vp_u (1, VP_MAX ((uint64_t)1 << 40, 24));
  int swap         = vp_bool ();
  int8_t verbose   = vp_bool () * 3;
  g_k              = vp_u (0, VP_MAX (INT32_MAX, 2));
  void *in         = vp_buf (insize);
  void *out        = vp_alloc (outsize);
  char st          = 0;
  int64_t ret;

  g_s = (g_k < n && n * WIN <= insize) ? spec_sample (in, g_k, swap) : 0;
  ret = ms_decode_data (in, insize, ENC, n, out, outsize, &st, swap, NULL, verbose);
  VP_ASSERT (post_decode (in, insize, n, out, outsize, st, swap, ret), "decoded samples equal the format definition and counts and sizes are checked");
  if (ret > 0)
    VP_REACH ("decoded");
  vp_release (in);
  vp_release (out);
}
