/*UNIT
{"mode": "complete", "timeout": 200, "unwind": 1, "search": 20,
 "ignore": "pointer_arithmetic|pointer relation",
 "stubs": {"msr_decode_int16": "stub_int16", "msr_decode_int32": "stub_int32", "msr_decode_float32": "stub_float32", "msr_decode_float64": "stub_float64",
           "msr_decode_steim1": "stub_steim1", "msr_decode_steim2": "stub_steim2", "msr_decode_geoscope": "stub_geoscope",
           "msr_decode_cdsn": "stub_cdsn", "msr_decode_sro": "stub_sro", "msr_decode_dwwssn": "stub_dwwssn"},
 "proved_elsewhere": ["msr_decode_int16", "msr_decode_int32", "msr_decode_float32", "msr_decode_float64", "msr_decode_steim1", "msr_decode_steim2",
                      "msr_decode_geoscope", "msr_decode_cdsn", "msr_decode_sro", "msr_decode_dwwssn"],
 "functions": ["ms_decode_data"],
 "note": "loop free: complete for all sizes and counts"}
*/
/* Contract of ms_decode_data() for any encoding: the decoder of the encoding is called with
 * buffers large enough for what it is told to decode, and its result is returned; unknown
 * encodings and buffers too small are refused. */
#include "vp.h"
#include "repo.h"
#include "genutils.c"
#include "gmtime64.c"
#include "lookup.c"
#include "unpackdata.c"
#include "unpack.c"
#undef malloc
#undef free
static int g_called;
static int64_t g_ret;
static const void *g_in;
static void *g_out;
static uint64_t g_n, g_size, g_outsize;
static int g_swap, g_enc;
#define GAVE(enc, win, wout)                                                                    \
  {                                                                                             \
    g_called++;                                                                                 \
    VP_ASSERT (g_enc == (enc), "decoder of the encoding");                                      \
    VP_ASSERT ((const void *)input == g_in && (void *)output == g_out && samplecount == g_n && !!swapflag == g_swap, "buffers, sample count and byte order passed on"); \
    VP_ASSERT (samplecount * (win) <= g_size && samplecount * (wout) <= g_outsize, "samples within the buffers"); \
    VP_ASSERT (outputlength <= g_outsize && outputlength >= samplecount * (wout), "size of the output"); \
    return g_ret;                                                                               \
  }
int64_t stub_int16 (int16_t *input, uint64_t samplecount, int32_t *output, uint64_t outputlength, int swapflag) GAVE (1, 2, 4)
int64_t stub_int32 (int32_t *input, uint64_t samplecount, int32_t *output, uint64_t outputlength, int swapflag) GAVE (3, 4, 4)
int64_t stub_float32 (float *input, uint64_t samplecount, float *output, uint64_t outputlength, int swapflag) GAVE (4, 4, 4)
int64_t stub_float64 (double *input, uint64_t samplecount, double *output, uint64_t outputlength, int swapflag) GAVE (5, 8, 8)
int64_t stub_cdsn (int16_t *input, uint64_t samplecount, int32_t *output, uint64_t outputlength, int swapflag) GAVE (16, 2, 4)
int64_t stub_sro (int16_t *input, uint64_t samplecount, int32_t *output, uint64_t outputlength, const char *s, int swapflag) GAVE (30, 2, 4)
int64_t stub_dwwssn (int16_t *input, uint64_t samplecount, int32_t *output, uint64_t outputlength, int swapflag) GAVE (32, 2, 4)
int64_t
stub_geoscope (char *input, uint64_t samplecount, float *output, uint64_t outputlength, int encoding, const char *s, int swapflag)
{
  VP_ASSERT (encoding == g_enc, "GEOSCOPE encoding passed on");
  GAVE (encoding == 12 || encoding == 13 || encoding == 14 ? encoding : -1, g_enc == 12 ? 3 : 2, 4)
}
int64_t
stub_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount, int32_t *output, uint64_t outputlength, const char *s, int swapflag)
{
  VP_ASSERT (inputlength == g_size, "size of the payload passed on");
  GAVE (10, 0, 4)
}
int64_t
stub_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount, int32_t *output, uint64_t outputlength, const char *s, int swapflag)
{
  VP_ASSERT (inputlength == g_size, "size of the payload passed on");
  GAVE (11, 0, 4)
}
static int
widths (int enc, int *win)
{
  switch (enc)
  {
  case 0: *win = 1; return 1;
  case 1: case 16: case 30: case 32: *win = 2; return 4;
  case 3: case 4: *win = 4; return 4;
  case 5: *win = 8; return 8;
  case 10: case 11: *win = 0; return 4;
  case 12: *win = 3; return 4;
  case 13: case 14: *win = 2; return 4;
  }
  return 0;
}
void
harness (void)
{
  uint64_t size = vp_u (0, VP_SZ ((1ull << 40), 300));
  uint64_t n = vp_u (0, VP_SZ (INT32_MAX, 300));
  uint8_t enc = vp_u8 ();
  int swap = vp_bool (), win, wout = widths (enc, &win);
#ifdef VP_NATIVE
  if (vp_bool ()) enc = (uint8_t[]){0, 1, 3, 4, 5, 10, 11, 16, 30, 32, 12, 13, 14}[vp_u (0, 12)];
  wout = widths (enc, &win);
#endif
  uint64_t outsize = vp_bool () ? n * wout : vp_u (0, VP_SZ ((1ull << 40), 3000));
#ifdef VP_CBMC
  void *in = vp_alloc (size);
#else
  void *in = vp_buf (size);
#endif
  void *out = vp_alloc (outsize);
  char *st = vp_alloc (1);
  g_in = in, g_out = out, g_n = n, g_size = size, g_outsize = outsize, g_swap = swap, g_enc = enc;
  g_ret = vp_bool () ? (int64_t)n : vp_i (-1, (int64_t)n);
  *st = 'x';
  int64_t r = ms_decode_data (in, size, enc, n, out, outsize, st, swap, "", 0);
  if (n == 0)
    VP_ASSERT (r == 0, "no samples");
  else if (wout == 0)
    VP_ASSERT (r < 0, "unknown encoding refused");
  else if (n * wout > outsize || n * win > size)
    VP_ASSERT (r < 0, "buffer too small refused");
  else
  {
    VP_ASSERT (*st == (enc == 0 ? 't' : enc == 5 ? 'd' : enc == 4 || (enc >= 12 && enc <= 14) ? 'f' : 'i'), "sample type");
#ifdef VP_CBMC
    if (enc == 0)
      VP_ASSERT (g_called == 0 && r == (int64_t)n, "text copied");
    else
      VP_ASSERT (g_called == 1 && (g_ret == (int64_t)n ? r == (int64_t)n : r < 0), "all samples or an error");
#else
    VP_ASSERT (r < 0 || r == (int64_t)n, "all samples or an error");
#endif
    VP_REACH ("decoded");
  }
}
