/*UNIT
{"functions": ["mstl3_convertsamples"], "timeout": 300, "chunk": 200, "ignore": "pointer_arithmetic|pointer relation", "search": 10, "cbmc": ["--sat-solver", "cadical"],
 "split": [{"match": "postcond|loop_invariant|loop_step|loop_decreases|vp: |^harness", "each": true}],
 "variants": {"fi": {"enforce": ["mstl3_convertsamples"], "defs": ["FROM='f'", "TO='i'", "A=float", "B=int32_t"]}, "di": {"enforce": ["mstl3_convertsamples"], "defs": ["FROM='d'", "TO='i'", "A=double", "B=int32_t"]},
              "if": {"enforce": ["mstl3_convertsamples"], "defs": ["FROM='i'", "TO='f'", "A=int32_t", "B=float"]}, "df": {"enforce": ["mstl3_convertsamples"], "defs": ["FROM='d'", "TO='f'", "A=double", "B=float"]},
              "id": {"enforce": ["mstl3_convertsamples"], "defs": ["FROM='i'", "TO='d'", "A=int32_t", "B=double"]}, "fd": {"enforce": ["mstl3_convertsamples"], "defs": ["FROM='f'", "TO='d'", "A=float", "B=double"]},
              "tx": {"mode": "complete", "unwind": 2, "defs": ["V_TX", "FROM='i'", "TO='i'", "A=int32_t", "B=int32_t"]}},
 "trusted": ["realloc() of libmseed_memory shrinking a buffer keeps its first bytes (replaced by a stub which returns the same buffer or fails)"],
 "bounded": {"unwind": 4, "note": "three samples"}}
*/
/* Contract of mstl3_convertsamples(): for any number of samples, every sample (ghost index) has the
 * value of the original one; integers are the nearest ones, and unless truncation is allowed the
 * sample had no fraction.  On refusal the sample and its type are unchanged. */
#include "vp.h"
static int64_t g_n, g_i;
static A g_v;
static int g_trunc;
/* nearest integer, for values in range */
#define NEAR(X, R) (!((X) >= -2147483647.0 && (X) <= 2147483647.0) || ((X) - (double)(R) <= 0.500000001 && (double)(R) - (X) <= 0.500000001))
#define WHOLE(X) (!((X) >= -2147483647.0 && (X) <= 2147483647.0) || ((X) - (double)(int32_t)(X) <= 0.000001 && (double)(int32_t)(X) - (X) <= 0.000001))
#if defined(VP_CONTRACT)
#define SAMEBITS(P, V) ((P)[g_i] == (V) || ((V) != (V) && (P)[g_i] != (P)[g_i]))
#define L_CHECK(S)                                                                               \
  __CPROVER_assigns (idx)                                                                        \
  __CPROVER_loop_invariant (0 <= idx && idx <= g_n && idx >= 0)                                  \
  __CPROVER_loop_invariant (idx <= g_i || WHOLE (g_v))                                           \
  __CPROVER_decreases (g_n - idx)
#define L_CONV(S, D, OK)                                                                         \
  __CPROVER_assigns (idx, __CPROVER_object_whole (D))                                            \
  __CPROVER_loop_invariant (0 <= idx && idx <= g_n)                                              \
  __CPROVER_loop_invariant (idx <= g_i ? SAMEBITS (S, g_v) : (OK))                               \
  __CPROVER_decreases (g_n - idx)
#define LMV_LOOP_conv_check_f L_CHECK (fdata)
#define LMV_LOOP_conv_check_d L_CHECK (ddata)
#define LMV_LOOP_conv_fi L_CONV (fdata, idata, NEAR (g_v, idata[g_i]))
#define LMV_LOOP_conv_di L_CONV (ddata, idata, NEAR (g_v, idata[g_i]))
#define LMV_LOOP_conv_if L_CONV (idata, fdata, SAMEBITS (fdata, (float)g_v))
#define LMV_LOOP_conv_df L_CONV (ddata, fdata, SAMEBITS (fdata, (float)g_v))
#define LMV_LOOP_conv_id L_CONV (idata, ddata, SAMEBITS (ddata, (double)g_v))
#define LMV_LOOP_conv_fd L_CONV (fdata, ddata, SAMEBITS (ddata, (double)g_v))
#endif
#include "repo.h"
#include "genutils.c"
#ifdef VP_CONTRACT
#undef ms_log /* arguments of variadic calls of floating point type are beyond dfcc */
#define ms_log(LEVEL, ...) ((void)0)
#endif
#include "tracelist.c"
#undef malloc
#undef free
static int g_fail;
#ifdef VP_CBMC
static void *
shrink (void *p, size_t n)
{
  int r;
  if (r)
    g_fail = 1;
  return r ? NULL : p;
}
#endif
static int
post_conv (const MS3TraceSeg *s, int r)
{
  if (r != 0)
  {
    if (g_fail || vp_nomem)
      return 1;
    const A *o = (const A *)s->datasamples;
    return r == -1 && TO == 'i' && !g_trunc && s->sampletype == FROM && s->numsamples == g_n && (o[g_i] == g_v || (g_v != g_v && o[g_i] != o[g_i]));
  }
  const B *d = (const B *)s->datasamples;
  if (s->sampletype != TO || s->numsamples != g_n || s->datasize < g_n * sizeof (B))
    return 0;
  if (TO == 'i')
    return NEAR (g_v, d[g_i]) && (g_trunc || WHOLE (g_v));
  return d[g_i] == (B)g_v || (g_v != g_v && d[g_i] != d[g_i]);
}
#ifdef VP_CONTRACT
int mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
__CPROVER_assigns (*seg, __CPROVER_object_whole (seg->datasamples), g_fail, vp_nomem)
__CPROVER_frees (seg->datasamples)
__CPROVER_ensures (post_conv (seg, __CPROVER_return_value));
#endif
void
harness (void)
{
#ifdef V_TX
  static const char types[] = {'t', 'a', 'i', 'f', 'd'};
  MS3TraceSeg t, u;
  int from = (int)vp_u (0, 4), to = (int)vp_u (0, 4);
  memset (&t, 0, sizeof t);
  t.sampletype = types[from];
  t.numsamples = 1, t.datasize = 8;
  t.datasamples = &t; /* not used */
  VP_ASSUME (from < 2 || to < 2 || from == to);
  u = t;
  int x = mstl3_convertsamples (&t, types[to], vp_bool ());
  VP_ASSERT (x == (from == to ? 0 : -1), "text is never converted to or from numbers");
  VP_ASSERT (t.sampletype == u.sampletype && t.numsamples == 1 && t.datasize == 8 && t.datasamples == &t, "segment unchanged");
  VP_ASSERT (mstl3_convertsamples (NULL, types[to], 0) == -1, "no segment refused");
  VP_REACH ("end");
  return;
#endif
  g_n = (int64_t)vp_u (1, VP_MAX (1ll << 30, 3));
  g_i = (int64_t)vp_u (0, g_n - 1);
  A *d = VP_ARRAY (A, g_n);
#ifdef VP_CBMC
  libmseed_memory.vp_malloc = vp_malloc; /* dfcc: static variables are arbitrary */
  libmseed_memory.vp_free = vp_free;
  libmseed_memory.vp_realloc = shrink;
#else
  int whole = (int)vp_u (0, 2), any = 0;
#if defined(VP_NATIVE)
  for (int64_t i = 0; i < g_n; i++)
    if (FROM == 'i')
      d[i] = (A)vp_i (INT32_MIN, INT32_MAX);
    else
    {
      d[i] = (A)vp_i (-2147483000, 2147483000);
      if (!whole || (whole == 2 && i == g_i))
      {
        d[i] = vp_bool () ? (A)((double)(int)vp_i (-3000, 3000) / 16) : d[i];
        if (vp_u (0, 40) == 9)
          d[i] = vp_bool () ? NAN : (A)1e300;
      }
      any |= !(fabs (d[i] - (double)(int32_t)d[i]) <= 0.000001);
    }
#endif
#endif
  libmseed_prealloc_block_size = vp_bool () ? 0 : 1048576;
  MS3TraceSeg *s = vp_alloc (sizeof *s);
  memset (s, 0, sizeof *s);
  s->sampletype = FROM;
  s->numsamples = g_n;
  s->datasize = g_n * sizeof (A);
  s->datasamples = d;
#ifdef VP_NATIVE
  s->datasamples = malloc (s->datasize);
  memcpy (s->datasamples, d, s->datasize);
#endif
  g_v = d[g_i];
  g_trunc = vp_bool ();
  int r = mstl3_convertsamples (s, TO, g_trunc);
  VP_POST (post_conv (s, r), "samples converted or refused");
#ifdef VP_NATIVE
  VP_ASSERT (r == 0 || any, "refused only if a sample has a fraction");
  free (s->datasamples);
#endif
#ifndef V_TX
  if (r == 0 && g_n > 2)
    VP_REACH ("end");
#endif
}
