/* Dual-mode harness support.
 *
 * VP_CONTRACT  CBMC, loop and function contracts applied, sizes unbounded
 * VP_BOUNDED   CBMC, no contracts, loops unwound (complete unwinding or a stated bound)
 * VP_NATIVE    gcc, AddressSanitizer, inputs from a replay file or a seeded generator
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <math.h>
#include <time.h>
#include <ctype.h>
#include <errno.h>

#if defined(VP_CONTRACT) || defined(VP_BOUNDED)
#define VP_CBMC 1
#define VP_ASSERT(C, MSG) __CPROVER_assert ((C), "vp: " MSG)
#define VP_ASSUME(C) __CPROVER_assume (C)
#ifdef VP_NOREACH
#define VP_REACH(MSG)
#else
#define VP_REACH(MSG) __CPROVER_assert (0, "vp_reach: " MSG)
#endif
/* every input of a harness passes through vp_log, in order: the replay file is
 * the sequence of values assigned to it in the counterexample trace */
uint64_t vp_log;
uint64_t nondet_vp_u64 (void);
int64_t nondet_vp_i64 (void);
static inline uint64_t
vp_u (uint64_t lo, uint64_t hi)
{
  uint64_t v = nondet_vp_u64 ();
  __CPROVER_assume (v >= lo && v <= hi);
  vp_log = v;
  return v;
}
static inline int64_t
vp_i (int64_t lo, int64_t hi)
{
  int64_t v = nondet_vp_i64 ();
  __CPROVER_assume (v >= lo && v <= hi);
  vp_log = (uint64_t)v;
  return v;
}
static inline uint8_t vp_u8 (void) { uint8_t v; vp_log = v; return v; }
static inline uint16_t vp_u16 (void) { uint16_t v; vp_log = v; return v; }
static inline uint32_t vp_u32 (void) { uint32_t v; vp_log = v; return v; }
static inline uint64_t vp_u64 (void) { uint64_t v; vp_log = v; return v; }
static inline int vp_bool (void) { uint8_t v; __CPROVER_assume (v <= 1); vp_log = v; return v; }
static inline void *
vp_alloc (size_t n)
{
  void *p = malloc (n);
  __CPROVER_assume (p != NULL);
  return p;
}
/* array of N elements of type T: the element type of the object is known to the verifier */
#define VP_ARRAY(T, N) ((T *)__CPROVER_allocate ((N) * sizeof (T), 0))
/* buffer of n arbitrary bytes */
#ifdef VP_CONTRACT
static inline void *vp_buf (size_t n) { return vp_alloc (n); }
#else
static inline void *
vp_buf (size_t n)
{
  uint8_t *p = vp_alloc (n);
  for (size_t i = 0; i < n; i++)
    p[i] = vp_u8 ();
  return p;
}
#endif
#define vp_release(P) free (P)
/* the static initializer of libmseed_memory takes the address of these */
static int vp_nomem; /* an allocation failed */
static void *vp_malloc (size_t n) { void *p = malloc (n); if (!p) vp_nomem = 1; return p; }
static void *vp_realloc (void *p, size_t n) { void *q = realloc (p, n); if (!q) vp_nomem = 1; return q; }
static void vp_free (void *p) { free (p); }
#define VP_MEMHOOK 1
#else /* VP_NATIVE */
#define VP_NATIVE 1
#define vp_nomem 0
void vp_fail (const char *msg);
void vp_reject (void);
uint64_t vp_u (uint64_t lo, uint64_t hi);
int64_t vp_i (int64_t lo, int64_t hi);
uint8_t vp_u8 (void);
uint16_t vp_u16 (void);
uint32_t vp_u32 (void);
uint64_t vp_u64 (void);
int vp_bool (void);
void *vp_alloc (size_t n);
void *vp_buf (size_t n);
#define VP_ARRAY(T, N) ((T *)vp_alloc ((N) * sizeof (T)))
#define vp_release(P) ((void)0)
#define VP_ASSERT(C, MSG) do { if (!(C)) vp_fail (MSG); } while (0)
#define VP_ASSUME(C) do { if (!(C)) vp_reject (); } while (0)
#define VP_REACH(MSG)
#endif

/* a postcondition which the contract of the function also states: not proved twice */
#if defined(VP_CONTRACT) && !defined(VP_ALLPOST)
#define VP_POST(C, MSG) { int vp_unused = (C); }
#else
#define VP_POST(C, MSG) VP_ASSERT (C, MSG)
#endif

/* P points into the object of BASE: proved, then P is replaced by the same value derived
 * from BASE, which tells the verifier the object (a pointer changed by a loop may
 * otherwise point to any object) */
#define SAMEPTR(P, TYPE, BASE)                                                                   \
  { uint64_t vp_off = __CPROVER_POINTER_OFFSET (P) - __CPROVER_POINTER_OFFSET (BASE);            \
    TYPE vp_p = (TYPE)((const uint8_t *)(BASE) + vp_off);                                        \
    __CPROVER_assert (P == vp_p, "ghost pointer equals pointer");                                \
    P = vp_p; }

/* sizes: SIZES(unbounded, bounded) selects the largest size explored */
#ifdef VP_CONTRACT
#define VP_MAX(UNBOUNDED, BOUNDED) (UNBOUNDED)
#else
#define VP_MAX(UNBOUNDED, BOUNDED) (BOUNDED)
#endif

/* as above for loop-free code: unbounded for the verifier in every mode */
#ifdef VP_CBMC
#define VP_SZ(UNBOUNDED, NATIVE) (UNBOUNDED)
#else
#define VP_SZ(UNBOUNDED, NATIVE) (NATIVE)
#endif

/* ghost index: quantified variable of a contract, arbitrary and never changed */
#define VP_IMP(A, B) (!(A) || (B))

/* Logging is outside of every property except its own: it has no effect on the
 * state of the caller (assumed contract), so the call is dropped. */
#ifndef VP_KEEP_LOG
#define VP_STUB_LOG 1
#endif
#endif
