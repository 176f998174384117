/* Native driver of a harness: replay of one recorded input sequence, or a
 * seeded search for a failing one.
 *   prog replay FILE          exit 0 harness held, 42 failed, 3 input rejected
 *   prog search SEED SECONDS OUTFILE   exit 0 none found, 42 found (OUTFILE written)
 */
#include "vp.h"
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
void harness (void);

#define LOGMAX 400000
static uint64_t logv[LOGMAX];
static size_t logn;
static uint64_t *rep;
static size_t repn, reppos;
static int replaying;
static const char *outfile;
static jmp_buf jb;
static void *blk[4096];
static int nblk;
static uint64_t rs = 88172645463325252ull;
static int style;

static uint64_t rnd (void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }

static void
dump (void)
{
  if (!outfile) return;
  FILE *f = fopen (outfile, "w");
  if (!f) return;
  for (size_t i = 0; i < logn && i < LOGMAX; i++)
    fprintf (f, "%llu\n", (unsigned long long)logv[i]);
  fclose (f);
}
static void rec (uint64_t v) { if (logn < LOGMAX) logv[logn] = v; logn++; }
void
vp_fail (const char *msg)
{
  fprintf (stderr, "VP-FAIL: %s\n", msg);
  dump ();
  _exit (42);
}
void vp_reject (void) { longjmp (jb, 1); }
static int take (uint64_t *v)
{
  if (!replaying) return 0;
  *v = (reppos < repn) ? rep[reppos] : 0;
  reppos++;
  return 1;
}
uint64_t
vp_u (uint64_t lo, uint64_t hi)
{
  uint64_t v, span = hi - lo;
  if (take (&v))
  {
    if (v < lo || v > hi) { if (reppos > repn) v = lo; else vp_reject (); }
    return v;
  }
  switch (rnd () % 6)
  {
  case 0: v = lo + (span ? rnd () % 4 % (span + 1 ? span + 1 : ~0ull) : 0); break;
  case 1: v = hi - (span ? rnd () % 4 % (span + 1 ? span + 1 : ~0ull) : 0); break;
  case 2: { unsigned b = rnd () % 64; v = ((uint64_t)1 << b) + (rnd () % 3) - 1; if (span != ~0ull) v = lo + v % (span + 1); break; }
  case 3: { unsigned b = 1 + rnd () % 16; v = rnd () & (((uint64_t)1 << b) - 1); v = (span == ~0ull) ? v : lo + v % (span + 1); break; }
  default: v = (span == ~0ull) ? rnd () : lo + rnd () % (span + 1); break;
  }
  rec (v);
  return v;
}
int64_t
vp_i (int64_t lo, int64_t hi)
{
  uint64_t v;
  if (take (&v))
  {
    int64_t s = (int64_t)v;
    if (s < lo || s > hi) { if (reppos > repn) s = lo; else vp_reject (); }
    return s;
  }
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  int64_t s;
  switch (rnd () % 6)
  {
  case 0: s = lo + (int64_t)(span ? rnd () % 3 % (span + 1 ? span + 1 : ~0ull) : 0); break;
  case 1: s = hi - (int64_t)(span ? rnd () % 3 % (span + 1 ? span + 1 : ~0ull) : 0); break;
  case 2:
  case 3:
  {
    unsigned b = rnd () % 63;
    s = (int64_t)(((uint64_t)1 << b) + rnd () % 3 - 1);
    if (rnd () & 1) s = -s;
    if (s < lo || s > hi) s = (span == ~0ull) ? s : (int64_t)((uint64_t)lo + (uint64_t)s % (span + 1));
    break;
  }
  default: s = (int64_t)((uint64_t)lo + ((span == ~0ull) ? rnd () : rnd () % (span + 1))); break;
  }
  rec ((uint64_t)s);
  return s;
}
uint64_t vp_u64 (void) { return vp_u (0, ~0ull); }
uint32_t vp_u32 (void) { return (uint32_t)vp_u (0, 0xffffffffu); }
uint16_t vp_u16 (void) { return (uint16_t)vp_u (0, 0xffff); }
uint8_t
vp_u8 (void)
{
  uint64_t v;
  if (take (&v)) return (uint8_t)v;
  switch (style)
  {
  case 0: v = rnd () & 0xff; break;
  case 1: v = (rnd () % 4) ? 0 : rnd () & 0xff; break;
  case 2: v = rnd () % 4; break;
  default: v = (rnd () & 1) ? 0xff - rnd () % 3 : rnd () & 0xff; break;
  }
  rec (v);
  return (uint8_t)v;
}
int vp_bool (void) { return (int)vp_u (0, 1); }
void *
vp_alloc (size_t n)
{
  void *p = malloc (n);
  if (!p) { fprintf (stderr, "out of memory\n"); _exit (3); }
  if (nblk < 4096) blk[nblk++] = p;
  return p;
}
void *
vp_buf (size_t n)
{
  uint8_t *p = vp_alloc (n);
  style = rnd () % 4;
  for (size_t i = 0; i < n; i++) p[i] = vp_u8 ();
  style = 0;
  return p;
}
static void death (void) { dump (); }
void __sanitizer_set_death_callback (void (*cb) (void));
static void onsig (int s) { (void)s; fprintf (stderr, "VP-FAIL: signal %d\n", s); dump (); _exit (42); }

int
main (int argc, char **argv)
{
  __sanitizer_set_death_callback (death);
  signal (SIGALRM, onsig);
  if (argc >= 3 && !strcmp (argv[1], "replay"))
  {
    FILE *f = fopen (argv[2], "r");
    char line[256];
    if (!f) return 2;
    rep = malloc (sizeof (uint64_t) * LOGMAX);
    while (fgets (line, sizeof line, f))
      if (repn < LOGMAX && (isdigit ((unsigned char)line[0])))
        rep[repn++] = strtoull (line, NULL, 10);
    fclose (f);
    replaying = 1;
    alarm (20);
    if (setjmp (jb)) { fprintf (stderr, "input rejected\n"); return 3; }
    harness ();
    return 0;
  }
  if (argc >= 5 && !strcmp (argv[1], "search"))
  {
    time_t end = time (NULL) + atoi (argv[3]);
    unsigned long n = 0;
    rs ^= (strtoull (argv[2], NULL, 10) + 1) * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 16; i++) rnd ();
    outfile = argv[4];
    while (time (NULL) < end)
    {
      logn = 0;
      alarm (20);
      if (!setjmp (jb))
        harness ();
      for (int i = 0; i < nblk; i++) free (blk[i]);
      nblk = 0;
      n++;
    }
    fprintf (stderr, "searched %lu inputs\n", n);
    return 0;
  }
  return 2;
}
