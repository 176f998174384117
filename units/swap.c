/*UNIT
{"mode": "complete", "timeout": 120, "unwind": 26, "search": 10,
 "functions": ["ms_gswap2", "ms_gswap4", "ms_gswap8", "ms_bigendianhost", "HO2d", "HO2u", "HO4d", "HO4u", "HO4f", "HO8f"],
 "note": "loop free: complete for all values, offsets and neighbours"}
*/
/* Contracts of the byte swap functions: for all bytes, at any alignment, the bytes are
 * reversed, the neighbours are untouched, and swapping twice restores them. */
#include "vp.h"
#include "repo.h"
#include "mseedformat.h"
#include "genutils.c"
#include "gmtime64.c"
void
harness (void)
{
  uint8_t *b = vp_buf (24), a[24];
  unsigned o = (unsigned)vp_u (0, 16), k = (unsigned)vp_u (0, 23), w = (unsigned)vp_u (1, 3);
  memcpy (a, b, 24);
  unsigned n = 1u << w;
  if (w == 1) ms_gswap2 (b + o);
  else if (w == 2) ms_gswap4 (b + o);
  else ms_gswap8 (b + o);
  if (k >= o && k < o + n)
    VP_ASSERT (b[k] == a[o + n - 1 - (k - o)], "bytes reversed");
  else
    VP_ASSERT (b[k] == a[k], "neighbours untouched");
  if (w == 1) ms_gswap2 (b + o);
  else if (w == 2) ms_gswap4 (b + o);
  else ms_gswap8 (b + o);
  VP_ASSERT (b[k] == a[k], "swapped twice restores the value");
  union { uint16_t h; uint8_t c[2]; } host;
  host.h = 1;
  VP_ASSERT (!!ms_bigendianhost () == (host.c[0] == 0), "host byte order");
  /* header values */
  union { uint8_t c[8]; uint16_t u2; int16_t d2; uint32_t u4; int32_t d4; float f4; double f8; } x, y;
  int sw = vp_bool () ? (int)vp_i (INT32_MIN, INT32_MAX) : vp_bool ();
  memcpy (x.c, a, 8);
  k &= 7;
  y.u2 = HO2u (x.u2, sw);
  VP_ASSERT (VP_IMP (k < 2, y.c[k] == x.c[sw ? 1 - k : k]), "HO2u");
  y.d2 = HO2d (x.d2, sw);
  VP_ASSERT (VP_IMP (k < 2, y.c[k] == x.c[sw ? 1 - k : k]), "HO2d");
  y.u4 = HO4u (x.u4, sw);
  VP_ASSERT (VP_IMP (k < 4, y.c[k] == x.c[sw ? 3 - k : k]), "HO4u");
  y.d4 = HO4d (x.d4, sw);
  VP_ASSERT (VP_IMP (k < 4, y.c[k] == x.c[sw ? 3 - k : k]), "HO4d");
  y.f4 = HO4f (x.f4, sw);
  VP_ASSERT (VP_IMP (k < 4, y.c[k] == x.c[sw ? 3 - k : k]), "HO4f");
  y.f8 = HO8f (x.f8, sw);
  VP_ASSERT (y.c[k] == x.c[sw ? 7 - k : k], "HO8f");
  VP_REACH ("end");
}
