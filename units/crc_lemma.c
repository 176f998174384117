/*UNIT
{"mode": "complete", "timeout": 300, "unwind": 300, "native": false,
 "variants": {"tables": {"defs": ["TABLES"], "functions": ["CRC32C_TABLE"]}, "linear": {"defs": ["LINEAR"]}, "chain1": {"defs": ["CHAIN=1"]}, "chain4": {"defs": ["CHAIN=4"]}, "chain8": {"defs": ["CHAIN=8"]}}}
*/
/* Lemmas used by crc.c, for all values.
 * tables: every entry of the real tables is Z applied k+1 times to the index, where Z (c) = STEP (c, 0)
 * linear: STEP (c, b) = Z (c ^ b); Z (c ^ d) = Z (c) ^ Z (d); Z (0) = 0; Z (c << 8) = c for 24 bit c
 * chain:  from these alone (Z uninterpreted), 1, 4 or 8 STEPs equal the sum of table entries */
#include "vp.h"
#include "c_crc.h"
#include "repo.h"
#include "crc32c.c"
int ms_bigendianhost (void) { return 0; }

#ifdef CHAIN
uint32_t __CPROVER_uninterpreted_Z (uint32_t);
#define Z(x) __CPROVER_uninterpreted_Z (x)
#endif

void
harness (void)
{
#ifdef TABLES
  for (int k = 0; k < 8; k++)
    for (int b = 0; b < 256; b++)
      VP_ASSERT (CRC32C_TABLE[k][b] == (k == 0 ? spec_step (0, b) : spec_step (CRC32C_TABLE[k - 1][b], 0)), "table entry");
#elif defined(LINEAR)
  uint32_t c = vp_u32 (), d = vp_u32 ();
  uint8_t b = vp_u8 ();
  VP_ASSERT (spec_step (c, b) == spec_step (c ^ b, 0), "step");
  VP_ASSERT (BIT1 (c ^ d) == (BIT1 (c) ^ BIT1 (d)), "linear, one bit: hence linear for eight");
  VP_ASSERT (spec_step (0, 0) == 0, "zero");
  VP_ASSERT (spec_step (c << 8, 0) == (c & 0xffffff), "shift");
#else
  uint32_t c = vp_u32 (), s = c, term[12], t[8], sum = 0;
  uint8_t b[8], u[8];
  for (int i = 0; i < CHAIN; i++)
  {
    b[i] = vp_u8 ();
    u[i] = i < 4 ? b[i] ^ (uint8_t)(c >> (8 * i)) : b[i];
  }
  VP_ASSUME (Z (0) == 0);
  for (int i = 0; i < CHAIN; i++)
  {
    /* s ^ b[i] is the sum of the part of c not used yet, u[i], and t[l] = Z^(i-l) (u[l]) for l < i */
    uint32_t high = i < 4 ? (c >> (8 * i)) & ~0xffu : 0, part = 0;
    int n = 0;
    term[n++] = high;
    term[n++] = u[i];
    for (int l = 0; l < i; l++)
      term[n++] = t[l];
    for (int m = 0; m < n; m++)
    {
      VP_ASSUME (Z (part ^ term[m]) == (Z (part) ^ Z (term[m]))); /* linear */
      part ^= term[m];
    }
    VP_ASSUME (Z (high) == high >> 8); /* shift */
    VP_ASSERT ((s ^ b[i]) == part, "state is the sum of its terms");
    s = Z (part);
    for (int l = 0; l < i; l++)
      t[l] = Z (t[l]);
    t[i] = Z (u[i]);
  }
  for (int l = 0; l < CHAIN; l++)
    sum ^= t[l]; /* t[l] is now table entry CHAIN - 1 - l for byte u[l] */
  if (CHAIN < 4)
    sum ^= c >> 8 * CHAIN;
  VP_ASSERT (s == sum, "steps equal the sum of table entries");
#endif
  VP_REACH ("end");
}
