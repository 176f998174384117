/* The Steim-1 and Steim-2 formats (SEED manual, appendix B): what a 32-bit data word holds.
 * nib: the two bits for the word in word 0 of its frame, b: the four bytes of the word in
 * memory order, be: the payload is big endian */
#ifndef C_STEIM_H
#define C_STEIM_H
static inline uint32_t
st_u32 (uint32_t raw, int be) /* raw: as loaded on a little endian host */
{
  return be ? (raw >> 24) | ((raw >> 8) & 0xff00u) | ((raw << 8) & 0xff0000u) | (raw << 24) : raw;
}
static inline int32_t
st_sx (uint32_t v, int bits)
{
  v &= bits == 32 ? 0xffffffffu : ((1u << bits) - 1);
  return (v >> (bits - 1)) & 1 ? (int32_t)(v | (bits == 32 ? 0 : ~((1u << bits) - 1))) : (int32_t)v;
}
/* number of differences, -1: undefined */
static inline int
st_count (uint32_t nib, uint32_t raw, int be)
{
#if STEIM == 1
  return nib == 0 ? 0 : nib == 1 ? 4 : nib == 2 ? 2 : 1;
#else
  uint32_t dnib = st_u32 (raw, be) >> 30;
  if (nib == 0)
    return 0;
  if (nib == 1)
    return 4;
  if (nib == 2)
    return dnib == 1 ? 1 : dnib == 2 ? 2 : dnib == 3 ? 3 : -1;
  return dnib == 0 ? 5 : dnib == 1 ? 6 : dnib == 2 ? 7 : -1;
#endif
}
/* difference j */
static inline int32_t
st_value (uint32_t nib, uint32_t raw, int be, int j)
{
  if (nib == 1)
    return st_sx (raw >> (8 * j), 8); /* bytes in memory order */
#if STEIM == 1
  if (nib == 2)
  {
    uint32_t b0 = (raw >> (16 * j)) & 0xff, b1 = (raw >> (16 * j + 8)) & 0xff;
    return st_sx (be ? b0 << 8 | b1 : b1 << 8 | b0, 16);
  }
  return (int32_t)st_u32 (raw, be);
#else
  {
    uint32_t u = st_u32 (raw, be), dnib = u >> 30;
    int bits = nib == 2 ? (dnib == 1 ? 30 : dnib == 2 ? 15 : 10) : (dnib == 0 ? 6 : dnib == 1 ? 5 : 4);
    int n    = nib == 2 ? (dnib == 1 ? 1 : dnib == 2 ? 2 : 3) : (dnib == 0 ? 5 : dnib == 1 ? 6 : 7);
    return st_sx (u >> (bits * (n - 1 - j)), bits);
  }
#endif
}
#endif
