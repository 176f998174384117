/* The miniSEED 2 header (SEED manual, chapter 8): specification machine of the blockette chain */
#ifndef C_MS2_H
#define C_MS2_H
typedef struct
{
  int off;                 /* current blockette, 0: end of chain */
  double rate;             /* nominal rate, or of Blockette 100 */
  int len, enc;            /* of Blockette 1000 */
  int b1000, b1001;        /* last Blockette 1000 and 1001 */
} ms2_chain;
#define M8(o) ((uint32_t)((const uint8_t *)ms2_rec)[o])
static const char *ms2_rec;
static inline uint32_t
M16 (int o, int be)
{
  uint16_t v; /* little endian host */
  memcpy (&v, ms2_rec + o, 2);
  return be ? (uint32_t)(uint16_t)(v << 8 | v >> 8) : v;
}
static inline uint32_t
M32 (int o, int be)
{
  uint32_t v;
  memcpy (&v, ms2_rec + o, 4);
  return be ? v << 24 | (v & 0xff00) << 8 | ((v >> 8) & 0xff00) | v >> 24 : v;
}
static inline int
ms2_be (void)
{
  uint32_t y = M16 (20, 0), d = M16 (22, 0);
  return !(y >= 1900 && y <= 2100 && d >= 1 && d <= 366);
}
static inline int
ms2_blen (uint32_t type)
{
  return type == 100 ? 12 : type == 200 ? 52 : type == 201 || type == 300 || type == 310 ? 60 : type == 320 ? 64 : type == 390 ? 28
         : type == 395 || type == 400 ? 16 : type == 405 ? 6 : type == 500 ? 200 : type == 1000 || type == 1001 ? 8 : 0;
}
/* one blockette */
static inline void
ms2_step (ms2_chain *c, int reclen, int be)
{
  int o = c->off, l, n;
  uint32_t t = M16 (o, be);
  if (t == 2000 && o + 6 > reclen)
    { c->off = 0; return; }
  l = t == 2000 ? (int)M16 (o + 4, be) : ms2_blen (t);
  if (l == 0 || o + l > reclen)
    { c->off = 0; return; }
  if (t == 100)
  {
    uint32_t u = M32 (o + 4, be);
    float f;
    memcpy (&f, &u, 4);
    c->rate = f;
  }
  if (t == 1000)
  {
    uint32_t x = M8 (o + 6);
    int len = x < 31 ? 1 << x : 0;
    c->b1000 = o;
    c->enc = (int)M8 (o + 4);
    if (len >= 40 && len <= reclen)
      c->len = len;
  }
  if (t == 1001)
    c->b1001 = o;
  n = (int)M16 (o + 2, be);
  c->off = n == 0 || n < o + l || n + 4 > reclen ? 0 : n;
}
#endif
