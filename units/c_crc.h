/* CRC-32C (Castagnoli, reflected) by definition: one bit at a time */
#define BIT1(c) (((c) >> 1) ^ (0x82F63B78u & (0u - ((c) & 1u))))
static inline uint32_t
spec_step (uint32_t c, uint8_t b)
{
  c ^= b;
  c = BIT1 (c); c = BIT1 (c); c = BIT1 (c); c = BIT1 (c);
  c = BIT1 (c); c = BIT1 (c); c = BIT1 (c); c = BIT1 (c);
  return c;
}
