/* RFC 4269 */
#include "rsx.h"
#include "spec_tables.h"
static uint32_t seedG(uint32_t x) {
  static const uint8_t m[4] = {0xfc, 0xf3, 0xcf, 0x3f}; uint8_t s[4], z[4]; int i, j;
  s[0] = specSeedS1[x & 255]; s[1] = specSeedS2[(x >> 8) & 255]; s[2] = specSeedS1[(x >> 16) & 255]; s[3] = specSeedS2[x >> 24];
  for (i = 0; i < 4; i++) { z[i] = 0; for (j = 0; j < 4; j++) z[i] ^= s[j] & m[(i + j) & 3]; }
  return (uint32_t)z[3] << 24 | (uint32_t)z[2] << 16 | (uint32_t)z[1] << 8 | z[0];
}
static uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static void pbe32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = (uint8_t)(v >> 16); p[2] = (uint8_t)(v >> 8); p[3] = (uint8_t)v; }
static void seedKeys(const uint8_t key[16], uint32_t k[16][2]) {
  uint32_t a = be32(key), b = be32(key + 4), c = be32(key + 8), d = be32(key + 12), kc = 0x9e3779b9; int i;
  for (i = 0; i < 16; i++) {
    k[i][0] = seedG(a + c - kc); k[i][1] = seedG(b - d + kc);
    if (i % 2 == 0) { uint32_t t = a; a = a >> 8 | b << 24; b = b >> 8 | t << 24; }
    else { uint32_t t = c; c = c << 8 | d >> 24; d = d << 8 | t >> 24; }
    kc = kc << 1 | kc >> 31;
  }
}
static void seedBlock(uint32_t k[16][2], int dec, const uint8_t in[16], uint8_t out[16]) {
  uint32_t l0 = be32(in), l1 = be32(in + 4), r0 = be32(in + 8), r1 = be32(in + 12); int i;
  for (i = 0; i < 16; i++) {
    uint32_t *q = k[dec ? 15 - i : i], c = r0 ^ q[0], d = r1 ^ q[1], t;
    t = seedG(c ^ d); c = seedG(t + c); d = seedG(c + t); c += d;
    /* c = C', d = D' */
    { uint32_t n0 = l0 ^ c, n1 = l1 ^ d; l0 = r0; l1 = r1; r0 = n0; r1 = n1; }
  }
  pbe32(out, r0); pbe32(out + 4, r1); pbe32(out + 8, l0); pbe32(out + 12, l1);
}
