/* Schneier, Blowfish (1993) */
#include "rsx.h"
#include "spec_tables.h"
static uint32_t bfP[18], bfS[4][256];
static uint32_t bfF(uint32_t x) { return ((bfS[0][x >> 24] + bfS[1][(x >> 16) & 255]) ^ bfS[2][(x >> 8) & 255]) + bfS[3][x & 255]; }
static void bfEnc(uint32_t *l, uint32_t *r) {
  uint32_t L = *l, R = *r, t; int i;
  for (i = 0; i < 16; i++) { L ^= bfP[i]; R ^= bfF(L); t = L; L = R; R = t; }
  t = L; L = R; R = t; R ^= bfP[16]; L ^= bfP[17]; *l = L; *r = R;
}
static void bfDec(uint32_t *l, uint32_t *r) {
  uint32_t L = *l, R = *r, t; int i;
  for (i = 17; i > 1; i--) { L ^= bfP[i]; R ^= bfF(L); t = L; L = R; R = t; }
  t = L; L = R; R = t; R ^= bfP[1]; L ^= bfP[0]; *l = L; *r = R;
}
static void bfKey(const uint8_t *key, int n) {
  int i, j, k = 0; uint32_t l = 0, r = 0;
  for (i = 0; i < 4; i++) for (j = 0; j < 256; j++) bfS[i][j] = specBfS[256 * i + j];
  for (i = 0; i < 18; i++) { uint32_t d = 0; for (j = 0; j < 4; j++) { d = d << 8 | key[k]; k = (k + 1) % n; } bfP[i] = specBfP[i] ^ d; }
  for (i = 0; i < 18; i += 2) { bfEnc(&l, &r); bfP[i] = l; bfP[i + 1] = r; }
  for (i = 0; i < 4; i++) for (j = 0; j < 256; j += 2) { bfEnc(&l, &r); bfS[i][j] = l; bfS[i][j + 1] = r; }
}
static uint32_t bfbe(const uint8_t *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static void bfBlock(int dec, const uint8_t in[8], uint8_t out[8]) {
  uint32_t l = bfbe(in), r = bfbe(in + 4); int i; if (dec) bfDec(&l, &r); else bfEnc(&l, &r);
  for (i = 0; i < 4; i++) { out[i] = (uint8_t)(l >> (24 - 8 * i)); out[4 + i] = (uint8_t)(r >> (24 - 8 * i)); }
}
