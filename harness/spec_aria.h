/* RFC 5794 (uses aesS/aesIS of spec_aes.h: call aesTables() first) */
#include "spec_aes.h"
#include "spec_tables.h"
static uint8_t ariaIS2[256];
static void ariaTables(void) { int i; aesTables(); for (i = 0; i < 256; i++) ariaIS2[specAriaS2[i]] = (uint8_t)i; }
static const uint8_t *ariaSB(int n) { return n == 0 ? aesS : n == 1 ? specAriaS2 : n == 2 ? aesIS : ariaIS2; }
static void ariaA(const uint8_t x[16], uint8_t y[16]) {
  static const uint8_t t[16][7] = {{3,4,6,8,9,13,14},{2,5,7,8,9,12,15},{1,4,6,10,11,12,15},{0,5,7,10,11,13,14},{0,2,5,8,11,14,15},{1,3,4,9,10,14,15},{0,2,7,9,10,12,13},{1,3,6,8,11,12,13},
    {0,1,4,7,10,13,15},{0,1,5,6,11,12,14},{2,3,5,6,8,13,15},{2,3,4,7,9,12,14},{1,2,6,7,9,11,12},{0,3,6,7,8,10,13},{0,3,4,5,9,11,14},{1,2,4,5,8,10,15}};
  int i, j; for (i = 0; i < 16; i++) { y[i] = 0; for (j = 0; j < 7; j++) y[i] ^= x[t[i][j]]; }
}
static void ariaF(const uint8_t x[16], const uint8_t k[16], int even, uint8_t y[16]) {
  uint8_t t[16]; int i; for (i = 0; i < 16; i++) t[i] = ariaSB((i + (even ? 2 : 0)) & 3)[x[i] ^ k[i]];
  ariaA(t, y);
}
static void ariaRot(const uint8_t x[16], int left, uint8_t y[16]) { int i; for (i = 0; i < 16; i++) { int b = left / 8, s = left % 8; y[i] = (uint8_t)(x[(i + b) & 15] << s | (s ? x[(i + b + 1) & 15] >> (8 - s) : 0)); } }
static int ariaKeys(const uint8_t *key, int klen, uint8_t ek[17][16]) {
  static const uint8_t C[3][16] = {{0x51,0x7c,0xc1,0xb7,0x27,0x22,0x0a,0x94,0xfe,0x13,0xab,0xe8,0xfa,0x9a,0x6e,0xe0},{0x6d,0xb1,0x4a,0xcc,0x9e,0x21,0xc8,0x20,0xff,0x28,0xb1,0xd5,0xef,0x5d,0xe2,0xb0},{0xdb,0x92,0x37,0x1d,0x21,0x26,0xe9,0x70,0x03,0x24,0x97,0x75,0x04,0xe8,0xc9,0x0e}};
  uint8_t w[4][16], t[16]; int i, j, s = (klen - 16) / 8, n = 12 + 2 * s; static const int rot[5] = {128 - 19, 128 - 31, 61, 31, 19};
  for (i = 0; i < 16; i++) w[0][i] = key[i];
  ariaF(w[0], C[s], 0, w[1]); for (i = 0; i < 16; i++) if (16 + i < klen) w[1][i] ^= key[16 + i];
  ariaF(w[1], C[(s + 1) % 3], 1, w[2]); for (i = 0; i < 16; i++) w[2][i] ^= w[0][i];
  ariaF(w[2], C[(s + 2) % 3], 0, w[3]); for (i = 0; i < 16; i++) w[3][i] ^= w[1][i];
  for (i = 0; i <= n; i++) { ariaRot(w[(i + 1) & 3], rot[i / 4], t); for (j = 0; j < 16; j++) ek[i][j] = w[i & 3][j] ^ t[j]; }
  return n;
}
static void ariaCrypt(uint8_t k[17][16], int n, const uint8_t in[16], uint8_t out[16]) {
  uint8_t x[16], y[16]; int r, i; for (i = 0; i < 16; i++) x[i] = in[i];
  for (r = 0; r < n - 1; r++) { ariaF(x, k[r], r & 1, y); for (i = 0; i < 16; i++) x[i] = y[i]; }
  for (i = 0; i < 16; i++) out[i] = ariaSB((i + 2) & 3)[x[i] ^ k[n - 1][i]] ^ k[n][i];
}
static void ariaDecKeys(uint8_t ek[17][16], int n, uint8_t dk[17][16]) {
  int i, j; for (j = 0; j < 16; j++) { dk[0][j] = ek[n][j]; dk[n][j] = ek[0][j]; }
  for (i = 1; i < n; i++) ariaA(ek[n - i], dk[i]);
}
