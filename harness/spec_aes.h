/* FIPS-197, written from the definition; byte multiplication through tables computed from the definition. */
#include "rsx.h"
static uint8_t aesS[256], aesIS[256], aesM[16][256];
static uint8_t aesGmul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); b >>= 1; } return r; }
static void aesTables(void) {
  int x, y, i; uint8_t inv[256];
  /* inverses through powers of the generator 3 */
  uint8_t p[256]; uint8_t g = 1;
  for (i = 0; i < 255; i++) { p[i] = g; g = (uint8_t)(g ^ aesGmul(g, 2)); }
  inv[0] = 0; for (i = 0; i < 255; i++) inv[p[i]] = p[(255 - i) % 255];
  for (x = 0; x < 256; x++) {
    uint8_t v = inv[x], s = 0x63;
    for (i = 0; i < 5; i++) s ^= (uint8_t)((v << i) | (v >> (8 - i)));
    aesS[x] = s;
  }
  for (x = 0; x < 256; x++) aesIS[aesS[x]] = (uint8_t)x;
  for (y = 1; y < 16; y++) for (x = 0; x < 256; x++) aesM[y][x] = aesGmul((uint8_t)x, (uint8_t)y);
}
/* round keys: (nr + 1) * 16 bytes */
static int aesExpand(const uint8_t *key, int nk, uint8_t w[15 * 16]) {
  int nr = nk + 6, i, j; uint8_t rc = 1;
  for (i = 0; i < 4 * nk; i++) w[i] = key[i];
  for (i = nk; i < 4 * (nr + 1); i++) {
    uint8_t t[4]; for (j = 0; j < 4; j++) t[j] = w[4 * (i - 1) + j];
    if (i % nk == 0) { uint8_t u = t[0]; t[0] = aesS[t[1]] ^ rc; t[1] = aesS[t[2]]; t[2] = aesS[t[3]]; t[3] = aesS[u]; rc = aesM[2][rc]; }
    else if (nk > 6 && i % nk == 4) for (j = 0; j < 4; j++) t[j] = aesS[t[j]];
    for (j = 0; j < 4; j++) w[4 * i + j] = w[4 * (i - nk) + j] ^ t[j];
  }
  return nr;
}
static void aesEnc(const uint8_t *w, int nr, const uint8_t in[16], uint8_t out[16]) {
  uint8_t s[16], t[16]; int r, c, i, k;
  for (i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
  for (r = 1; r <= nr; r++) {
    for (c = 0; c < 4; c++) for (i = 0; i < 4; i++) t[4 * c + i] = aesS[s[4 * ((c + i) & 3) + i]];
    for (c = 0; c < 4; c++) for (i = 0; i < 4; i++) {
      static const uint8_t m[4] = {2, 3, 1, 1}; uint8_t v = 0;
      if (r == nr) v = t[4 * c + i]; else for (k = 0; k < 4; k++) v ^= aesM[m[(k - i) & 3]][t[4 * c + k]];
      s[4 * c + i] = v ^ w[16 * r + 4 * c + i];
    }
  }
  for (i = 0; i < 16; i++) out[i] = s[i];
}
static void aesDec(const uint8_t *w, int nr, const uint8_t in[16], uint8_t out[16]) {
  uint8_t s[16], t[16]; int r, c, i, k;
  for (i = 0; i < 16; i++) s[i] = in[i] ^ w[16 * nr + i];
  for (r = nr - 1; r >= 0; r--) {
    for (c = 0; c < 4; c++) for (i = 0; i < 4; i++) t[4 * c + i] = aesIS[s[4 * ((c - i) & 3) + i]];
    for (c = 0; c < 4; c++) for (i = 0; i < 4; i++) {
      /* InvMixColumns(x ^ k) = InvMixColumns(x) ^ InvMixColumns(k), applied byte by byte */
      static const uint8_t m[4] = {14, 11, 13, 9}; uint8_t v = 0;
      if (r == 0) v = t[4 * c + i] ^ w[4 * c + i];
      else for (k = 0; k < 4; k++) v ^= aesM[m[(k - i) & 3]][t[4 * c + k]] ^ aesM[m[(k - i) & 3]][w[16 * r + 4 * c + k]];
      s[4 * c + i] = v;
    }
  }
  for (i = 0; i < 16; i++) out[i] = s[i];
}
