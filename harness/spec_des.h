/* FIPS 46-3, bit by bit. Bits are numbered 1..n from the most significant as in the standard. */
#include "rsx.h"
#ifndef DES_S1_63
#define DES_S1_63 13   /* FIPS 46-3; another value only to describe the known finding */
#endif
static const uint8_t desIP[64] = {58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7};
static const uint8_t desE[48] = {32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1};
static const uint8_t desP[32] = {16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25};
static const uint8_t desPC1[56] = {57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
static const uint8_t desPC2[48] = {14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32};
static const uint8_t desS[8][64] = {
{14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,DES_S1_63},
{15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9},
{10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12},
{7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14},
{2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3},
{12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13},
{4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12},
{13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}};
static void desKeys(const uint8_t key[8], uint8_t k[16][48]) {
  static const uint8_t sh[16] = {1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1}; uint8_t cd[56]; int i, r, j, off = 0;
  for (i = 0; i < 56; i++) cd[i] = (key[(desPC1[i] - 1) / 8] >> (7 - (desPC1[i] - 1) % 8)) & 1;
  for (r = 0; r < 16; r++) {
    off += sh[r];
    for (j = 0; j < 48; j++) { int b = desPC2[j] - 1; k[r][j] = b < 28 ? cd[(b + off) % 28] : cd[28 + (b - 28 + off) % 28]; }
  }
}
static void desCore(const uint8_t k[16][48], int dec, uint8_t v[64]) {   /* v: 64 bits, in place */
  uint8_t l[32], r[32], n[32], s[32]; int i, q, j;
  for (i = 0; i < 32; i++) { l[i] = v[desIP[i] - 1]; r[i] = v[desIP[32 + i] - 1]; }
  for (q = 0; q < 16; q++) {
    const uint8_t *kk = k[dec ? 15 - q : q];
    for (i = 0; i < 8; i++) {
      uint8_t b[6], x, y;
      for (j = 0; j < 6; j++) b[j] = r[desE[6 * i + j] - 1] ^ kk[6 * i + j];
      y = (uint8_t)(b[0] << 5 | b[5] << 4 | b[1] << 3 | b[2] << 2 | b[3] << 1 | b[4]);   /* row b0b5, column b1..b4 */
      x = desS[i][y];
      for (j = 0; j < 4; j++) s[4 * i + j] = (x >> (3 - j)) & 1;
    }
    for (i = 0; i < 32; i++) n[i] = l[i] ^ s[desP[i] - 1];
    for (i = 0; i < 32; i++) { l[i] = r[i]; r[i] = n[i]; }
  }
  for (i = 0; i < 32; i++) { v[desIP[i] - 1] = r[i]; v[desIP[32 + i] - 1] = l[i]; }
}
static void desBlock(const uint8_t *key, int klen, int dec, const uint8_t in[8], uint8_t out[8]) {
  static uint8_t k[3][16][48]; uint8_t v[64]; int i, n = klen / 8;
  for (i = 0; i < n; i++) desKeys(key + 8 * i, k[i]);
  for (i = 0; i < 64; i++) v[i] = (in[i / 8] >> (7 - i % 8)) & 1;
  if (n == 1) desCore(k[0], dec, v);
  else { int a = dec ? n - 1 : 0, c = dec ? 0 : n - 1; if (n == 2) a = c = 0; desCore(k[a], dec, v); desCore(k[1], !dec, v); desCore(k[c], dec, v); }
  for (i = 0; i < 8; i++) out[i] = 0;
  for (i = 0; i < 64; i++) out[i / 8] |= (uint8_t)(v[i] << (7 - i % 8));
}
