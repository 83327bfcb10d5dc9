/* The digest standards, written from their documents (RFC 1319/1320/1321, FIPS 180-4, TTAS.KO-12.0011/R2). */
#ifndef SPEC_DIGEST_H
#define SPEC_DIGEST_H
#include <stdint.h>
#include <string.h>
#include "spec_tables.h"
static uint32_t sRol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static uint32_t sRor(uint32_t x, int n) { return x >> n | x << (32 - n); }
static uint64_t sRor64(uint64_t x, int n) { return x >> n | x << (64 - n); }
static uint32_t sBe(const uint8_t *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static uint32_t sLe(const uint8_t *p) { return (uint32_t)p[3] << 24 | (uint32_t)p[2] << 16 | (uint32_t)p[1] << 8 | p[0]; }
static void sha1Block(uint32_t *h, const uint8_t *p) {
  uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; int t;
  for (t = 0; t < 16; t++) w[t] = sBe(p + 4 * t);
  for (; t < 80; t++) w[t] = sRol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
  for (t = 0; t < 80; t++) {
    uint32_t f = t < 20 ? (b & c) ^ (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) ^ (b & d) ^ (c & d) : b ^ c ^ d;
    uint32_t k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6;
    uint32_t T = sRol(a, 5) + f + e + k + w[t];
    e = d; d = c; c = sRol(b, 30); b = a; a = T;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
static void sha256Block(uint32_t *H, const uint8_t *p) {
  uint32_t w[64], v[8]; int t, i;
  for (t = 0; t < 16; t++) w[t] = sBe(p + 4 * t);
  for (; t < 64; t++) {
    uint32_t x = w[t - 2], y = w[t - 15];
    w[t] = (sRor(x, 17) ^ sRor(x, 19) ^ x >> 10) + w[t - 7] + (sRor(y, 7) ^ sRor(y, 18) ^ y >> 3) + w[t - 16];
  }
  memcpy(v, H, 32);
  for (t = 0; t < 64; t++) {
    uint32_t a = v[0], e = v[4];
    uint32_t T1 = v[7] + (sRor(e, 6) ^ sRor(e, 11) ^ sRor(e, 25)) + ((e & v[5]) ^ (~e & v[6])) + specK256[t] + w[t];
    uint32_t T2 = (sRor(a, 2) ^ sRor(a, 13) ^ sRor(a, 22)) + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
    for (i = 7; i > 0; i--) v[i] = v[i - 1];
    v[4] += T1; v[0] = T1 + T2;
  }
  for (i = 0; i < 8; i++) H[i] += v[i];
}
static void sha512Block(uint64_t *H, const uint8_t *p) {
  uint64_t w[80], v[8]; int t, i;
  for (t = 0; t < 16; t++) w[t] = (uint64_t)sBe(p + 8 * t) << 32 | sBe(p + 8 * t + 4);
  for (; t < 80; t++) {
    uint64_t x = w[t - 2], y = w[t - 15];
    w[t] = (sRor64(x, 19) ^ sRor64(x, 61) ^ x >> 6) + w[t - 7] + (sRor64(y, 1) ^ sRor64(y, 8) ^ y >> 7) + w[t - 16];
  }
  memcpy(v, H, 64);
  for (t = 0; t < 80; t++) {
    uint64_t a = v[0], e = v[4];
    uint64_t T1 = v[7] + (sRor64(e, 14) ^ sRor64(e, 18) ^ sRor64(e, 41)) + ((e & v[5]) ^ (~e & v[6])) + specK512[t] + w[t];
    uint64_t T2 = (sRor64(a, 28) ^ sRor64(a, 34) ^ sRor64(a, 39)) + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
    for (i = 7; i > 0; i--) v[i] = v[i - 1];
    v[4] += T1; v[0] = T1 + T2;
  }
  for (i = 0; i < 8; i++) H[i] += v[i];
}
static void md5Block(uint32_t *h, const uint8_t *p) {
  static const uint8_t s[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
  uint32_t x[16], a = h[0], b = h[1], c = h[2], d = h[3]; int i;
  for (i = 0; i < 16; i++) x[i] = sLe(p + 4 * i);
  for (i = 0; i < 64; i++) {
    int r = i / 16, k = r == 0 ? i : r == 1 ? (5 * i + 1) % 16 : r == 2 ? (3 * i + 5) % 16 : 7 * i % 16;
    uint32_t f = r == 0 ? (b & c) | (~b & d) : r == 1 ? (b & d) | (c & ~d) : r == 2 ? b ^ c ^ d : c ^ (b | ~d);
    uint32_t T = b + sRol(a + f + x[k] + specMd5[i], s[4 * r + i % 4]);
    a = d; d = c; c = b; b = T;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
static void md4Block(uint32_t *h, const uint8_t *p) {
  static const uint8_t s[12] = {3, 7, 11, 19, 3, 5, 9, 13, 3, 9, 11, 15}, o3[16] = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
  uint32_t x[16], a = h[0], b = h[1], c = h[2], d = h[3]; int i;
  for (i = 0; i < 16; i++) x[i] = sLe(p + 4 * i);
  for (i = 0; i < 48; i++) {
    int r = i / 16, k = r == 0 ? i : r == 1 ? (i % 4) * 4 + i / 4 % 4 : o3[i - 32];
    uint32_t f = r == 0 ? (b & c) | (~b & d) : r == 1 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
    uint32_t T = sRol(a + f + x[k] + (r == 0 ? 0 : r == 1 ? 0x5a827999 : 0x6ed9eba1), s[4 * r + i % 4]);
    a = d; d = c; c = b; b = T;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
static void has160Block(uint32_t *h, const uint8_t *p) {
  static const uint8_t s1[20] = {5, 11, 7, 15, 6, 13, 8, 14, 7, 12, 9, 11, 8, 15, 6, 12, 9, 14, 5, 13}, s2[4] = {10, 17, 25, 30};
  static const uint8_t l[80] = {18, 0, 1, 2, 3, 19, 4, 5, 6, 7, 16, 8, 9, 10, 11, 17, 12, 13, 14, 15,
    18, 3, 6, 9, 12, 19, 15, 2, 5, 8, 16, 11, 14, 1, 4, 17, 7, 10, 13, 0,
    18, 12, 5, 14, 7, 19, 0, 9, 2, 11, 16, 4, 13, 6, 15, 17, 8, 1, 10, 3,
    18, 7, 2, 13, 8, 19, 3, 14, 9, 4, 16, 15, 10, 5, 0, 17, 11, 6, 1, 12};
  static const uint8_t xs[4][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {3, 6, 9, 12, 2, 5, 8, 15, 1, 4, 11, 14, 0, 7, 10, 13},
    {5, 7, 12, 14, 0, 2, 9, 11, 4, 6, 13, 15, 1, 3, 8, 10}, {2, 7, 8, 13, 3, 4, 9, 14, 0, 5, 10, 15, 1, 6, 11, 12}};
  static const uint32_t K[4] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc};
  uint32_t x[20], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; int i, j;
  for (i = 0; i < 16; i++) x[i] = sLe(p + 4 * i);
  for (i = 0; i < 80; i++) {
    int r = i / 20; uint32_t f, T;
    if (i % 20 == 0) for (j = 0; j < 4; j++) x[16 + j] = x[xs[r][4 * j]] ^ x[xs[r][4 * j + 1]] ^ x[xs[r][4 * j + 2]] ^ x[xs[r][4 * j + 3]];
    f = r == 0 ? (b & c) | (~b & d) : r == 2 ? c ^ (b | ~d) : b ^ c ^ d;
    T = sRol(a, s1[i % 20]) + f + e + K[r] + x[l[i]];
    e = d; d = c; c = sRol(b, s2[r]); b = a; a = T;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
static void md2Block(uint8_t *st, uint8_t *ck, const uint8_t *p) {
  uint8_t x[48], l = ck[15]; unsigned t = 0; int j, k;
  for (j = 0; j < 16; j++) { ck[j] ^= specMd2[p[j] ^ l]; l = ck[j]; }
  for (j = 0; j < 16; j++) { x[j] = st[j]; x[16 + j] = p[j]; x[32 + j] = x[16 + j] ^ x[j]; }
  for (j = 0; j < 18; j++) { for (k = 0; k < 48; k++) { x[k] ^= specMd2[t]; t = x[k]; } t = (t + j) % 256; }
  memcpy(st, x, 16);
}
#endif
