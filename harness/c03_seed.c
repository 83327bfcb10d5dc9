/* SEED, one block, arbitrary key and block */
#include "racrypt.h"
#include "spec_seed.h"
void harness(void) {
  uint8_t key[16], in[16], out[16], ref[16]; uint32_t k[16][2]; struct RaSeedCtx ctx; int n;
  rsx_sym(key, 16, "key"); rsx_sym(in, 16, "block");
  RaSeedInit(&ctx, key, RA_BLOCK_MODE_ECB); seedKeys(key, k);
  n = RaSeedEncrypt(&ctx, in, 16, out); rsx_assert(n == 16, "encrypt returns 16");
  seedBlock(k, 0, in, ref);
  rsx_observe(out, 16, "ct"); rsx_eq(out, ref, 16, "SEED ciphertext equals RFC 4269");
  n = RaSeedDecrypt(&ctx, in, 16, out); rsx_assert(n == 16, "decrypt returns 16");
  seedBlock(k, 1, in, ref);
  rsx_observe(out, 16, "pt"); rsx_eq(out, ref, 16, "SEED plaintext equals the RFC 4269 inverse");
}
