/* Blowfish. MODE 0: key schedule + one block for a key of LEN bytes, all bytes symbolic.
   MODE 1: one block with an arbitrary schedule (P and S boxes symbolic). */
#include "racrypt.h"
#include "spec_bf.h"
void harness(void) {
  uint8_t key[64], in[8], out[8], ref[8]; static struct RaBlowfishCtx ctx; int n, len = LEN;
  rsx_sym(key, LEN, "key"); rsx_sym(in, 8, "block");
  bfKey(key, len);
  RaBlowfishInit(&ctx, key, len, RA_BLOCK_MODE_ECB);
  n = RaBlowfishEncrypt(&ctx, in, 8, out); rsx_assert(n == 8, "encrypt returns 8");
  bfBlock(0, in, ref);
  rsx_observe(out, 8, "ct"); rsx_eq(out, ref, 8, "Blowfish ciphertext equals the published algorithm");
  n = RaBlowfishDecrypt(&ctx, in, 8, out); rsx_assert(n == 8, "decrypt returns 8");
  bfBlock(1, in, ref);
  rsx_observe(out, 8, "pt"); rsx_eq(out, ref, 8, "Blowfish plaintext equals the published inverse");
}
