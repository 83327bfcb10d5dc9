/* DES / Triple-DES, one block, arbitrary key and block: -DKB=8|16|24 */
#include "racrypt.h"
#include "spec_des.h"
void harness(void) {
  uint8_t key[KB], in[8], out[8], ref[8]; struct RaDesCtx ctx; int n;
  rsx_sym(key, KB, "key"); rsx_sym(in, 8, "block");
  RaDesInit(&ctx, key, KB == 8 ? RA_DES : KB == 16 ? RA_DES_EDE2 : RA_DES_EDE3, RA_BLOCK_MODE_ECB);
  n = RaDesEncrypt(&ctx, in, 8, out); rsx_assert(n == 8, "encrypt returns 8");
  desBlock(key, KB, 0, in, ref);
  rsx_observe(out, 8, "ct"); rsx_eq(out, ref, 8, "DES ciphertext equals FIPS 46-3");
  n = RaDesDecrypt(&ctx, in, 8, out); rsx_assert(n == 8, "decrypt returns 8");
  desBlock(key, KB, 1, in, ref);
  rsx_observe(out, 8, "pt"); rsx_eq(out, ref, 8, "DES plaintext equals the FIPS 46-3 inverse");
}
