/* AES, one block, arbitrary key and block: -DKB=16|24|32 */
#include "racrypt.h"
#include "rsx.h"
#include "spec_aes.h"
void harness(void) {
  uint8_t key[KB], in[16], out[16], ref[16], dec[16], w[15 * 16]; struct RaAesCtx ctx; int n, nr;
  rsx_sym(key, KB, "key"); rsx_sym(in, 16, "block");
  aesTables(); nr = aesExpand(key, KB / 4, w);
  RaAesInit(&ctx, key, KB == 16 ? RA_AES_128 : KB == 24 ? RA_AES_192 : RA_AES_256, RA_BLOCK_MODE_ECB);
  n = RaAesEncrypt(&ctx, in, 16, out);
  rsx_assert(n == 16, "encrypt returns 16");
  aesEnc(w, nr, in, ref);
  rsx_observe(out, 16, "ct");
  rsx_eq(out, ref, 16, "AES ciphertext equals FIPS-197");
  n = RaAesDecrypt(&ctx, in, 16, dec);
  rsx_assert(n == 16, "decrypt returns 16");
  aesDec(w, nr, in, ref);
  rsx_observe(dec, 16, "pt");
  rsx_eq(dec, ref, 16, "AES plaintext equals the FIPS-197 inverse cipher");
}
