/* ARIA, one block, arbitrary key and block: -DKB=16|24|32 */
#include "racrypt.h"
#include "spec_aria.h"
void harness(void) {
  uint8_t key[KB], in[16], out[16], ref[16], ek[17][16], dk[17][16]; struct RaAriaCtx ctx; int n, nr;
  rsx_sym(key, KB, "key"); rsx_sym(in, 16, "block");
  ariaTables(); nr = ariaKeys(key, KB, ek); ariaDecKeys(ek, nr, dk);
  RaAriaInit(&ctx, key, KB == 16 ? RA_ARIA_128 : KB == 24 ? RA_ARIA_192 : RA_ARIA_256, RA_BLOCK_MODE_ECB);
  n = RaAriaEncrypt(&ctx, in, 16, out); rsx_assert(n == 16, "encrypt returns 16");
  ariaCrypt(ek, nr, in, ref);
  rsx_observe(out, 16, "ct"); rsx_eq(out, ref, 16, "ARIA ciphertext equals RFC 5794");
  n = RaAriaDecrypt(&ctx, in, 16, out); rsx_assert(n == 16, "decrypt returns 16");
  ariaCrypt(dk, nr, in, ref);
  rsx_observe(out, 16, "pt"); rsx_eq(out, ref, 16, "ARIA plaintext equals the RFC 5794 inverse");
}
