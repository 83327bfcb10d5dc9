#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

KAT = "The existing tests run a handful of known-answer vectors plus random round trips; "
prop("C01", "AES block encryption and decryption are exactly FIPS-197",
 "For every 128-, 192- and 256-bit key and every 16-byte block, AES encryption of the block (ECB, one block) yields exactly the FIPS-197 ciphertext and AES decryption yields exactly the FIPS-197 inverse. This holds for the portable C implementation (with the large or the minimal lookup tables) and for the x86 AES-instruction implementation chosen at run time, so both give the same bytes for the same key and data.",
 ["inputs", "configurations"], "all keys of each size x all 16-byte blocks x {portable, portable with RACRYPT_AES_MIN_TABLE, x86 AES instructions} x {encrypt, decrypt}",
 KAT + "a wrong table entry or key-schedule byte is only reached by some of the 2^384 inputs, and on a CPU with AES instructions the portable code and its tables never run at all.",
 ["src/cipher/aes.c", "src/cipher/aes_x86.c", "src/include/racrypt_cipher.h"],
 [("key expansion and lookup tables", "src/cipher/aes.c RaAesInit"), ("AES-NI inline assembly", "src/cipher/aes_x86.c")],
 ["RaAesInit + RaAesEncrypt/RaAesDecrypt in ECB mode"])
prop("C02", "DES and Triple-DES blocks are exactly FIPS 46-3",
 "For every 8-byte key (single DES), 16-byte key (two-key EDE) and 24-byte key (three-key EDE) and every 8-byte block, DES encryption in ECB mode yields exactly the FIPS 46-3 ciphertext and decryption exactly its inverse. Key parity bits have no effect on the result.",
 ["inputs"], "all keys of each type x all 8-byte blocks x {encrypt, decrypt}",
 KAT + "bit-permutation and S-box-entry mistakes only show for the keys and blocks that hit them.",
 ["src/cipher/des.c", "src/include/racrypt_cipher.h"],
 [("key schedule and combined S-box/permutation tables", "src/cipher/des.c RaDesInit")],
 ["RaDesInit + RaDesEncrypt/RaDesDecrypt in ECB mode"])
prop("C03", "SEED blocks are exactly RFC 4269",
 "For every 16-byte key and every 16-byte block, SEED encryption in ECB mode yields exactly the RFC 4269 (KISA SEED-128) ciphertext and decryption exactly its inverse.",
 ["inputs"], "all 16-byte keys x all 16-byte blocks x {encrypt, decrypt}",
 KAT + "four 256-entry tables and a 16-round key schedule cannot be covered by them.",
 ["src/cipher/seed.c"], [("G-function tables, key schedule, round order", "src/cipher/seed.c RaSeedInit")],
 ["RaSeedInit + RaSeedEncrypt/RaSeedDecrypt in ECB mode"])
prop("C04", "ARIA blocks are exactly RFC 5794",
 "For every 128-, 192- and 256-bit key and every 16-byte block, ARIA encryption in ECB mode yields exactly the RFC 5794 ciphertext and decryption exactly its inverse.",
 ["inputs"], "all keys of each size x all 16-byte blocks x {encrypt, decrypt}",
 KAT + "the key-size dependent rounds and round keys and the four S-box tables are reached by few of them.",
 ["src/cipher/aria.c"], [("diffusion macros, key expansion and reversed keys", "src/cipher/aria.c RaAriaInit")],
 ["RaAriaInit + RaAriaEncrypt/RaAriaDecrypt in ECB mode"])
prop("C05", "Blowfish blocks are exactly the published Blowfish",
 "For every key of 1 to 56 bytes and every 8-byte block, Blowfish encryption in ECB mode yields exactly Schneier's published algorithm's ciphertext (initial P-array and S-boxes from the digits of pi, key bytes used cyclically) and decryption exactly its inverse.",
 ["inputs"], "key lengths 1..56, all key bytes x all 8-byte blocks x {encrypt, decrypt}",
 KAT + "only a few key lengths are used, and the cyclic key use depends on the length.",
 ["src/cipher/blowfish.c"], [("key schedule and Feistel rounds", "src/cipher/blowfish.c RaBlowfishInit")],
 ["RaBlowfishInit + RaBlowfishEncrypt/RaBlowfishDecrypt in ECB mode"])
prop("C06", "RC4 produces the exact RC4 keystream however calls are split",
 "For every key of 1 to 256 bytes, RC4 encryption and decryption XOR the data with exactly the RC4 keystream. The output does not depend on how the data is split over successive calls, in-place operation gives the same bytes, and each call returns the number of bytes it was given.",
 ["inputs", "histories"], "all keys (lengths 1..256), all data, all splits of the stream into calls",
 KAT + "they fix key length and call sizes.",
 ["src/cipher/rc4.c"], [("key scheduling and stream position kept in the context", "src/cipher/rc4.c")],
 ["RaRc4Init, RaRc4Encrypt, RaRc4Decrypt"])
prop("C07", "ECB/CBC/CFB/OFB streaming equals the mode's definition for any call split",
 "For every block cipher of the library, every mode (ECB, CBC, full-block CFB, OFB) and every way of splitting the data over encrypt or decrypt calls, the concatenated output is exactly the mode's definition applied to the complete blocks of the concatenated input, starting from the IV last set. Each call returns exactly the number of bytes it wrote (the blocks completed so far minus those already returned), writes nothing beyond them and leaves the input untouched. The IV set is used from the next block on, setting it discards a pending partial block, and reading it back returns the chaining value.",
 ["inputs", "histories", "configurations"], "all modes x block sizes 8 and 16 x all data, IVs x all splits into calls",
 "The tests feed whole buffers or one fixed split; interactions of buffered partial blocks, chaining state and mode exist for every split.",
 ["src/cipher/block_cipher.c", "src/cipher/block_cipher.h", "src/include/racrypt_cipher.h"],
 [("partial-block buffer", "src/cipher/block_cipher.c RaBlockCipherEncrypt/Decrypt"), ("chaining per mode", "src/cipher/block_cipher.c")],
 ["RaXxxEncrypt/Decrypt return values and output bytes", "RaXxxGetIV"],
 [("bufferFilled", "bytes of an incomplete block", "struct RaBlockCipher"), ("iv", "chaining value", "struct RaBlockCipher")])
prop("C08", "Final calls pad and unpad exactly, and decrypt-final inverts encrypt-final",
 "For every mode, message and split, the final encrypt call appends exactly the padding asked for (PKCS#7: always 1 to blocksize bytes each equal to the pad count; ZERO: zero bytes only when the last block is incomplete; NONE: an incomplete last block is dropped), returns the bytes it wrote and writes no others. Decrypting that ciphertext with one final PKCS#7 call returns exactly the message and its length, and with other padding types returns the padded plaintext. When the recovered PKCS#7 padding is malformed nothing is stripped, no byte outside the recovered data is read, and the returned length is between 0 and the input length; after a final call the context holds no pending data.",
 ["inputs", "histories"], "all modes, paddings, messages, splits, and arbitrary (also corrupted) ciphertexts",
 "Tests use a few lengths and only well-formed padding.",
 ["src/cipher/block_cipher.c"], [("padding and unpadding", "src/cipher/block_cipher.c RaBlockCipherEncryptFinal/DecryptFinal")],
 ["RaXxxEncryptFinal/DecryptFinal return values and output bytes"])
DG = "Tests hash short fixed strings and a few long ones; "
prop("C09", "SHA-1 and HAS-160 digests are exactly the standard's for every message",
 "For every message, the SHA-1 digest equals FIPS 180-4 and the HAS-160 digest equals TTAS.KO-12.0011: compression of every block from every chaining state, and the padding and 64-bit length encoding for every message length. The SHA-1 result is the same from the portable C code (unrolled or looped) and from the x86 SHA-instruction code chosen at run time.",
 ["inputs", "configurations"], "all 64-byte blocks x all chaining states; all residual lengths 0..63 with every 61-bit byte count; portable/unrolled/SHA instructions",
 DG + "they cannot cover 2^512 blocks, lengths past 2^29 or 2^32 bytes, or the code path not selected on the test machine.",
 ["src/digest/sha1.c", "src/digest/sha1_x86.c", "src/digest/has160.c"],
 [("compression function", "src/digest/sha1.c, src/digest/has160.c"), ("SHA-NI inline assembly", "src/digest/sha1_x86.c"), ("padding", "RaSha1Final, RaHas160Final")],
 ["RaSha1Update/Final/RaSha1", "RaHas160Update/Final/RaHas160"])
prop("C10", "SHA-2 family digests are exactly FIPS 180-4 for every message",
 "For every message, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 and SHA-512/256 digests equal FIPS 180-4: initial values, compression of every block from every chaining state, padding and length encoding for every length, and truncation to exactly the digest length with no byte written past it. SHA-224/256 results are the same from the portable C code (unrolled or looped) and from the x86 SHA-instruction code.",
 ["inputs", "configurations"], "all blocks x all chaining states; all residual lengths with every byte count below 2^61 (SHA-224/256) or the 96-bit counter range of SHA-384/512; portable/unrolled/SHA instructions",
 DG + "they cannot cover 2^1024 blocks, very long messages, or the code path not selected on the test machine.",
 ["src/digest/sha2.c", "src/digest/sha2_x86.c"],
 [("compression functions", "src/digest/sha2.c"), ("SHA-NI inline assembly", "src/digest/sha2_x86.c"), ("padding and truncation", "RaSha2Final")],
 ["RaSha2Init/Update/Final", "RaSha256*", "RaSha512*"])
prop("C11", "MD2, MD4 and MD5 digests are exactly RFC 1319/1320/1321 for every message",
 "For every message, MD2, MD4 and MD5 digests equal RFC 1319 (with its checksum erratum), RFC 1320 and RFC 1321: compression of every block from every state, and padding and length encoding for every message length.",
 ["inputs", "configurations"], "all blocks x all states; all residual lengths with every 61-bit byte count; unrolled and looped builds",
 DG + "they cannot cover all blocks, states and lengths.",
 ["src/digest/md2.c", "src/digest/md4.c", "src/digest/md5.c"],
 [("compression functions and padding", "src/digest/md2.c, md4.c, md5.c")],
 ["RaMd2*/RaMd4*/RaMd5*"])
prop("C12", "Digest result is independent of how the message is split over update calls",
 "For every digest algorithm, feeding a message in any number of update calls of any sizes (including zero-length calls) gives the same digest as one call, and the same as the one-shot function where there is one; update reads only the bytes it was given and final writes exactly the digest length. The message length counted is exact for every history, including past 2^29 and 2^32 bytes.",
 ["inputs", "histories"], "all digests x all messages x all call histories: one arbitrary update from an arbitrary valid mid-stream state (inductive) and complete short histories",
 "Tests split a message in one or two fixed ways; carries of the length counter happen only after 512 MB or 4 GB.",
 ["src/digest/md2.c", "src/digest/md4.c", "src/digest/md5.c", "src/digest/sha1.c", "src/digest/sha2.c", "src/digest/has160.c"],
 [("buffering of a partial block and the length counter", "RaXxxUpdate of each digest")],
 ["RaXxxUpdate/RaXxxFinal", "one-shot functions"],
 [("totalLen_*", "bytes hashed so far", "struct RaXxxCtx"), ("buffer", "partial block", "struct RaXxxCtx")])
BNT = "The test program has no big-number arithmetic tests of its own in the stable set beyond RSA-sized round trips; "
BN = "src/com/bignumber.c"
prop("C13", "Big-number add, subtract, negate and compare are exact on signed integers",
 "For all signed big numbers, addition, subtraction, the in-place unsigned add and subtract, the add/subtract/compare variants taking a machine word or signed machine integer, negation and comparison return exactly the mathematical result with the correct sign (the sign flag of zero carries no meaning: zero equals zero and behaves as zero whatever its flag), also when the result is zero and when the result operand is one of the inputs. Results are normalised (no leading zero word) whatever carries or borrows occur, and no memory outside the operands is read or written.",
 ["inputs", "configurations"], "all pairs of signed big numbers up to 3 words (thorough 4), 64- and 32-bit words, all machine-word operands, destinations with room for the result",
 BNT + "carry chains and sign combinations are rare among random operands.",
 [BN, "src/include/racrypt_bn.h"], [("carry/borrow propagation, sign logic", BN)],
 ["BnAdd, BnSub, BnCmp, _BnAddR, _BnSubR, BnAddInt/UInt, BnSubInt/UInt, BnCmpInt/UInt, _BnInvert"])
prop("C14", "Big-number multiply, square and double are exact",
 "For all signed big numbers, multiplication, squaring, doubling (also in place), and multiplication by a machine word or signed machine integer return exactly the mathematical result with the correct sign, normalised, and touch no memory outside the operands.",
 ["inputs", "configurations"], "32-bit words: all pairs up to 2x2 words; 64-bit words: all pairs up to 1x2 words; up to 3x2 words (squares 3 words) with all but one word (squares: all but a byte or bit) taken from edge patterns; every machine-word multiplier of numbers up to 2 words",
 BNT + "internal double carries occur with probability about 2^-64 on random operands.",
 [BN], [("schoolbook multiplication with carry handling", BN + " BnMul/BnSqr/BnMulUInt/BnMulInt")],
 ["BnMul, BnSqr, BnDouble, BnMulUInt, BnMulInt"])
prop("C15", "Big-number division and modulo satisfy a = q*b + r with the remainder in range",
 "For every dividend and every nonzero divisor, division returns q and r with a = q*b + r, |r| < |b| and floor rounding (r is zero or has the divisor's sign); modulo returns the remainder of smallest magnitude-below-|b| with the dividend's sign; division and modulo by a machine word return the exact quotient magnitude and remainder magnitude. Results are normalised, and no memory outside operands and internal temporaries is read or written, even when the result has room for only as many words as the divisor.",
 ["inputs", "configurations"], "all 2-word signed dividends by every word; all dividends and divisors up to 2 words whose divisor has its top bit set (and some with leading zeros); 3-word dividends by 2-word divisors with all but one word from edge patterns; 64- and 32-bit words",
 BNT + "the quotient-estimate correction steps are taken only for rare operands (top words equal, all-ones words).",
 [BN], [("quotient-word estimation and correction", BN + " BnDiv/BnMod"), ("word division", BN + " BnDivUInt/BnDivInt/BnModUInt")],
 ["BnDiv, BnMod, BnDivUInt, BnDivInt, BnModUInt"])
prop("C16", "Big-number shifts and bit length are exact",
 "For every big number and every shift distance that fits the destination (zero counting as one bit long), shifting left multiplies by the power of two and shifting right divides the magnitude by it rounding toward zero; the bit-length query returns the position of the highest set bit plus one. Results are normalised (zero is one zero word), and no memory outside the number is read or written, including shifts by multiples of the word size, past the whole number, of zero, and filling the number's capacity exactly.",
 ["inputs", "configurations"], "left: all signed values up to 2 words (thorough 3), distances 0..2 words; right: values of 1 and 3 words, distances 0..3 words plus 2 bits; capacities exact and one spare word; 64- and 32-bit words",
 BNT + "word-multiple and capacity-filling distances are edge cases no test picks.",
 [BN], [("word/bit split of the shift", BN + " BnShiftL/BnShiftR"), ("most-significant-bit lookup", BN + " BnGetBitLength")],
 ["BnShiftL, BnShiftR, BnGetBitLength"])
prop("C17", "Byte-array and integer conversions of big numbers are exact and round-trip",
 "For every byte string, reading it as signed (two's complement, big endian) or unsigned gives exactly that integer, and writing any big number gives its shortest signed two's-complement encoding (or, fixed-length, the zero-padded unsigned one), so that read(write(n)) = n and write(read(s)) is the minimal encoding of s. Setting from and reading to machine integers is exact including the most negative values. Writers with no buffer return the exact size needed, and with a too-small buffer return 0 and write nothing outside it; readers given too small a number return an error and stay inside it.",
 ["inputs", "configurations"], "all byte strings of 1..20 bytes, all values up to 3 words, all buffer lengths 0..needed+2, all machine integers; 64- and 32-bit words",
 BNT + "sign-byte, leading zero/ff and word-boundary combinations are combinatorial.",
 [BN], [("sign extension and word packing", BN + " BnSetByteArray/BnToByteArray")],
 ["BnSetByteArray, BnSetUByteArray, BnToByteArray, BnToFixedByteArray, BnSetInt*, BnSetUInt*, _BnGetUInt*"])
prop("C18", "GCD and extended GCD are correct",
 "For all positive inputs, the GCD result is the greatest common divisor, and the extended variant also returns coefficients a and b with a*m + b*n equal to the greatest common divisor; asked for unsigned coefficients it returns the coefficient that is the non-negative modular inverse when the inputs are coprime.",
 ["inputs"], "all pairs of positive integers up to a bit bound, plus multi-word operands with symbolic low bits",
 BNT + "the number and pattern of Euclid steps varies with the input.",
 ["src/com/gcd.c"], [("Euclid iteration with sign tracking", "src/com/gcd.c GetGCD/GetGCDEx")], ["GetGCD, GetGCDEx"])
prop("C19", "Montgomery exponentiation returns a^b mod N",
 "For every odd modulus N > 1, every base a and every exponent b >= 0, the modular exponentiation returns exactly a^b mod N, in 0..N-1 for a non-negative base, whether or not a is already reduced. A context can be reused for any sequence of exponentiations with the same results.",
 ["inputs", "histories"], "representative odd moduli (1 to 3 words, incl. edge patterns) with all bases; exponents covering every window shape; small moduli with all bases, exponents and moduli symbolic",
 BNT + "final subtractions and carries in the reduction are rare events.",
 ["src/com/montexpmod.c"], [("Montgomery multiply/reduce and windowed exponent scan", "src/com/montexpmod.c")], ["RaMontCreate, RaMontExpMod"])
prop("C20", "DER parser is memory-safe, terminates and reports the exact element structure",
 "For every byte string, creating a DER parse context never reads outside the given bytes, never recurses or loops without bound, and either fails cleanly without leaking memory or yields a tree in which every element's content lies inside its parent and inside the data. For every well-formed DER nesting (one-byte tags, definite lengths) of up to the supported depth, the tree lists exactly the elements present, in order, with their tags, content offsets and lengths.",
 ["inputs"], "all byte strings up to a length bound; well-formed encodings with symbolic lengths (short and long form), tags and shapes",
 "Tests parse only the keys the library itself produced.",
 ["src/pk/asn1.c", "src/pk/asn1.h"], [("length decoding and nesting stack", "src/pk/asn1.c")], ["RaAsn1CreateContext, RaAsn1GetRoot, RaAsn1DestroyContext"])
prop("C21", "RSA key export and import are inverse and emit valid DER",
 "For every key, exporting the private or public key gives the standard PKCS#1/X.509 DER structure with each integer in minimal encoding, importing that DER gives back a key with the same modulus and exponents (and private parts), and re-exporting gives the same bytes. The size reported without a buffer equals the size written, and a buffer too small gives an error without writing outside it.",
 ["inputs"], "all modulus, exponent and private-part values up to a few words with symbolic lengths; all buffer sizes",
 "Tests export and import one generated key per run.",
 ["src/pk/rsa.c", "src/pk/asn1.c"], [("DER writer with two passes", "src/pk/rsa.c RaRsaPrivKeyToByteArray/RaRsaPubKeyToByteArray"), ("DER reader", "src/pk/rsa.c RaRsaCreateKey*")],
 ["RaRsaPrivKeyToByteArray, RaRsaPubKeyToByteArray, RaRsaCreateKeyFromByteArray/Pub/Priv"])
prop("C22", "RSA key import never crashes or over-reads on arbitrary bytes",
 "For every byte string handed to any of the three key-import functions, the call returns success or an error code without aborting, reading outside the given bytes, or leaking memory; on error no key is returned, and on success the key can be queried and destroyed.",
 ["inputs"], "mutations of valid key encodings with symbolic tags, lengths and contents, truncated at every point, and all short byte strings",
 "Tests import only well-formed keys.",
 ["src/pk/rsa.c", "src/pk/asn1.c"], [("structure and OID checks", "src/pk/rsa.c")], ["RaRsaCreateKeyFromByteArray, RaRsaCreateKeyPub, RaRsaCreateKeyPriv"])
prop("C23", "RSA operations are exact inverses and verify accepts exactly the matches",
 "For every RSA key and every message in 0..n-1, encrypt computes m^e mod n, decrypt and sign compute m^d mod n (the same with or without CRT parts), decrypt(encrypt(m)) = m, and verify returns success for a signature s and message m exactly when s^e mod n = m. Out-of-range messages and missing key parts give an error rather than a wrong result or a crash.",
 ["inputs"], "small complete key sets with all messages symbolic; verification with arbitrary signature and message values",
 "Tests use one random key and message per size.",
 ["src/pk/rsa.c", "src/com/montexpmod.c"], [("private/public operations", "src/pk/rsa.c RaRsaEncrypt/Decrypt/Sign/Verify")], ["RaRsaEncrypt, RaRsaDecrypt, RaRsaSign, RaRsaVerify"])
prop("C24", "Random generator output depends only on seed and bytes drawn, and stays in range",
 "For every seed and algorithm, the random generator's byte stream is a function of the seed alone: two generators with the same seed give the same stream, and the stream does not depend on how it is split over calls; exactly the requested bytes are written. Bounded integers lie within the requested inclusive range and reals lie strictly between 0 and 1.",
 ["inputs", "histories"], "all seeds up to a length bound, all call splits up to a total, all generator states for ranged draws",
 "Tests never check the generator against itself or its ranges at the extremes.",
 ["src/com/random.c", "src/include/racrypt_random.h"], [("digest-based buffer refill and offset", "src/com/random.c")], ["RaRandomCreate, RaRandomBytes, RaRandom, RaRandomInt"])
prop("C25", "Allocation failure at any point gives an error, no crash and no leak",
 "For every fallible creating or computing call of the library (contexts, big numbers, division, GCD, exponentiation, DER parsing, key import/export, RSA operations, random, primality), if any one or more memory allocations inside it fail, the call returns an out-of-memory or other error, or a null pointer, does not crash, leaks nothing, and leaves its arguments destroyable.",
 ["fault_sequences"], "every subset of allocation points failing (each allocation's outcome symbolic) in one call of each operation",
 "No test makes an allocation fail.",
 ["src/com/bignumber.c", "src/com/gcd.c", "src/com/montexpmod.c", "src/com/prime.c", "src/com/random.c", "src/pk/asn1.c", "src/pk/rsa.c", "src/cipher/aes.c", "src/digest/sha2.c"],
 [("null checks and cleanup labels", "each allocating function")], ["return codes, process abort, live allocations"])
prop("C26", "Destroying a context erases its key material before freeing the memory",
 "For every cipher, digest, random, big-number clear-free and RSA-key destroy function, every byte of secret state the object held (keys, schedules, chaining values, buffered data, private key parts) is zero at the moment its memory is released; destroying a null pointer is harmless where the other contexts allow it.",
 ["inputs", "histories"], "all context contents after arbitrary use",
 "Tests cannot observe memory after it is freed.",
 ["src/cipher/aes.c", "src/cipher/des.c", "src/cipher/seed.c", "src/cipher/aria.c", "src/cipher/blowfish.c", "src/cipher/rc4.c", "src/digest/sha1.c", "src/digest/sha2.c", "src/com/random.c", "src/com/bignumber.c", "src/pk/rsa.c"],
 [("memset before free", "RaXxxDestroy, BnClearFree")], ["memory contents at free()"])
prop("C27", "Random big numbers have the asked size; primality test exact on small n",
 "Random big numbers of a requested bit size are non-negative and below 2^bits for every generator output (odd variant: odd; RSA variant: odd with the top bit set), and a generated prime has exactly the requested size. The primality test accepts every prime and rejects every composite among small integers, for every random witness choice, and always terminates.",
 ["inputs"], "all bit sizes 1..130 with arbitrary generator bytes; all n below a bound with arbitrary witnesses",
 "Tests draw a few sizes and trust the outcome.",
 ["src/com/bignumber.c", "src/com/prime.c"], [("masking of the top word", "src/com/bignumber.c BnGenRandom"), ("trial division and Miller-Rabin", "src/com/prime.c")],
 ["BnGenRandom, BnGetRandomOdd, BnGetRandomRSA, RaIsPrimeNumber, RaGenPrimeNumberEx"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
