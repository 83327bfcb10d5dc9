"""The jobs of every property: which harness, in which build configuration, with which bounds."""
NOT_APPLICABLE = {}
JOBS = {}; ASSUME = {"all": [
  "clang 18 lowers the C sources to LLVM IR faithfully (-O1 without passes, then sroa, simplifycfg, early-cse)",
  "the symbolic executor, its term simplifier and z3 4.8 are correct; sampled paths and every counterexample are replayed natively",
]}; LEVEL_NOTE = {}
def job(prop, name, harness, **k): JOBS.setdefault(prop, []).append(dict(name=name, harness=harness, **k))
B = "all keys and all blocks of the stated size; one block (chaining is C07)"
for kb in (16, 24, 32):
    for c in ("port", "asm", "aesmin"):
        job("C01", "aes%d-%s" % (kb * 8, c), "c01_aes.c", cfg=c, defs=["KB=%d" % kb], bounds=B, time=400)
for kb in (8, 16, 24):
    job("C02", "des%d" % kb, "c02_des.c", defs=["KB=%d" % kb], bounds=B, known={"id": "des-sbox1-63", "defs": ["DES_S1_63=0"]})
job("C03", "seed", "c03_seed.c", bounds=B)
for kb in (16, 24, 32): job("C04", "aria%d" % (kb * 8), "c04_aria.c", defs=["KB=%d" % kb], bounds=B)
for n in (1, 5, 16, 56): job("C05", "blowfish-key%d" % n, "c05_bf.c", defs=["LEN=%d" % n], bounds=B, time=800)
for n in (2, 3, 4, 7, 8, 13, 24, 32, 41, 55): job("C05", "blowfish-key%d" % n, "c05_bf.c", defs=["LEN=%d" % n], bounds=B, time=1200, tier="thorough")
for n in (1, 5, 16, 256): job("C06", "rc4-key%d" % n, "c06_rc4.c", defs=["LEN=%d" % n, "NBYTES=12"], bounds="all keys of the stated length, 12 data bytes in every split into three calls, in place and not", time=300)
for n in (2, 3, 7, 13, 32, 100, 255, 257): job("C06", "rc4-key%d" % n, "c06_rc4.c", defs=["LEN=%d" % n, "NBYTES=24"], bounds="all keys of the stated length, 24 data bytes in every split into three calls", time=900, tier="thorough")
for x in (0, 100, 253): job("C06", "rc4-step-x%d" % x, "c06_rc4_step.c", defs=["NBYTES=16", "XLO=%d" % x, "XHI=%d" % (x + 2)], bounds="every generator state with x in the stated range, 16 steps, every split into two calls", time=300)

# ---- digests ----
DG = {"C09": [("SHA1", ["port", "asm", "noroll"]), ("HAS160", ["port", "noroll"])],
      "C10": [("SHA256", ["port", "asm", "noroll"]), ("SHA224", ["port", "asm"]), ("SHA512", ["port", "noroll"]), ("SHA384", ["port"]), ("SHA512_256", ["port"]), ("SHA512_224", ["port"])],
      "C11": [("MD5", ["port", "noroll"]), ("MD4", ["port", "noroll"]), ("MD2", ["port", "noroll"])]}
def dblock(a): return 16 if a == "MD2" else 128 if a in ("SHA512", "SHA384", "SHA512_256", "SHA512_224") else 64
STEP = "arbitrary chaining value, byte counter and pending bytes; %s pending bytes, then %s further bytes and the final block(s)"
MSG = "all messages of %d..%d bytes"
for p, algs in DG.items():
    for a, cfgs in algs:
        b = dblock(a); f = b - (16 if b == 128 else 8)
        for c in cfgs:
            n = "%s-%s" % (a.lower().replace("_", "-"), c)
            def step(nm, r1, r2, n1, n2, **k): job(p, n + "-" + nm, "c09_step.c", cfg=c, defs=[a, "RLO=%d" % r1, "RHI=%d" % r2, "NLO=%d" % n1, "NHI=%d" % n2], bounds=STEP % ("%d..%d" % (r1, r2), "%d..%d" % (n1, n2)), **{"time": 400, **k})
            def msg(lo, hi, **k): job(p, n + "-msg%d-%d" % (lo, hi), "c09_msg.c", cfg=c, defs=[a, "LO=%d" % lo, "HI=%d" % hi], bounds=MSG % (lo, hi), **{"time": 400, **k})
            if a == "MD2": step("step", 0, 15, 0, 2); msg(0, 3); msg(15, 17)
            elif c == "port" or a == "SHA1":
                step("first", 0, 1, 0, 0); step("edge", f - 1, f, 0, 0); step("last", b - 1, b - 1, 0, 1); msg(0, 3); msg(f - 1, f); msg(b - 1, b)
            else: step("last", b - 1, b - 1, 1, 1); msg(3, 3)
            # thorough: every residue, every message length up to two blocks
            for r in range(0, b, 8): step("all%d" % r, r, r + 7, 0, 2, tier="thorough", time=1500)
            for lo in range(0, 2 * b, 8 if b > 16 else 16): msg(lo, lo + (7 if b > 16 else 15), tier="thorough", time=1500)
for a, c in [("SHA1", "port"), ("HAS160", "port"), ("MD5", "port"), ("MD4", "port"), ("MD2", "port"), ("SHA256", "port"), ("SHA224", "port"), ("SHA512", "port"), ("SHA384", "port"), ("SHA512_256", "port"), ("SHA512_224", "port"), ("SHA1", "asm"), ("SHA256", "asm")]:
    b = dblock(a); nm = "%s-%s" % (a.lower().replace("_", "-"), c)
    def chunk(tag, r1, r2, n1, n2, split=False, **k): job("C12", nm + "-" + tag, "c12_chunk.c", cfg=c, defs=[a, "RLO=%d" % r1, "RHI=%d" % r2, "NLO=%d" % n1, "NHI=%d" % n2] + (["SPLIT"] if split else []),
        bounds="arbitrary chaining value, counter and %d..%d pending bytes; %d..%d bytes, %s against one call" % (r1, r2, n1, n2, "every division into two calls" if split else "byte by byte"), **{"time": 400, **k})
    chunk("zero", 0, 0, b, b + 1); chunk("three", 3, 3, 2 * b - 4, 2 * b - 2); chunk("last", b - 1, b - 1, 0, 2); chunk("split", b - 3, b - 3, b + 4, b + 4, True, time=600) if b < 128 or a == "SHA512" else None
    for r in range(0, b, 16): chunk("all%d" % r, r, r + 15, 1, 2 * b + 1 if b == 16 else b + 1, tier="thorough", time=1500)
    chunk("two", 5, 5, 2 * b - 6, 3 * b - 4, tier="thorough", time=1500)

# ---- modes and padding ----
for a in ("AES", "ARIA", "SEED", "DES", "BF"):
    b = 8 if a in ("DES", "BF") else 16
    job("C07", a.lower() + "-any-block", "c07_modes.c", defs=[a, "TOY"] + (["FULL"] if a in ("SEED", "DES") else []), bounds="%s context with the block function replaced by an arbitrary-parameter bijection: every mode, both directions, first part %s bytes, second part %s bytes, then completion, SetIV with a pending byte, one block; all data and IVs" % (a, "0..%d" % (b - 1) if a in ("SEED", "DES") else "0, 1, %d" % (b - 1), "0..%d" % (2 * b + 1) if a in ("SEED", "DES") else "1..%d (5 values)" % (2 * b)), time=400)
    for c in ("port", "asm") if a == "AES" else ("port",):
        job("C07", "%s-%s" % (a.lower(), c), "c07_modes.c", cfg=c, defs=[a], bounds="real %s block function (%s), every mode and direction, first part 0, 1 or %d bytes, second 1..%d bytes (5 values)" % (a, c, b - 1, 2 * b), time=500)
    for d in ("ENC", "DEC"):
        job("C08", "%s-%s-any-block" % (a.lower(), d.lower()), "c08_final.c", defs=[a, "TOY", d] + (["FULL"] if a in ("SEED", "DES") and d == "ENC" else []), bounds="%s context with an arbitrary-parameter bijection as block function, every mode and padding type, %s" % (a, "pending and final bytes: all up to 2 blocks + 1" if a in ("SEED", "DES") and d == "ENC" else "15 splits of up to 3 blocks"), time=500)
        job("C08", "%s-%s-any-block-full" % (a.lower(), d.lower()), "c08_final.c", defs=[a, "TOY", d, "FULL"], bounds="%s context with an arbitrary-parameter bijection as block function, every mode and padding type, all splits up to 2 blocks + 1" % a, time=3000, tier="thorough")
    job("C07", a.lower() + "-any-block-full", "c07_modes.c", defs=[a, "TOY", "FULL"], bounds="as above, every first part and second part up to 2 blocks + 1", time=3000, tier="thorough")

# ---- big numbers ----
for c, w, wt in (("port", 3, 4), ("w32", 3, 4)):
    for op in ("ADD", "SUB", "EXACT", "CMP", "CMPW", "WORD", "INPLACE"):
        for tier, n in (("quick", w), ("thorough", wt)):
            job("C13", "%s-%s-%d" % (op.lower(), c, n), "c13_addsub.c", cfg=c, defs=["OP" + op, "W=%d" % n], bounds="all normalised signed numbers of 1..%d %s-bit words, every aliasing of the result" % (n, "64" if c == "port" else "32"), time=400 if tier == "quick" else 3000, tier=tier)

def bits(c): return "64" if c == "port" else "32"
def c14(nm, c, defs, bounds, **k): job("C14", nm + "-" + bits(c), "c14_mul.c", cfg=c, defs=defs, bounds=bounds + ", %s-bit words" % bits(c), **{"time": 400, **k})
for c in ("port", "w32"):
    c14("word", c, ["OPWORD", "W=2"], "all signed numbers of 1..2 words times every word, signed or not")
    c14("double", c, ["OPDOUBLE", "W=3"], "all signed numbers of 1..3 words, into another number and in place")
    c14("mul-edge", c, ["OPMUL", "W=3", "W2=2", "LO=2", "SG=0", "EDGE=1"], "2..3 words by 2 words, one word of the first free, the others edge patterns")
    c14("sqr-edge", c, ["OPSQR", "W=3", "LO=3", "SG=0", "EDGE=3", "FREE=1" if c == "port" else "FREE=255"], "3 words of edge patterns with some free bits")
c14("mul", "port", ["OPMUL", "W=1", "W2=2"], "all signed numbers, 1 word by 1..2 words"); c14("sqr", "port", ["OPSQR", "W=1"], "all signed numbers of 1 word")
c14("sqr-edge2", "port", ["OPSQR", "W=2", "LO=2", "SG=0", "EDGE=6", "FREE=3"], "2 words of edge patterns with two free bits")
c14("mul", "w32", ["OPMUL", "W=2"], "all signed numbers of 1..2 words each"); c14("sqr", "w32", ["OPSQR", "W=2"], "all signed numbers of 1..2 words")
c14("mul-exact", "w32", ["OPEXACT", "W=2"], "1..2 words each, the product one word shorter than the operands together, result of just that length")
def c15(nm, c, defs, bounds, **k): job("C15", nm + "-" + bits(c), "c15_div.c", cfg=c, defs=defs, bounds=bounds + ", %s-bit words" % bits(c), **{"time": 500, **k})
def div(nm, c, b, alo, ahi, k, spare=0, edge=0, **kw): c15("div-" + nm, c, ["OPDIV", "BLO=%d" % b, "BHI=%d" % b, "ALO=%d" % alo, "AHI=%d" % ahi, "KLO=%d" % k, "KHI=%d" % k, "SPARE=%d" % spare] + (["EDGE=%d" % edge] if edge else []), "dividends of %d..%d words, divisors of %d word(s) with %d leading zero bits%s" % (alo, ahi, b, k, ", divisor words and all but one dividend word edge patterns" if edge else ""), **kw)
for c in ("port", "w32"):
    c15("word", c, ["OPWORD", "W=2"], "2-word signed numbers by every word")
    div("2by1", c, 1, 1, 2, 0, 1); div("2by2", c, 2, 2, 2, 0); div("1by2", c, 2, 1, 1, 0)
    div("edge-2by2-k5", c, 2, 2, 2, 5, edge=2); div("edge-3by2", c, 2, 3, 3, 0, edge=2)
div("2by1-k3", "w32", 1, 1, 2, 3); div("1by1-k9", "w32", 1, 1, 1, 9)
div("edge-3by2-k31", "w32", 2, 3, 3, 31, edge=2); div("edge-3by2-k1", "port", 2, 3, 3, 1, edge=2, tier="thorough", time=3000)
for k in (1, 2, 8, 15, 16, 30): div("1by1-k%d" % k, "w32", 1, 1, 1, k, tier="thorough", time=1500)
for k in (16, 30): div("edge-2by2-k%d" % k, "w32", 2, 2, 2, k, edge=2, tier="thorough", time=1500)
c15("sign-1by1", "port", ["OPSIGN", "BLO=1", "BHI=1", "ALO=1", "AHI=1", "KLO=0", "KHI=0", "SPARE=0"], "signed numbers of one word")
for b in (1, 2): c15("sign-2by%d" % b, "w32", ["OPSIGN", "BLO=%d" % b, "BHI=%d" % b, "ALO=1", "AHI=2", "KLO=0", "KHI=0", "SPARE=0"], "signed dividends of 1..2 words, signed divisors of %d word(s) with the top bit set" % b)
for c in ("port", "w32"):
    n = 64 if c == "port" else 32
    for lo, hi in ((0, n // 2), (n // 2 + 1, n), (n + 1, n + 7), (2 * n - 1, 2 * n + 1)):
        job("C16", "left%d-%d-%s" % (lo, hi, bits(c)), "c16_shift.c", cfg=c, defs=["OPL", "W=2", "KLO=%d" % lo, "KHI=%d" % hi], bounds="all signed numbers of 1..2 words, distances %d..%d, exact capacity and one word less where it still fits" % (lo, hi), time=400)
    for lo, hi in ((0, n + 1), (2 * n - 1, 2 * n + 1), (3 * n - 2, 3 * n + 2)):
        job("C16", "right%d-%d-%s" % (lo, hi, bits(c)), "c16_shift.c", cfg=c, defs=["OPR", "W=3", "KLO=%d" % lo, "KHI=%d" % hi], bounds="all signed numbers of 3 words, distances %d..%d" % (lo, hi), time=400)
    job("C16", "right1-" + bits(c), "c16_shift.c", cfg=c, defs=["OPR", "W=1", "KLO=0", "KHI=%d" % (n + 2)], bounds="all signed numbers of 1 word, distances 0..%d" % (n + 2), time=400)
    for w in (1, 2, 3): job("C16", "bits%d-%s" % (w, bits(c)), "c16_shift.c", cfg=c, defs=["OPBITS", "W=%d" % w], bounds="all nonzero numbers of %d words" % w, time=400)
    job("C16", "left3-" + bits(c), "c16_shift.c", cfg=c, defs=["OPL", "W=3", "KLO=0", "KHI=%d" % (3 * n + 1)], bounds="all signed numbers of 1..3 words, distances 0..%d" % (3 * n + 1), time=3000, tier="thorough")
for c in ("port", "w32"):
    n = 8 if c == "port" else 4
    def c17(nm, defs, bounds, **k): job("C17", nm + "-" + bits(c), "c17_conv.c", cfg=c, defs=defs, bounds=bounds + ", %s-bit words" % bits(c), **{"time": 400, **k})
    c17("read", ["OPREAD", "LO=1", "HI=%d" % (2 * n + 2)], "all byte strings of 1..%d bytes, signed and unsigned, into numbers with exactly the room or a word less" % (2 * n + 2))
    c17("read-long", ["OPREAD", "LO=%d" % (2 * n + 3), "HI=%d" % (3 * n + 1)], "all byte strings of %d..%d bytes" % (2 * n + 3, 3 * n + 1))
    c17("write", ["OPWRITE", "LO=1", "W=3"], "all signed numbers of 1..3 words; no buffer, and buffers of 0, half, one less, exact and two more bytes")
    c17("fixed", ["OPFIXED", "LO=1", "W=3"], "all numbers of 1..3 words; no buffer, and buffers of 0, one less, exact, one more and maximal bytes")
    c17("int", ["OPINT"], "all machine integers"); c17("set", ["OPSET", "W=3"], "all signed numbers of 1..3 words, copies into 2..4 words")

# ---- DER, random ----
job("C20", "any", "c20_asn1.c", defs=["ANY", "LO=0", "HI=6"], bounds="all byte strings of 0..6 bytes", time=300)
job("C20", "any7", "c20_asn1.c", defs=["ANY", "LO=7", "HI=7"], bounds="all byte strings of 7 bytes", time=500)
for n in (8, 9): job("C20", "any%d" % n, "c20_asn1.c", defs=["ANY", "LO=%d" % n, "HI=%d" % n], bounds="all byte strings of %d bytes" % n, time=6000, tier="thorough")
job("C20", "nest", "c20_asn1.c", defs=["NEST"], bounds="0..12 nested sequences, with and without elements before, after and inside, short and long length form", time=200)
job("C20", "many", "c20_asn1.c", defs=["MANY"], bounds="a container of 0..32 primitive elements with any tags", time=200)
for a, l in (("SHA160", 20), ("SHA256", 32), ("SHA512", 64), ("MD5", 16)):
    for c in ("port", "asm") if a in ("SHA160", "SHA256") else ("port",):
        job("C24", "stream-%s-%s" % (a.lower(), c), "c24_random.c", cfg=c, defs=["STREAM", "ALG=RA_RAND_" + a, "LEN=%d" % l], bounds="all seeds of 0, 1, 20, 55 and 80 bytes, 2 hash outputs + 1 byte, 7 splits, another generator in between", time=300)
    job("C24", "stream-%s-long" % a.lower(), "c24_random.c", defs=["STREAM", "ALG=RA_RAND_" + a, "LEN=%d" % l, "LONG"], bounds="3 hash outputs + 3 bytes", time=2000, tier="thorough")
job("C24", "real", "c24_random.c", defs=["REAL", "ALG=RA_RAND_SHA512"], bounds="every four (and, when drawn again, next four) output bytes", time=300)
for lo, hi in ((0, 3), (4, 7), (8, 11)): job("C24", "int%d" % lo, "c24_random.c", defs=["INT", "ALG=RA_RAND_%s" % ("MD5" if lo else "SHA160"), "KLO=%d" % lo, "KHI=%d" % hi], bounds="12 sizes of range from 1 to 2^32, any minimum, every four (and, when drawn again, next four) output bytes", time=300)

# ---- erasure ----
for k, a in enumerate(("aes", "des", "seed", "aria", "blowfish")): job("C26", a, "c26_erase.c", defs=["CIPHER=%d" % k], bounds="all keys (Blowfish: one key), initialization vectors and data; every mode and key size, 0, 5 and 21 bytes in either direction", time=300)
job("C26", "rc4", "c26_erase.c", defs=["RC4"], bounds="all 8-byte keys", time=300)
job("C26", "digests", "c26_erase.c", defs=["DGST"], bounds="all data of 0, 37 and 130 bytes, finished or not", time=300)
job("C26", "random", "c26_erase.c", defs=["RAND"], bounds="all 40-byte seeds, 0, 9 and 130 bytes drawn", time=300)
for c in ("port", "w32"):
    job("C26", "clearfree-" + bits(c), "c26_erase.c", cfg=c, defs=["BNCLR"], bounds="all contents of numbers of capacity 2..6 words and any length, created or cloned", time=300)
    job("C26", "mont-" + bits(c), "c26_erase.c", cfg=c, defs=["MONT", "OPAQUE"], bounds="one two-word modulus, four bases, exponents 0..9", time=300)
    job("C26", "rsakey-" + bits(c), "c26_erase.c", cfg=c, defs=["RSAKEY", "OPAQUE"], bounds="keys with a fixed modulus and public exponent, all private parts of fixed lengths", time=300)

# ---- failing allocations ----
FA = "every choice of up to %d failing allocations in one call: "
def c25(nm, defs, what, cfg="port", n=3, **k): job("C25", nm, "c25_oom.c", cfg=cfg, defs=["FAILS=%d" % n] + defs, bounds=FA % n + what, time=300, **k)
c25("contexts", ["CTX"], "cipher, digest, number and generator creation")
for c in ("port", "w32"):
    b = "-" + bits(c)
    c25("numbers" + b, ["BN1"], "BnDiv, BnMod, BnClone, BnToByteArray, GetGCD, GetGCDEx", c)
    c25("mont" + b, ["MONT"], "RaMontCreate, RaMontExpMod with one modulus, base and exponent", c)
    c25("prime" + b, ["PRIME", "RANDOM_FIXED"], "RaIsPrimeNumber of a prime and a composite, RaGenPrimeNumberEx of 32 bits, seeded", c)
    c25("import" + b, ["IMPORT"], "the three key imports", c); c25("rsa" + b, ["RSA"], "encrypt, decrypt, sign, verify, both exports", c)
    c25("genkey" + b, ["GENKEY", "RANDOM_FIXED", "BITS=64"], "generation of a 64-bit key, seeded", c)
    c25("verifykey" + b, ["VKEY", "RANDOM_FIXED"], "RaRsaVerifyKey", c)
c25("parse", ["DER"], "parsing 31 elements"); c25("import-verify", ["IMPORT", "VERIFY", "RACRYPT_RSA_VERIFY_KEY", "RANDOM_FIXED"], "key import with verification on", "verify")

# ---- key import ----
M = "the Montgomery context of a nonzero modulus is opaque (created or not)"
def c22(nm, defs, what, cfg="port", **k): job("C22", nm, "c22_import.c", cfg=cfg, defs=defs, bounds=what, **{"time": 400, **k})
c22("any", ["ANY", "LO=0", "HI=6"], "all byte strings of 0..6 bytes to each import; " + M); c22("any7", ["ANY", "LO=7", "HI=7"], "all byte strings of 7 bytes to each import")
c22("any8", ["ANY", "LO=8", "HI=8"], "all byte strings of 8 bytes to each import", tier="thorough", time=4000)
for fm, nm in enumerate(("pkcs1-public", "pkcs1-private", "x509-public", "pkcs8-private")):
    for lo, hi in {0: ((0, 99),), 1: ((0, 9), (10, 21), (22, 99)), 2: ((0, 99),), 3: ((0, 23), (24, 35), (36, 99))}[fm]:
        sp = 2 if fm in (0, 2) else 1
        c22("%s-%d" % (nm, lo), ["MUT", "FORM=%d" % fm, "SPAN=%d" % sp, "PLO=%d" % lo, "PHI=%d" % hi], "a valid %s encoding with any %d neighbouring byte(s) replaced by anything" % (nm, sp))
        if sp == 1: c22("%s-%d-two" % (nm, lo), ["MUT", "FORM=%d" % fm, "SPAN=2", "PLO=%d" % lo, "PHI=%d" % hi], "any 2 neighbouring bytes", tier="thorough", time=3000)
c22("cut", ["CUT"], "the four encodings cut off anywhere, the outer length adjusted or not"); c22("oid", ["OID"], "algorithm identifiers of 0..12 bytes, at the end or not")
for c in ("port", "w32"):
    c22("integers-" + bits(c), ["INTS", "MAXLEN=17"], "PKCS#1 keys with one integer of 0..17 arbitrary bytes", cfg=c); c22("moduli-" + bits(c), ["REAL"], "15 plain moduli with the real Montgomery context", cfg=c)
