#!/usr/bin/env python3
"""Derives the standard tables used by the reference specifications (from pi, square/cube roots, sines, GF(2^8) maps)."""
import os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "spec_tables.h")
def pi_scaled(bits):
    # Machin, fixed point
    one = 1 << (bits + 64)
    def arctan_inv(x):
        t = one // x; s = t; n = 3; sign = -1; x2 = x * x
        while t:
            t //= x2; s += sign * (t // n); n += 2; sign = -sign
        return s
    return (4 * (4 * arctan_inv(5) - arctan_inv(239))) >> 64
o = ["/* generated by tools/mkconsts.py */", "#ifndef SPEC_TABLES_H", "#define SPEC_TABLES_H", "#include <stdint.h>"]
def emit(t, n, v, fmt):
    o.append("static const %s %s[%d] = {" % (t, n, len(v)))
    for i in range(0, len(v), 8): o.append("  " + ", ".join(fmt % x for x in v[i:i+8]) + ",")
    o.append("};")
# Blowfish: fractional hex digits of pi
NW = 18 + 1024
p = pi_scaled(32 * NW + 64) >> 64
frac = p & ((1 << (32 * NW)) - 1)
w = [(frac >> (32 * (NW - 1 - i))) & 0xffffffff for i in range(NW)]
assert w[0] == 0x243f6a88
emit("uint32_t", "specBfP", w[:18], "0x%08x"); emit("uint32_t", "specBfS", w[18:], "0x%08x")
# MD2: Fisher-Yates driven by decimal digits of pi
def pidigits(n):
    one = 10 ** (n + 20)
    def at(x):
        t = one // x; s = t; k = 3; sign = -1
        while t: t //= x * x; s += sign * (t // k); k += 2; sign = -sign
        return s
    return str(4 * (4 * at(5) - at(239)))[:n]
D = iter(int(c) for c in pidigits(2000))
def rand(n):
    while True:
        x = next(D); y = 10
        if n > 10: x = x * 10 + next(D); y = 100
        if n > 100: x = x * 10 + next(D); y = 1000
        if x < n * (y // n): return x % n
S = list(range(256))
for i in range(2, 257):
    j = rand(i); S[j], S[i-1] = S[i-1], S[j]
assert S[0] == 41 and S[1] == 46
emit("uint8_t", "specMd2", S, "0x%02x")
# MD5 sines
from decimal import Decimal, getcontext
getcontext().prec = 60
def dsin(x):
    x = Decimal(x); t = x; s = x; n = 1
    while abs(t) > Decimal(10) ** -50:
        t = -t * x * x / ((2*n) * (2*n+1)); s += t; n += 1
    return s
emit("uint32_t", "specMd5", [int(abs(dsin(i + 1)) * 2**32) for i in range(64)], "0x%08x")
def primes(n):
    r = []; k = 2
    while len(r) < n:
        if all(k % q for q in r): r.append(k)
        k += 1
    return r
def icbrt(n):
    x = 1 << ((n.bit_length() + 2) // 3 + 1)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x: return x
        x = y
from math import isqrt
P = primes(80)
emit("uint32_t", "specK256", [icbrt(p << 96) & 0xffffffff for p in P[:64]], "0x%08x")
emit("uint64_t", "specK512", [icbrt(p << 192) & 0xffffffffffffffff for p in P], "0x%016xULL")
emit("uint32_t", "specH256", [isqrt(p << 64) & 0xffffffff for p in P[:8]], "0x%08x")
emit("uint64_t", "specH512", [isqrt(p << 128) & 0xffffffffffffffff for p in P[:8]], "0x%016xULL")
emit("uint64_t", "specH384", [isqrt(p << 128) & 0xffffffffffffffff for p in P[8:16]], "0x%016xULL")
emit("uint32_t", "specH224", [(isqrt(p << 128) & 0xffffffff) for p in P[8:16]], "0x%08x")
# SHA-512/t initial values by the FIPS 180-4 generation function
K512 = [icbrt(p << 192) & (2**64-1) for p in P]; H512 = [isqrt(p << 128) & (2**64-1) for p in P[:8]]
def sha512c(h, blk):
    M = 2**64 - 1; rr = lambda x, n: ((x >> n) | (x << (64 - n))) & M
    W = [int.from_bytes(blk[8*i:8*i+8], "big") for i in range(16)]
    for t in range(16, 80):
        a, b = W[t-15], W[t-2]
        W.append((W[t-16] + (rr(a,1)^rr(a,8)^(a>>7)) + W[t-7] + (rr(b,19)^rr(b,61)^(b>>6))) & M)
    a,b,c,d,e,f,g,hh = h
    for t in range(80):
        t1 = (hh + (rr(e,14)^rr(e,18)^rr(e,41)) + ((e&f)^(~e&M&g)) + K512[t] + W[t]) & M
        t2 = ((rr(a,28)^rr(a,34)^rr(a,39)) + ((a&b)^(a&c)^(b&c))) & M
        hh,g,f,e,d,c,b,a = g,f,e,(d+t1)&M,c,b,a,(t1+t2)&M
    return [(x+y)&M for x,y in zip(h,[a,b,c,d,e,f,g,hh])]
for t in (224, 256):
    m = b"SHA-512/%d" % t; blk = m + b"\x80" + b"\0" * (128 - len(m) - 1 - 16) + (8*len(m)).to_bytes(16, "big")
    emit("uint64_t", "specH512_%d" % t, sha512c([x ^ 0xa5a5a5a5a5a5a5a5 for x in H512], blk), "0x%016xULL")
# SEED S-boxes: A1*x^247 + 169, A2*x^251 + 56 over x^8+x^6+x^5+x+1
def gmul(a, b, poly):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 256: a ^= poly
        b >>= 1
    return r
def gpow(a, n, poly):
    r = 1
    while n:
        if n & 1: r = gmul(r, a, poly)
        a = gmul(a, a, poly); n >>= 1
    return r
def affine(rows, x, c, msb):
    # rows top to bottom are output bits; msb: column 0 and row 0 are the most significant bit
    y = 0
    for i, r in enumerate(rows):
        b = 0
        for j, ch in enumerate(r):
            if ch == "1": b ^= (x >> (7 - j if msb else j)) & 1
        y |= b << (7 - i if msb else i)
    return y ^ c
A1 = ["10001010","11111110","10000101","01000010","01000101","00100001","10001000","00010100"]
A2 = ["01000101","10000101","11111110","00100001","10001010","10001000","01000010","00010100"]
seed1 = [affine(A1, gpow(x, 247, 0x163), 169, True) for x in range(256)]
seed2 = [affine(A2, gpow(x, 251, 0x163), 56, True) for x in range(256)]
emit("uint8_t", "specSeedS1", seed1, "0x%02x"); emit("uint8_t", "specSeedS2", seed2, "0x%02x")
# ARIA S2: D*x^247 + 0xe2 over the AES field
AD = ["01011110","00111101","11010111","10011101","00101100","10000001","01011101","11010011"]
aria2 = [affine(AD, gpow(x, 247, 0x11b), 0xe2, False) for x in range(256)]
emit("uint8_t", "specAriaS2", aria2, "0x%02x")
o.append("#endif")
open(OUT, "w").write("\n".join(o) + "\n")
