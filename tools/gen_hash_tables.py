#!/usr/bin/env python3
"""Writes specs/HashTables.tla: the constants of RFC 1321 and FIPS 180-4 from their
definitions (fractional parts of roots of primes, sines)."""
from math import isqrt
import os
from decimal import Decimal, getcontext
getcontext().prec = 60

def primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out

def icbrt(n):
    x = 1 << ((n.bit_length() + 2) // 3 + 1)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x:
            return x
        x = y

def frac_sqrt(p, bits): return isqrt(p << (2 * bits)) & ((1 << bits) - 1)
def frac_cbrt(p, bits): return icbrt(p << (3 * bits)) & ((1 << bits) - 1)

PI = Decimal("3.14159265358979323846264338327950288419716939937510582097494459")
def dsin(x):
    x = Decimal(x) % (2 * PI)
    t = x; s = x; k = 1
    while abs(t) > Decimal(10) ** -50:
        t = -t * x * x / ((2 * k) * (2 * k + 1)); s += t; k += 1
    return s

def limbs(v, n): return "<<" + ", ".join(str((v >> (16 * (n - 1 - i))) & 0xffff) for i in range(n)) + ">>"
def table(name, vals, n):
    return "%s == <<\n  %s>>\n" % (name, ",\n  ".join(limbs(v, n) for v in vals))

P = primes(80)
md5k = [int(abs(dsin(i + 1)) * (1 << 32)) for i in range(64)]
out = "---- MODULE HashTables ----\n\\* Generated by tools/gen_hash_tables.py\nEXTENDS Integers, Sequences\n"
out += table("Md5K", md5k, 2)
out += table("Sha256K", [frac_cbrt(p, 32) for p in P[:64]], 2)
out += table("Sha512K", [frac_cbrt(p, 64) for p in P], 4)
out += table("Sha256H", [frac_sqrt(p, 32) for p in P[:8]], 2)
out += table("Sha224H", [frac_sqrt(p, 64) & 0xffffffff for p in P[8:16]], 2)
out += table("Sha512H", [frac_sqrt(p, 64) for p in P[:8]], 4)
out += table("Md5H", [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476], 2)
out += table("Sha1H", [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0], 2)
out += table("Sha1K", [0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6], 2)
out += "====\n"
open(os.path.join(os.path.dirname(__file__), "..", "specs", "HashTables.tla"), "w").write(out)
