"""Digests and checksums of long messages, by Python's hashlib and zlib: specs/tables/vectors.json.

The message of n bytes has at i the byte (7 * (i % 251) + 3) % 256."""
import hashlib, json, os, zlib

UNIT = bytes((7 * i + 3) % 256 for i in range(251))
BLOCK = UNIT * 8192
SHORT = [1000, 65535, 65536, 65537, 131077, 1000003]
LONG = [(1 << 24) + 5, (1 << 29) + 13]
HUGE = [(1 << 32) + 77]


def parts(n):
    while n > 0:
        yield BLOCK[:n] if n < len(BLOCK) else BLOCK
        n -= len(BLOCK)


def crc(poly, init, n):
    table = []
    for i in range(256):
        x = i << 24
        for _ in range(8):
            x = (x << 1 ^ poly if x >> 31 else x << 1) & 0xFFFFFFFF
        table.append(x)
    x = init ^ 0xFFFFFFFF
    for p in parts(n):
        for b in p:
            x = table[(x >> 24) ^ b] ^ (x << 8) & 0xFFFFFFFF
    return x ^ 0xFFFFFFFF


def words(x):
    return [x >> 16, x & 0xFFFF]


def main():
    out = []
    for n in SHORT + LONG + HUGE:
        hs = {k: hashlib.new(k) for k in ("md5", "sha1", "sha224", "sha256", "sha512")}
        a, r, r2 = 1, 0, 0x12345678
        for p in parts(n):
            for h in hs.values():
                h.update(p)
            a, r, r2 = zlib.adler32(p, a), zlib.crc32(p, r), zlib.crc32(p, r2)
        for k, h in hs.items():
            out.append({"kind": k, "n": str(n), "out": list(h.digest())})
        out.append({"kind": "adler", "n": str(n), "cfg": {"kind": "adler", "poly": [0, 0], "init": [0, 1]}, "out": words(a)})
        for init, v in ((0, r), (0x12345678, r2)):
            out.append({"kind": "rcrc", "n": str(n), "cfg": {"kind": "rcrc", "poly": words(0xEDB88320), "init": words(init)}, "out": words(v)})
        if n in SHORT + LONG[:1]:
            out.append({"kind": "crc", "n": str(n), "cfg": {"kind": "crc", "poly": words(0x04C11DB7), "init": [0, 0]}, "out": words(crc(0x04C11DB7, 0, n))})
        print(n, flush=True)
    path = os.path.join(os.path.dirname(__file__), "..", "specs", "tables", "vectors.json")
    json.dump(out, open(path, "w"), separators=(",", ":"))


main()
