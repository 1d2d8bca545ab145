"""An independent writer of deflate, zlib and bzip2 streams."""
import bz2, random, struct, zlib

CLORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]


class Bits:
    def __init__(self, msb=False):
        self.bits, self.msb = [], msb

    def num(self, v, n):
        """A number: least significant bit first, or most significant first in msb streams."""
        b = [(v >> i) & 1 for i in range(n)]
        self.bits += b[::-1] if self.msb else b

    def code(self, v, n):
        self.bits += [(v >> (n - 1 - i)) & 1 for i in range(n)]

    def bytes(self, pad=0):
        b = self.bits + [pad] * (-len(self.bits) % 8)
        out = bytearray()
        for i in range(0, len(b), 8):
            x = b[i:i + 8]
            out.append(sum(y << (7 - j if self.msb else j) for j, y in enumerate(x)))
        return bytes(out)


def codes(lens):
    """Canonical codes: {symbol: (code, length)}."""
    out, code = {}, 0
    for l in range(1, 21):
        code <<= 1
        for s, n in enumerate(lens):
            if n == l:
                out[s] = (code, l)
                code += 1
    return out


def random_lens(rng, symbols, size, most):
    """A complete code for the symbols (a single symbol gets one bit), skewed at random."""
    lens = [0] * size
    symbols = list(symbols)
    if len(symbols) == 1:
        lens[symbols[0]] = 1
        return lens
    leaves = [0]
    deep = rng.random()
    while len(leaves) < len(symbols):
        cand = [i for i, d in enumerate(leaves) if d < most]
        i = max(cand, key=lambda i: leaves[i]) if rng.random() < deep else min(cand, key=lambda i: leaves[i]) if rng.random() < 0.6 else rng.choice(cand)
        d = leaves.pop(i)
        leaves += [d + 1, d + 1]
    if rng.random() < 0.5:
        rng.shuffle(symbols)
    for s, d in zip(symbols, leaves):
        lens[s] = d
    return lens


def len_symbol(n):
    if n == 258:
        return 285, 0, 0
    for s in range(284, 256, -1):
        x = 0 if s < 265 else (s - 261) // 4
        base = s - 254 if s < 265 else 3 + ((4 + (s - 265) % 4) << ((s - 261) // 4))
        if n >= base:
            return s, n - base, x


def dist_symbol(d):
    for s in range(29, -1, -1):
        x = 0 if s < 4 else (s - 2) // 2
        base = s + 1 if s < 4 else 1 + ((2 + s % 2) << x)
        if d >= base:
            return s, d - base, x


FIXED = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8


def expand(out, toks):
    for t in toks:
        if t[0] == "l":
            out.append(t[1])
        else:
            for _ in range(t[1]):
                out.append(out[-t[2]])


def write_tokens(b, toks, lens, dlens):
    lc, dc = codes(lens), codes(dlens)
    for t in toks:
        if t[0] == "l":
            b.code(*lc[t[1]])
        else:
            s, v, x = t[3] if len(t) > 3 else len_symbol(t[1])
            b.code(*lc[s])
            b.num(v, x)
            s, v, x = dist_symbol(t[2])
            b.code(*dc[s])
            b.num(v, x)
    b.code(*lc[256])


def rle_lens(rng, seq):
    """The code lengths as symbols of the code length code, with repeats at random."""
    out, i = [], 0
    while i < len(seq):
        run = 1
        while i + run < len(seq) and seq[i + run] == seq[i]:
            run += 1
        if seq[i] == 0 and run >= 11 and rng.random() < 0.9:
            n = min(run, rng.choice([138, 138, 11, 50]))
            out.append((18, n - 11, 7))
        elif seq[i] == 0 and run >= 3 and rng.random() < 0.8:
            n = min(run, rng.choice([10, 10, 3, 4]))
            out.append((17, n - 3, 3))
        elif i > 0 and seq[i - 1] == seq[i] and run >= 3 and rng.random() < 0.8:
            n = min(run, rng.choice([6, 6, 3, 4]))
            out.append((16, n - 3, 2))
        else:
            n = 1
            out.append((seq[i], 0, 0))
        i += n
    return out


def dynamic(rng, b, toks, o):
    used = {t[1] for t in toks if t[0] == "l"} | {256}
    dists = set()
    for t in toks:
        if t[0] == "c":
            used.add((t[3] if len(t) > 3 else len_symbol(t[1]))[0])
            dists.add(dist_symbol(t[2])[0])
    for _ in range(rng.choice([0, 0, 1, 3, 40])):
        used.add(rng.choice([rng.randrange(286), rng.randrange(257)]))
    for _ in range(rng.choice([0, 0, 1, 3])):
        dists.add(rng.randrange(30))
    lens = random_lens(rng, sorted(used), 286, 15)
    nlit = max(257, max(used) + 1, rng.choice([257, 257, 286]))
    dlens = random_lens(rng, sorted(dists), 30, 15) if dists else [0] * 30
    ndist = max(1, max(dists) + 1 if dists else 1, rng.choice([1, 1, 30]))
    if o.get("lens"):
        o["lens"](lens, dlens)
    syms = rle_lens(rng, lens[:nlit] + dlens[:ndist])
    cset = {s[0] for s in syms}
    if len(cset) == 1:
        cset.add(rng.choice([x for x in range(19) if x not in cset]))
    cl = random_lens(rng, sorted(cset), 19, 7)
    ncl = max([4] + [i + 1 for i, s in enumerate(CLORDER) if cl[s]])
    ncl = max(ncl, rng.choice([4, 4, 19]))
    b.num(nlit - 257, 5)
    b.num(ndist - 1, 5)
    b.num(ncl - 4, 4)
    for s in CLORDER[:ncl]:
        b.num(cl[s], 3)
    cc = codes(cl)
    for s, v, x in syms:
        b.code(*cc[s])
        b.num(v, x)
    write_tokens(b, toks, lens, dlens)


def tokens(rng, out, n, most):
    """n random literals and copies that are valid after `out`, which is extended."""
    toks = []
    vals = rng.choice([[0, 1], [65], list(range(256)), list(range(140, 150))])
    for _ in range(n):
        if out and rng.random() < 0.5:
            d = min(len(out), rng.choice([1, 2, 3, 4, rng.randrange(1, len(out) + 1), len(out), 32768]))
            k = rng.choice([3, 4, 5, 10, 11, 12, rng.randrange(3, 259), rng.choice([258, 257, 34, 35])])
            if len(out) + k > most:
                k = 3
            t = ("c", k, d)
            # 258 can also be written as 227 + 31
            if k == 258 and rng.random() < 0.5:
                t = ("c", k, d, (284, 31, 5))
            toks.append(t)
        else:
            toks.append(("l", rng.choice(vals)))
        expand(out, toks[-1:])
    return toks


def deflate(rng, blocks, most, o=None):
    """A stream of random blocks; returns (bytes, what it denotes)."""
    o = o or {}
    b, out = Bits(), bytearray()
    for i in range(blocks):
        b.num(1 if i == blocks - 1 and not o.get("endless") else 0, 1)
        kind = rng.choice([0, 1, 1, 2, 2, 2])
        b.num(kind, 2)
        if kind == 0:
            data = bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 20])))
            b.num(0 if rng.random() < 0.5 else rng.randrange(128), -len(b.bits) % 8)
            b.num(len(data), 16)
            b.num(len(data) ^ 0xFFFF, 16)
            for x in data:
                b.num(x, 8)
            out += data
            continue
        toks = tokens(rng, out, rng.choice([0, 1, 3, 10, 25]), most)
        if kind == 1:
            write_tokens(b, toks, FIXED, [5] * 30)
        else:
            dynamic(rng, b, toks, o)
    return b.bytes(rng.choice([0, 1])), bytes(out)


def zwrap(rng, raw, out, o=None):
    o = o or {}
    cmf = o.get("cmf", 8 | 7 << 4)
    flg = rng.choice([0, 1, 2, 3]) << 6 | (32 if o.get("dict") else 0)
    flg += (31 - (cmf * 256 + flg) % 31) % 31
    return bytes([cmf, flg ^ o.get("flg", 0)]) + raw + struct.pack(">I", zlib.adler32(out) ^ o.get("sum", 0))


def bzcrc(data, c=0xFFFFFFFF):
    for x in data:
        c ^= x << 24
        for _ in range(8):
            c = (c << 1 ^ 0x04C11DB7 if c & 0x80000000 else c << 1) & 0xFFFFFFFF
    return c ^ 0xFFFFFFFF


def rle1(rng, data):
    """Runs of 4 to 259 become 4 bytes and a number; not always the longest there are."""
    out, i = [], 0
    while i < len(data):
        n = 1
        while i + n < len(data) and data[i + n] == data[i] and n < 259:
            n += 1
        if n >= 4:
            n = rng.choice([n, n, n, rng.randrange(4, n + 1)])
            out += [data[i]] * 4 + [n - 4]
        else:
            out += [data[i]] * n
        i += n
    return out


def bzip2(rng, chunks, o=None):
    """One block for every chunk."""
    o = o or {}
    b = Bits(msb=True)
    for x in b"BZh":
        b.num(x, 8)
    b.num(0x30 + o.get("level", rng.randrange(1, 10)), 8)
    total = 0
    for data in chunks:
        crc = bzcrc(data)
        total = ((total << 1 | total >> 31) & 0xFFFFFFFF) ^ crc
        b.num(0x314159265359, 48)
        b.num(crc ^ o.get("crc", 0), 32)
        b.num(o.get("random", 0), 1)
        s = rle1(rng, data)
        n = len(s)
        rows = sorted(range(n), key=lambda i: s[i:] + s[:i])
        orig = rows.index(0)
        last = [s[i - 1] for i in rows]
        b.num(o.get("orig", lambda k, m: k)(orig, n), 24)
        used = sorted(set(s) | set(o.get("more", [])))
        b.num(sum(1 << (15 - i) for i in range(16) if any(x >> 4 == i for x in used)), 16)
        for i in range(16):
            if any(x >> 4 == i for x in used):
                b.num(sum(1 << (15 - j) for j in range(16) if 16 * i + j in used), 16)
        front, syms, i = list(used), [], 0
        while i < n:
            k = front.index(last[i])
            if k == 0:
                run = 1
                while i + run < n and last[i + run] == last[i]:
                    run += 1
                i += run
                while run:
                    syms.append((run - 1) % 2)
                    run = (run - 1 - (run - 1) % 2) // 2
                continue
            syms.append(k + 1)
            front.insert(0, front.pop(k))
            i += 1
        alpha = len(used) + 2
        syms.append(alpha - 1)
        groups = (len(syms) + 49) // 50
        ntrees = o.get("trees", rng.randrange(2, 7))
        b.num(o.get("ntrees", ntrees), 3)
        b.num(o.get("nsel", groups), 15)
        sels = [rng.randrange(ntrees) for _ in range(groups)]
        front = list(range(ntrees))
        for x in sels:
            k = front.index(x)
            for _ in range(k):
                b.num(1, 1)
            b.num(0, 1)
            front.insert(0, front.pop(k))
        trees = []
        for _ in range(ntrees):
            lens = random_lens(rng, range(alpha), alpha, o.get("most", rng.choice([9, 17, 20])))
            if o.get("lens"):
                lens = o["lens"](lens)
            trees.append(codes(lens))
            cur = max(1, min(20, lens[0] + rng.choice([0, 0, 1, -1, 3])))
            b.num(cur, 5)
            for l in lens:
                if rng.random() < 0.05 and 1 < cur < 20:
                    b.num(0b1011, 4)
                while cur < l:
                    b.num(0b10, 2)
                    cur += 1
                while cur > l:
                    b.num(0b11, 2)
                    cur -= 1
                b.num(0, 1)
        for i, x in enumerate(syms):
            b.code(*trees[sels[i // 50]][x])
    if not o.get("endless"):
        b.num(0x177245385090, 48)
        b.num(total ^ o.get("sum", 0), 32)
    return b.bytes(rng.choice([0, 1]) if not o.get("endless") else 0)


def text(rng, n):
    """Compressible bytes."""
    k = rng.randrange(5)
    if k == 0:
        return bytes([rng.randrange(256)]) * n
    if k == 1:
        return bytes(rng.randrange(256) for _ in range(n))
    if k == 2:
        unit = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20)))
        return (unit * (n // len(unit) + 1))[:n]
    if k == 3:
        out = bytearray()
        while len(out) < n:
            out += bytes([rng.choice(b"ab\x00\xff")]) * rng.choice([1, 1, 2, 3, 4, 5, 6, 100, 255, 258, 259, 260, 263])
        return bytes(out[:n])
    words = [bytes(rng.randrange(97, 123) for _ in range(rng.randrange(1, 9))) for _ in range(50)]
    out = bytearray()
    while len(out) < n:
        out += rng.choice(words) + b" "
    return bytes(out[:n])
