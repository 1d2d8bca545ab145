"""An independent writer of ADC, LZVN, LZNT1, LZFSE and LZX streams.

Every writer takes rng and a wanted size, makes up literals and copies as it goes, and
gives (compressed, uncompressed)."""
import struct
from flate import codes, random_lens


def copy(out, d, n):
    for _ in range(n):
        out.append(out[-d])


def literals(rng, n):
    k = rng.random()
    if k < 0.3:
        return bytes([rng.randrange(256)]) * n
    if k < 0.6:
        return bytes(rng.choice(b"abcd ") for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def distance(rng, have, most):
    m = min(have, most)
    return rng.choice([1, m, m, rng.randint(1, m), rng.randint(1, min(m, 8)), rng.randint(1, min(m, 300))])


def adc(rng, size):
    c, out = bytearray(), bytearray()
    while len(out) < size:
        k = rng.randrange(3) if out else 0
        if k == 0:
            n = rng.choice([1, 2, 3, 10, 128, 127, rng.randint(1, 128)])
            n = min(n, max(1, size - len(out)))
            x = literals(rng, n)
            c.append(127 + n)
            c += x
            out += x
        elif k == 1:
            n = rng.choice([3, 18, rng.randint(3, 18)])
            d = distance(rng, len(out), 1024)
            c += bytes([(n - 3) * 4 + ((d - 1) >> 8), (d - 1) & 255])
            copy(out, d, n)
        else:
            n = rng.choice([4, 67, rng.randint(4, 67)])
            d = distance(rng, len(out), 65536)
            c += bytes([64 + n - 4]) + struct.pack(">H", d - 1)
            copy(out, d, n)
    return bytes(c), bytes(out)


def lzvn(rng, size, out=None, exact=False, nops=True, bad=0.0, end=True):
    """out: what is already there; distances may reach back into it."""
    c = bytearray()
    out = bytearray() if out is None else out
    goal = len(out) + size
    last = 0
    while len(out) < goal:
        left = goal - len(out)
        k = rng.choice(["s", "s", "m", "m", "l", "p", "ll", "ls", "ml", "ms", "nop"])
        if k == "nop":
            if nops:
                c += bytes([rng.choice([0x0e, 0x16])])
            continue
        n = m = 0
        if k in ("s", "l", "p"):
            n, m = rng.randint(0, 3), rng.randint(3, 10)
        elif k == "m":
            n, m = rng.randint(0, 3), rng.choice([3, 34, rng.randint(3, 34)])
        elif k == "ll":
            n = rng.choice([16, 17, 271, rng.randint(16, 271)])
        elif k == "ls":
            n = rng.randint(1, 15)
        elif k == "ml":
            m = rng.choice([16, 17, 271, rng.randint(16, 271)])
        else:
            m = rng.randint(1, 15)
        if exact and n + m > left:
            if left < 16:
                k, n, m = "ls", left, 0
            else:
                continue
        have = len(out) + n
        if m and have == 0:
            continue
        if k in ("p", "ml", "ms"):
            d = last
            if d == 0 or d > have or (k == "p" and n == 0 and m == 3):   # that one ends the stream
                continue
            if k == "p" and (n, m) in ((0, 4), (0, 5), (0, 6), (0, 7), (0, 8), (0, 9), (0, 10)):
                continue
        elif m:
            most = {"s": 1535, "m": 16383, "l": 65535}[k]
            d = distance(rng, have, most)
            if bad and rng.random() < bad:
                d = rng.choice([0, have + 1, most])
        else:
            d = 0
        x = literals(rng, n)
        if k == "s":
            op = (n << 6) | ((m - 3) << 3) | (d >> 8)
            if op in range(0x70, 0x80) or op in range(0xa0, 0xc0) or op in range(0xd0, 0x100):
                continue
            c += bytes([op, d & 255]) + x
        elif k == "l":
            op = (n << 6) | ((m - 3) << 3) | 7
            if op in range(0x70, 0x80) or op in range(0xa0, 0xc0) or op in range(0xd0, 0x100):
                continue
            c += bytes([op]) + struct.pack("<H", d) + x
        elif k == "p":
            op = (n << 6) | ((m - 3) << 3) | 6
            if op in range(0x70, 0x80) or op in range(0xa0, 0xc0) or op in range(0xd0, 0x100):
                continue
            c += bytes([op]) + x
        elif k == "m":
            c += bytes([0xa0 | (n << 3) | ((m - 3) >> 2), ((d & 63) << 2) | ((m - 3) & 3), d >> 6]) + x
        elif k == "ll":
            c += bytes([0xe0, n - 16]) + x
        elif k == "ls":
            c += bytes([0xe0 + n]) + x
        elif k == "ml":
            c += bytes([0xf0, m - 16])
        else:
            c += bytes([0xf0 + m])
        if m:
            last = d
        out += x
        if m and 0 < d <= len(out):
            copy(out, d, m)
        elif m:
            break
    if end:
        c += bytes([6]) + bytes(7)
    return bytes(c), out


def lznt1_chunk(rng, size, o):
    """One chunk of exactly `size` bytes (or about that, when loose)."""
    out, groups, cur, flags, k = bytearray(), bytearray(), bytearray(), 0, 0
    loose = o.get("loose")
    while len(out) < size:
        left = size - len(out)
        shift = 12
        while len(out) > 16 << (12 - shift):
            shift -= 1
        most = (1 << shift) + 2
        if out and (left >= 3 or loose) and rng.random() < 0.6:
            n = rng.choice([3, min(most, left), rng.randint(3, max(3, min(most, left))), rng.randint(3, max(3, min(most, left, 20)))])
            if loose:
                n = rng.randint(3, most)
            d = distance(rng, len(out), 1 << (16 - shift))
            if o.get("far") and rng.random() < 0.1:
                d = min(len(out) + 1, 1 << (16 - shift))
            cur += struct.pack("<H", ((d - 1) << shift) | (n - 3))
            flags |= 1 << k
            if d > len(out):
                break
            copy(out, d, n)
        else:
            x = literals(rng, 1)
            cur += x
            out += x
        k += 1
        if k == 8:
            groups += bytes([flags]) + cur
            cur, flags, k = bytearray(), 0, 0
    if k or cur:
        groups += bytes([flags]) + cur
    return bytes(groups), bytes(out)


def lznt1(rng, sizes, o={}):
    c, out = bytearray(), bytearray()
    for s in sizes:
        if rng.random() < 0.25:
            x = literals(rng, s)
            c += struct.pack("<H", 0x3000 | (s - 1)) + x
            out += x
            continue
        for _ in range(20):
            g, x = lznt1_chunk(rng, s, o)
            if len(g) <= 4096:
                break
        else:
            x = literals(rng, s)
            c += struct.pack("<H", 0x3000 | (s - 1)) + x
            out += x
            continue
        c += struct.pack("<H", 0xb000 | (len(g) - 1)) + g
        out += x
    if rng.random() < 0.4:
        c += bytes(2) + bytes(rng.choice([0, 0, 3]))
    return bytes(c), bytes(out)


# ---- LZFSE
LBITS = [0] * 16 + [2, 3, 5, 8]
MBITS = [0] * 16 + [3, 5, 8, 11]
DBITS = [i // 4 for i in range(64)]


def bases(bits):
    out, b = [], 0
    for n in bits:
        out.append(b)
        b += 1 << n
    return out


def value_symbol(v, bits):
    base = bases(bits)
    s = max(i for i in range(len(bits)) if base[i] <= v)
    return s, v - base[s], bits[s]


def freqs(rng, symbols, size, total, skew=0.5):
    """Frequencies of sum `total` with every symbol of `symbols`."""
    f = [0] * size
    for s in set(symbols):
        f[s] = 1
    if not symbols:
        f[rng.randrange(size)] = 1
    have = [i for i in range(size) if f[i]]
    if len(have) < size and rng.random() < 0.3:
        x = rng.choice([i for i in range(size) if not f[i]])
        f[x] = 1
        have.append(x)
    while len(have) > total:
        raise ValueError("too many symbols")
    left = total - len(have)
    while left:
        n = rng.randint(1, left) if rng.random() < skew else min(left, rng.randint(1, 4))
        f[rng.choice(have)] += n
        left -= n
    return f


class Fse:
    def __init__(self, f, n):
        self.f, self.n, self.low = f, n, []
        c = 0
        for x in f:
            self.low.append(c)
            c += x

    def encode(self, sym, x):
        """The state (in 0..n-1) before sym when the state after it is x: state, bits, count."""
        X = x + self.n
        f = self.f[sym]
        k = 0
        while X >> k >= 2 * f:
            k += 1
        return self.low[sym] + (X >> k) - f, X & ((1 << k) - 1), k


def put(stream, v, n):
    stream += [(v >> (n - 1 - i)) & 1 for i in range(n)]


def payload(bits, more=0):
    """Bits in reading order; the bytes are read from the last to the first.  The padding is
    before the first bits; `more` unread bytes follow (that is, are stored first)."""
    pad = -len(bits) % 8
    b = [0] * pad + bits
    by = [sum(y << (7 - j) for j, y in enumerate(b[i:i + 8])) for i in range(0, len(b), 8)]
    return bytes(more) + bytes(by[::-1]), pad


def freq_bits(v):
    """Bits, least significant first."""
    def lsb(x, n):
        return [(x >> i) & 1 for i in range(n)]
    if v < 2:
        return [0, v]
    if v < 4:
        return [1, 0, v - 2]
    if v < 8:
        return [1, 1, 0] + lsb(v - 4, 2)
    if v < 24:
        return [1, 1, 1, 0] + lsb(v - 8, 4)
    return [1, 1, 1, 1] + lsb(v - 24, 10)


def lzfse_block(rng, version, size, out, o):
    """A coded block that adds about `size` bytes to out."""
    before = len(out)
    lits, lmd, dist = bytearray(), [], 0
    alphabet = literals(rng, rng.choice([1, 2, 10, 40]))
    while len(out) - before < size:
        L = rng.choice([0, 1, 2, 3, 15, 16, 19, 20, 27, 28, 59, 60, 100, rng.randint(0, 30)])
        if size > 3000:
            L = rng.choice([L, 315, 100])
        M = rng.choice([0, 1, 3, 15, 16, 23, 24, 55, 56, 311, 312, rng.randint(0, 60), rng.randint(0, 20)])
        if size > 3000:
            M = rng.choice([M, 2359, 400])
        x = bytes(rng.choice(alphabet) for _ in range(L))
        if M and len(out) + L == 0:
            continue
        if M == 0 and not lmd and rng.random() < 0.7 and not dist:
            D = 0
        elif dist and rng.random() < 0.3 and dist <= len(out) + L:
            D = 0
        else:
            D = distance(rng, max(1, len(out) + L), 262139)
        if M and D == 0 and not dist:
            D = 1
        lits += x
        out += x
        if D:
            dist = D
        if o.get("fard") and rng.random() < 0.2:
            D = rng.choice([len(out) + 1, 262139])
            lmd.append((L, M, D))
            break
        if M:
            copy(out, dist, M)
        lmd.append((L, M, D))
    return lzfse_write(rng, version, len(out) - before, lits, lmd, alphabet, o)


def lzfse_write(rng, version, raw, lits, lmd, alphabet, o):
    while len(lits) % 4:
        lits.append(rng.choice(alphabet))
    nlit = len(lits)
    syms = [tuple(value_symbol(v, b) for v, b in zip(t, (LBITS, MBITS, DBITS))) for t in lmd]
    try:
        lf = freqs(rng, [s[0][0] for s in syms], 20, 64)
        mf = freqs(rng, [s[1][0] for s in syms], 20, 64)
        df = freqs(rng, [s[2][0] for s in syms], 64, 256)
        xf = freqs(rng, list(lits), 256, 1024, o.get("skew", 0.5))
    except ValueError:
        raise KeyError
    if o.get("freqs"):
        o["freqs"]([lf, mf, df, xf])
    xc, lc, mc, dc = Fse(xf, 1024), Fse(lf, 64), Fse(mf, 64), Fse(df, 256)
    final = (lambda n: rng.randrange(n)) if o.get("final") else (lambda n: 0)
    # literals
    st = [final(1024) for _ in range(4)]
    chunks = []
    for i in range(nlit - 1, -1, -1):
        s, b, k = xc.encode(lits[i], st[i % 4])
        st[i % 4] = s
        x = []
        put(x, b, k)
        chunks.append(x)
    bits = [y for x in chunks[::-1] for y in x]
    ldata, lpad = payload(bits, rng.choice([0, 0, 0, 1, 8]) if o.get("more") else 0)
    states = st
    l, m, d = final(64), final(64), final(256)
    chunks = []
    for t in reversed(syms):
        x = []
        l, b, k = lc.encode(t[0][0], l)
        put(x, b, k)
        put(x, t[0][1], t[0][2])
        m, b, k = mc.encode(t[1][0], m)
        put(x, b, k)
        put(x, t[1][1], t[1][2])
        d, b, k = dc.encode(t[2][0], d)
        put(x, b, k)
        put(x, t[2][1], t[2][2])
        chunks.append(x)
    bits = [y for x in chunks[::-1] for y in x]
    mdata, mpad = payload(bits, rng.choice([0, 0, 0, 1, 8]) if o.get("more") else 0)
    allf = lf + mf + df + xf
    raw += o.get("raw", 0)
    nlmd = len(lmd) + o.get("nlmd", 0)
    nlit += o.get("nlit", 0)
    lsize, msize = len(ldata) + o.get("lsize", 0), len(mdata) + o.get("msize", 0)
    if max(lsize, msize, nlit, nlmd) >= 1 << 20 or min(lsize, msize, nlit, nlmd) < 0:
        raise KeyError
    if version == 1:
        head = b"bvx1" + struct.pack("<I", raw)
        head += struct.pack("<IIIIIi4HiHHH", len(ldata) + len(mdata), nlit, nlmd, lsize, msize, -lpad, *states, -mpad, l, m, d)
        head += struct.pack("<360H", *[x & 0xffff for x in allf]) + bytes(0)
        return head + ldata + mdata
    fb = [y for x in allf for y in freq_bits(x)]
    fb += [0] * (-len(fb) % 8)
    ftab = bytes(sum(y << j for j, y in enumerate(fb[i:i + 8])) for i in range(0, len(fb), 8))
    if o.get("nofreq"):
        ftab = b""
    if o.get("cutfreq"):
        ftab = ftab[:rng.randrange(1, len(ftab))]
    f1 = nlit | (lsize << 20) | (nlmd << 40) | ((7 - lpad) << 60)
    f2 = states[0] | (states[1] << 10) | (states[2] << 20) | (states[3] << 30) | (msize << 40) | ((7 - mpad) << 60)
    f3 = (32 + len(ftab)) | (l << 32) | (m << 42) | (d << 52)
    return b"bvx2" + struct.pack("<IQQQ", raw, f1, f2, f3) + ftab + ldata + mdata


def lzfse(rng, sizes, o={}, kinds="-n12"):
    c, out = bytearray(), bytearray()
    bad = rng.randrange(len(sizes)) if sizes else 0
    for i, s in enumerate(sizes):
        k = rng.choice(kinds)
        oo = o if i == bad or "freqs" not in o and "raw" not in o else {}
        if k == "-":
            x = literals(rng, s)
            out += x
            c += b"bvx-" + struct.pack("<I", len(x) + oo.get("raw", 0)) + x
        elif k == "n":
            before = len(out)
            x, out = lzvn(rng, s, out if rng.random() < 0.6 else bytearray(out), bad=o.get("badn", 0.0), exact=rng.random() < 0.5)
            c += b"bvxn" + struct.pack("<II", len(out) - before + oo.get("raw", 0), len(x)) + x
        else:
            c += lzfse_block(rng, int(k), s, out, oo)
    end = o.get("end", b"bvx$")
    return bytes(c + end), bytes(out)


# ---- compression of given data
def parse(rng, data, most, maxd, maxl=300):
    """[(literals, size, distance)] for the data; greedy with some randomness."""
    out, seen, lit, i = [], {}, 0, 0
    n = len(data)
    while i < n:
        key = data[i:i + 4]
        j = seen.get(key)
        seen[key] = i
        if j is not None and len(key) == 4 and i - j <= maxd and rng.random() < 0.97:
            m = 4
            while m < most and i + m < n and data[j + m] == data[i + m]:
                m += 1
            out.append((bytes(data[i - lit:i]), m, i - j))
            i += m
            lit = 0
        else:
            i += 1
            lit += 1
            if lit == maxl:
                out.append((bytes(data[i - lit:i]), 0, 0))
                lit = 0
    if lit:
        out.append((bytes(data[n - lit:]), 0, 0))
    return out


def adc_encode(rng, data):
    c = bytearray()
    for x, m, d in parse(rng, data, 67, 65536, 128):
        if x:
            c.append(127 + len(x))
            c += x
        if m and m <= 18 and d <= 1024:
            c += bytes([(m - 3) * 4 + ((d - 1) >> 8), (d - 1) & 255])
        elif m:
            c += bytes([64 + m - 4]) + struct.pack(">H", d - 1)
    return bytes(c)


def lzvn_encode(rng, data):
    c = bytearray()
    for x, m, d in parse(rng, data, 271, 65535, 271):
        while x:
            k = x[:15] if len(x) < 16 else x
            c += bytes([0xe0 + len(k)]) if len(k) < 16 else bytes([0xe0, len(k) - 16])
            c += k
            x = x[len(k):]
        if m:
            c += bytes([0x07 | (min(m, 10) - 3) << 3]) + struct.pack("<H", d)
            m -= min(m, 10)
        if m >= 16:
            c += bytes([0xf0, m - 16])
        elif m:
            c += bytes([0xf0 + m])
    return bytes(c) + b"\x06" + bytes(7)


def lzfse_encode(rng, data):
    c = bytearray()
    done = 0
    while done < len(data) or not c:
        part = data[done:done + rng.choice([30000, 20000, 500])]
        done += len(part)
        k = rng.choice("-n222")
        if k == "-" or not part:
            c += b"bvx-" + struct.pack("<I", len(part)) + part
        elif k == "n":
            x = lzvn_encode(rng, part)
            c += b"bvxn" + struct.pack("<II", len(part), len(x)) + x
        else:
            t = parse(rng, part, 2359, 262139, 300)
            lits = bytearray(b"".join(x for x, m, d in t))
            if len(lits) > 39000:
                c += b"bvx-" + struct.pack("<I", len(part)) + part
                continue
            try:
                c += lzfse_write(rng, 2, len(part), lits, [(len(x), m, d if m else 0) if i or m else (len(x), 0, 0) for i, (x, m, d) in enumerate(t)], lits or b"a", {})
            except KeyError:
                c += b"bvx-" + struct.pack("<I", len(part)) + part
    return bytes(c + b"bvx$")


def lznt1_encode(rng, data):
    """LZNT1 for the data, in chunks of 4096 bytes."""
    res = bytearray()
    for base in range(0, len(data), 4096):
        x = data[base:base + 4096]
        n = len(x)
        seen, groups, cur, flags, k, i = {}, bytearray(), bytearray(), 0, 0, 0
        shift = 12
        while i < n:
            while i > 16 << (12 - shift):
                shift -= 1
            key = x[i:i + 3]
            j = seen.get(key)
            seen[key] = i
            if j is not None and len(key) == 3 and i - j <= 1 << (16 - shift) and (len(key) == 3):
                m, most = 3, min((1 << shift) + 2, n - i)
                while m < most and x[j + m] == x[i + m]:
                    m += 1
                cur += struct.pack("<H", ((i - j - 1) << shift) | (m - 3))
                flags |= 1 << k
                i += m
            else:
                cur += x[i:i + 1]
                i += 1
            k += 1
            if k == 8:
                groups += bytes([flags]) + cur
                cur, flags, k = bytearray(), 0, 0
        if k:
            groups += bytes([flags]) + cur
        if n == 4096 and (len(groups) > 4095 or rng.random() < 0.04):
            res += struct.pack("<H", 0x3000 | (n - 1)) + x
        else:
            res += struct.pack("<H", 0xB000 | (len(groups) - 1)) + groups
    return bytes(res)


# LZX (the variant of WIM and WOF)
class Words:
    """16-bit little-endian words filled from the most significant bit."""
    def __init__(self):
        self.out, self.bits = bytearray(), []

    def num(self, v, n):
        self.bits += [(v >> (n - 1 - i)) & 1 for i in range(n)]
        while len(self.bits) >= 16:
            self.word(16)

    code = num

    def word(self, n):
        w = sum(b << (15 - i) for i, b in enumerate(self.bits[:16]))
        del self.bits[:16]
        self.out += bytes([w & 255, w >> 8])

    def align(self, always):
        if self.bits or always:
            self.bits += [0] * (16 - len(self.bits))
            self.word(16)


def lzx_slot(d):
    for slot in range(3, 50):
        base = (2 + slot % 2) * 2 ** (slot // 2 - 1) - 2
        extra = slot // 2 - 1 if slot >= 4 else 0
        if base <= d < base + 2 ** extra:
            return slot, extra, d - base
    raise ValueError(d)


def lzx_calls(data):
    """The targets of calls made absolute, as compressors do."""
    b = bytearray(data)
    p = 0
    while p < len(b) - 10:
        if b[p] == 0xE8:
            v = int.from_bytes(b[p + 1:p + 5], "little", signed=True)
            if -p <= v < 12000000:
                b[p + 1:p + 5] = (v + p if v < 12000000 - p else v - 12000000).to_bytes(4, "little", signed=True)
            p += 5
        else:
            p += 1
    return bytes(b)


def lzx_undo(data):
    b = bytearray(data)
    p = 0
    while p < len(b) - 10:
        if b[p] == 0xE8:
            v = int.from_bytes(b[p + 1:p + 5], "little", signed=True)
            if -p <= v < 12000000:
                b[p + 1:p + 5] = (v - p if v >= 0 else v + 12000000).to_bytes(4, "little", signed=True)
            p += 5
        else:
            p += 1
    return bytes(b)


def lzx_lens(rng, b, old, new):
    """The code lengths as changes, with runs at random."""
    syms, i = [], 0
    while i < len(new):
        run = 1
        while i + run < len(new) and new[i + run] == new[i]:
            run += 1
        d = (old[i] - new[i]) % 17
        if new[i] == 0 and run >= 20 and rng.random() < 0.9:
            n = min(run, rng.choice([51, 51, 20, 33]))
            syms.append((18, n - 20, 5))
        elif new[i] == 0 and run >= 4 and rng.random() < 0.8:
            n = min(run, rng.choice([19, 19, 4, 5]))
            syms.append((17, n - 4, 4))
        elif run >= 4 and rng.random() < 0.8:
            n = min(run, rng.choice([4, 5]))
            syms += [(19, n - 4, 1), (d, 0, 0)]
        else:
            n = 1
            syms.append((d, 0, 0))
        i += n
    used = sorted({s for s, _, _ in syms})
    while len(used) < 2 or rng.random() < 0.3 and len(used) < 20:
        s = rng.randrange(20)
        if s not in used:
            used.append(s)
    pre = random_lens(rng, used, 20, 15)
    for l in pre:
        b.num(l, 4)
    pc = codes(pre)
    for s, v, n in syms:
        b.code(*pc[s])
        b.num(v, n)


def lzx_write(rng, tokens_of, o={}):
    """tokens_of: the blocks, each (kind, tokens); tokens are ("lit", byte), ("copy", d, n)
    or, in uncompressed blocks, the bytes."""
    b = Words()
    main, long_ = [0] * 496, [0] * 249
    r = [1, 1, 1]
    for kind, toks in tokens_of:
        size = len(toks) if kind == 3 else sum(1 if t[0] == "lit" else t[2] for t in toks)
        b.num(kind, 3)
        if size == 32768 and rng.random() < 0.9:
            b.num(1, 1)
        else:
            b.num(0, 1)
            b.num(size + o.get("size", 0), 16)
        if kind == 3:
            b.align(True)
            r = [rng.choice([x, 1, rng.randint(1, 300)]) for x in r]
            if o.get("zero"):
                r[rng.randrange(3)] = 0
            for x in r:
                b.out += x.to_bytes(4, "little")
            b.out += bytes(toks)
            if len(toks) % 2:
                b.out.append(rng.choice([0, 0, rng.randrange(256)]))
            continue
        items, rr = [], list(r)
        for t in toks:
            if t[0] == "lit":
                items.append((t[1], None, None, None))
                continue
            _, d, n = t
            if d in rr and rng.random() < 0.8:
                slot, extra, v = rr.index(d), 0, 0
                rr[0], rr[slot] = rr[slot], rr[0]
            else:
                slot, extra, v = lzx_slot(d)
                rr = [d, rr[0], rr[1]]
            head = min(n - 2, 7)
            low = v & 7 if kind == 2 and slot >= 8 else None
            items.append((256 + 8 * slot + head, n - 9 if head == 7 else None, (v >> 3, extra - 3) if low is not None else (v, extra), low))
        r = rr

        def code(used, size, most, few):
            used = sorted(set(used))
            while len(used) < few or rng.random() < 0.5 and len(used) < size:
                s = rng.randrange(size)
                if s not in used:
                    used.append(s)
            return random_lens(rng, used, size, most)
        m2 = code([x[0] for x in items], 496, 16, 2)
        ls = [x[1] for x in items if x[1] is not None]
        l2 = code(ls, 249, 16, 2) if ls or rng.random() < 0.4 else [0] * 249
        if kind == 2:
            al = code([x[3] for x in items if x[3] is not None], 8, 7, 2)
            for l in al:
                b.num(l, 3)
            ac = codes(al)
        lzx_lens(rng, b, main[:256], m2[:256])
        lzx_lens(rng, b, main[256:], m2[256:])
        lzx_lens(rng, b, long_, l2)
        main, long_ = m2, l2
        mc, lc = codes(main), codes(long_)
        for s, l, ex, low in items:
            b.code(*mc[s])
            if l is not None:
                b.code(*lc[l])
            if ex is not None:
                b.num(*ex)
            if low is not None:
                b.code(*ac[low])
    b.align(False)
    return bytes(b.out)


def lzx(rng, sizes, o={}):
    """A stream of blocks of about the sizes given; (stream, data)."""
    out, blocks = bytearray(), []
    recents = [1]
    quiet = o.get("calls") is None
    for size in sizes:
        kind = rng.choice(o.get("kinds", [1, 2, 3]))
        start = len(out)
        if kind == 3:
            lit = literals(rng, size)
            lit = bytes(0xE9 if x == 0xE8 and quiet else x for x in lit)
            out += lit
            blocks.append((3, lit))
            continue
        toks = []
        while len(out) - start < size:
            left = size - (len(out) - start)
            if len(out) > 0 and left >= 2 and rng.random() < 0.6:
                d = rng.choice(recents[-3:]) if rng.random() < 0.4 else distance(rng, len(out), 32765)
                d = min(d, len(out))
                n = min(left, rng.choice([2, 3, 4, 8, 9, 10, rng.randint(2, 60), 257, 256]) if not o.get("shortonly") else rng.randint(2, 8))
                recents.append(d)
                toks.append(("copy", d, n))
                copy(out, d, n)
            else:
                x = literals(rng, 1)[0]
                if rng.random() < 0.1 and not quiet:
                    x = 0xE8
                elif x == 0xE8 and quiet:
                    x = 0xE9
                toks.append(("lit", x))
                out.append(x)
        blocks.append((kind, toks))
    return lzx_write(rng, blocks, o), lzx_undo(bytes(out))


def lzx_encode(rng, data, chunk=32768):
    """data as one LZX stream."""
    raw = lzx_calls(data)
    blocks, i = [], 0
    while i < len(raw):
        n = min(len(raw) - i, rng.choice([32768, 5000, 20000]))
        kind = rng.choice([1, 2, 2, 3])
        if kind == 3:
            blocks.append((3, raw[i:i + n]))
        else:
            toks, j, seen = [], i, {}
            while j < i + n:
                key = raw[j:j + 3]
                d = j - seen[key] if key in seen and len(key) == 3 and j - seen[key] < 32766 else 0
                k = 0
                while d and j + k < i + n and k < 257 and raw[j + k] == raw[j + k - d]:
                    k += 1
                seen[key] = j
                if k >= 3:
                    toks.append(("copy", d, k))
                    j += k
                else:
                    toks.append(("lit", raw[j]))
                    j += 1
            blocks.append((kind, toks))
        i += n
    return lzx_write(rng, blocks)
