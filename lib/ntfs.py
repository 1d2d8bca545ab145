"""Makes and writes NTFS volumes."""
import struct
from images import Image, pattern
from lz import lznt1_encode, lzx_encode
from streams import big

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.+,;=[]'~éÖßабвЯЁёωΩĀāǆ中日€𐐷"
RANGES = [[97, 122, 1, -32], [224, 246, 1, -32], [248, 254, 1, -32], [255, 255, 1, 121], [257, 303, 2, -1], [314, 328, 2, -1], [0x1C6, 0x1C6, 1, -2],
          [0x3B1, 0x3C1, 1, -32], [0x3C3, 0x3CB, 1, -32], [0x430, 0x44F, 1, -32], [0x450, 0x45F, 1, -80], [0x2170, 0x217F, 1, -16], [0xFF41, 0xFF5A, 1, -32]]
OVERLAY = [ord(x) for x in "WofCompressedData"]


def units(s):
    b = s.encode("utf-16-le", "surrogatepass")
    return list(struct.unpack("<%dH" % (len(b) // 2), b))


def pack(u):
    return struct.pack("<%dH" % len(u), *u)


def pad(b):
    return b + bytes(-len(b) % 8)


def protect(data, at, value):
    """The last two bytes of every 512 are replaced by a value, kept after it in the array at `at`."""
    data = bytearray(data)
    struct.pack_into("<H", data, at, value)
    for k in range(len(data) // 512):
        end = 512 * (k + 1)
        data[at + 2 + 2 * k:at + 4 + 2 * k] = data[end - 2:end]
        struct.pack_into("<H", data, end - 2, value)
    return data


class Volume:
    def __init__(self, rng):
        r = self.rng = rng
        self.bps = r.choice([512, 512, 512, 512, 1024, 4096, 256])
        self.bs = r.choice([512, 1024, 2048, 4096, 4096, 4096, 4096, 8192, 16384, 65536, 1 << 17, 1 << 21 if r.random() < 0.3 else 4096])
        self.bs = max(self.bs, self.bps)
        if self.bs // self.bps > 4096:
            self.bps = 512
        self.mftsz = r.choice([1024, 1024, 1024, 4096, 2048, 512])
        self.isz = r.choice([4096, 4096, 4096, 1024, 2048, 8192, 512, 32768])
        self.old = r.random() < 0.2         # entries without their number
        self.label = r.choice([None, [], units("disk"), units("Ünï 中"), [r.randrange(1, 65536) for _ in range(r.randrange(1, 32))]])
        self.serial = bytes(r.randrange(256) for _ in range(8))
        self.version, self.vflags = r.choice([(3, 1), (3, 1), (1, 2), (3, 0)]), r.choice([0, 1, 0x8001, 0xFFFF])
        self.has_info = r.random() < 0.95
        self.up = [list(x) for x in RANGES]
        if r.random() < 0.3:
            lo = r.choice([0x4E00, 0xE000, 0xFE00])
            self.up.append([lo, lo + r.randrange(200), 1, r.choice([1, -7, 300])])
        self.map = {}
        for a, b, s, d in self.up:
            for c in range(a, b + 1, s):
                self.map[c] = c + d
        limit = min((1 << 40) - (1 << 30), (1 << 31) * 512) // self.bs
        self.clusters = min(limit, r.choice([4000000, 60000, 60000, limit, 1 << 28]), (1 << 31) - 2)
        if self.clusters * self.bs < 1 << 26:
            self.clusters = (1 << 26) // self.bs
        self.used = [(0, max(1, 8192 // self.bs))]
        self.entries, self.nodes, self.disk = {}, [], []
        self.numbers = set(range(0, 24))
        self.wrong = False

    def upper(self, u):
        return [self.map.get(c, c) for c in u]

    def take(self, n, at=None):
        r = self.rng
        for _ in range(300):
            a = at if at is not None else r.choice([r.randrange(1, self.clusters - n), r.randrange(1, self.clusters - n), self.used[-1][1] + r.choice([0, 0, 1, 5, 130]),
                                                    self.clusters - n, min(max(1, self.used[-1][0] - r.choice([n, n + 1, 128, 200])), self.clusters)])
            if a >= 1 and a + n <= self.clusters and all(a + n <= x or y <= a for x, y in self.used):
                self.used.append((a, a + n))
                return a
            if at is not None:
                return None
        raise MemoryError

    def fragments(self, n, unit=1, most=8):
        """n clusters in some runs, each of a number that unit divides."""
        r = self.rng
        res = []
        while n:
            k = n if r.random() < 0.4 or len(res) > most else unit * r.randrange(1, n // unit + 1)
            a = self.take(k)
            if res and res[-1][1] is not None and res[-1][0] + res[-1][1] == a and r.random() < 0.7:
                res[-1] = (res[-1][0] + k, res[-1][1])
            else:
                res.append((k, a))
            n -= k
        return res

    def encode(self, runs):
        """The bytes of runs."""
        r = self.rng
        out, last = bytearray(), 0
        for n, a in runs:
            m = (n.bit_length() + 7) // 8
            if r.random() < 0.3 and n >> (8 * m - 1) == 0:
                pass
            m = max(m, 1)
            if n >> (8 * m - 1):         # room for a sign, as is usual
                m += r.choice([0, 1])
            if r.random() < 0.05:
                m = r.randrange(m, 9)
            if a is None:
                out += bytes([m]) + n.to_bytes(m, "little")
                continue
            d = a - last
            w = 1
            while not -(1 << (8 * w - 1)) <= d < 1 << (8 * w - 1):
                w += 1
            if r.random() < 0.05:
                w = r.randrange(w, 9)
            out += bytes([m | w << 4]) + n.to_bytes(m, "little") + d.to_bytes(w, "little", signed=True)
            last = a
        return bytes(out)

    def number(self):
        r = self.rng
        n = max(self.numbers) + r.choice([1, 1, 1, 2, 3])
        self.numbers.add(n)
        return n

    # ---- attributes: the model's record, its bytes
    def resident(self, t, name, data, shown=None, **more):
        m = dict({"t": t, "name": name if name else [-1], "res": True, "first": 0, "data": list(data) if shown is None else shown, "list": []}, **more)
        return {"m": m, "b": self.resident_bytes(t, name, data)}

    def resident_bytes(self, t, name, data):
        r = self.rng
        off = 24 + 2 * len(name or [])
        off += -off % 8
        b = struct.pack("<IIBBHHHIHBB", t, 0, 0, len(name or []), r.choice([24, 24, 0]) if not name else 24, 0, r.randrange(99), len(data), off, r.choice([0, 1]), 0)
        b = (b + pack(name or [])).ljust(off, b"\0") + data
        b = pad(b)
        return b[:4] + struct.pack("<I", len(b)) + b[8:]

    def part(self, t, name, runs, first, size, valid, comp, flags, whole, **more):
        """One of the parts of an attribute: runs from cluster `first`."""
        r = self.rng
        n = sum(x[0] for x in runs)
        raw = self.encode(runs) + b"\0"
        alloc = whole * self.bs
        hdr = 72 if comp else 64
        off = hdr + 2 * len(name or [])
        off += -off % 8
        s = (alloc, size, valid) if first == 0 else r.choice([(0, 0, 0), (alloc, size, valid)])
        last = first + n - 1
        if t == 128 and r.random() < 0.02:
            last = -1
        b = struct.pack("<IIBBHHHQQHH4xQQQ", t, 0, 1, len(name or []), hdr if name else r.choice([hdr, 0]), flags, r.randrange(99), first, last & (1 << 64) - 1, off,
                        comp.bit_length() - 1 if comp else 0, *s)
        if comp:
            b += struct.pack("<Q", sum(x[0] for x in runs if x[1] is not None) * self.bs)
        b = (b + pack(name or [])).ljust(off, b"\0") + raw
        b = pad(b)
        b = b[:4] + struct.pack("<I", len(b)) + b[8:]
        m = dict({"t": t, "name": name if name else [-1], "res": False, "first": first, "runs": list(raw), "size": big(s[1]), "valid": big(s[2]),
                  "comp": comp if flags & 0xFF else 0, "list": []}, **more)
        return {"m": m, "b": b}

    def nonresident(self, t, name, runs, size, valid, comp=0, flags=0, room=None, split=0.1, **more):
        """Parts of an attribute, each small enough."""
        r = self.rng
        room = room or self.room() - 8
        whole = sum(x[0] for x in runs)
        parts, cur, first = [], [], 0
        for k, x in enumerate(runs):
            trial = self.part(t, name, cur + [x], first, size, valid, comp, flags, whole, **more)
            # widths of numbers vary
            if cur and (len(trial["b"]) + 14 * (len(cur) + 1) > min(room, 420) or r.random() < split):
                parts.append((cur, first))
                first += sum(y[0] for y in cur)
                cur = []
            cur.append(x)
        parts.append((cur, first))
        return [self.part(t, name, c, f, size, valid, comp, flags, whole, **more) for c, f in parts]

    # ---- entries
    def start(self):
        at = 42 if self.old else 48
        n = at + 2 + 2 * (self.mftsz // 512)
        return n + -n % 8

    def room(self):
        return self.mftsz - self.start() - 8

    def entry(self, n, attrs, seq, inuse=True, is_dir=False, state="ok", base=(0, 0)):
        """Makes the entry, and others if there is no room, or at random; attrs are lists of parts."""
        r = self.rng
        parts = [p for a in attrs for p in a]
        parts.sort(key=lambda p: (p["m"]["t"], p["m"]["name"], p["m"]["first"]))
        total = sum(len(p["b"]) for p in parts)
        if total <= self.room() and (r.random() < 0.9 or len(parts) < 3) or n in (3, 10):
            if total > self.room():
                raise MemoryError
            return self.put(n, parts, seq, inuse, is_dir, state, base)
        # attributes elsewhere: which, and where
        where, ext, left = {}, [], self.room()
        stay = [i for i, p in enumerate(parts) if p["m"]["t"] == 16 or n == 0 and p["m"]["t"] == 128 and p["m"]["first"] == 0]
        left -= sum(len(parts[i]["b"]) for i in stay)
        lists = self.room() // 3 if self.room() // 3 > 33 * len(parts) + sum(2 * len(p["m"]["name"]) for p in parts) else 0
        left -= max(lists, 90)
        for i, p in enumerate(parts):
            if i in stay:
                where[i] = n
            elif len(p["b"]) <= left and r.random() < 0.5:
                where[i] = n
                left -= len(p["b"])
            else:
                ok = [e for e in ext if e[1] >= len(p["b"])]
                if not ok or r.random() < 0.3:
                    k = self.low() if n == 0 else self.number()
                    ext.append([k, self.room(), r.randrange(1, 9)])
                    ok = [ext[-1]]
                e = r.choice(ok)
                if e[1] < len(p["b"]):
                    raise MemoryError
                e[1] -= len(p["b"])
                where[i] = e[0]
        seqs = {e[0]: e[2] for e in ext}
        seqs[n] = seq
        data, model = bytearray(), []
        for i, p in enumerate(parts):
            m = p["m"]
            name = [] if m["name"] == [-1] else m["name"]
            e = struct.pack("<IHBBQQH", m["t"], 0, len(name), 26, m["first"], where[i] | seqs[where[i]] << 48, r.randrange(99)) + pack(name)
            e = pad(e)
            data += e[:4] + struct.pack("<H", len(e)) + e[6:]
            model.append([m["t"], where[i]])
        data = bytes(data)
        if len(data) + 24 <= max(lists, 90) and r.random() < 0.7 and lists:
            l = [self.resident(32, None, data, shown=[], list=model)]
        else:
            runs = self.fragments(-(-len(data) // self.bs), most=2)
            self.store(runs, data)
            l = [self.part(32, None, runs, 0, len(data), len(data), 0, 0, sum(x[0] for x in runs), list=model)]
            if len(l[0]["b"]) > max(lists, 90):
                raise MemoryError
        for k, _, s in ext:
            self.put(k, [p for i, p in enumerate(parts) if where[i] == k], s, inuse, False, "ok", (n, seq))
        mine = l + [p for i, p in enumerate(parts) if where[i] == n]
        mine.sort(key=lambda p: p["m"]["t"])
        return self.put(n, mine, seq, inuse, is_dir, state, base)

    def low(self):
        k = self.rng.choice([x for x in range(12, 24) if x not in self.entries and x not in self.lows])
        self.lows.add(k)
        return k

    def put(self, n, parts, seq, inuse, is_dir, state, base):
        r = self.rng
        jsn = r.choice([0, r.randrange(1 << 20), r.getrandbits(64)])
        self.entries[n] = {"parts": parts, "seq": seq, "inuse": inuse, "dir": is_dir, "state": state, "base": base, "jsn": jsn}

    def entry_bytes(self, n, e):
        r = self.rng
        if e["state"] == "bad":
            return b"BAAD" + bytes(r.randrange(256) for _ in range(60)) + bytes(self.mftsz - 64)
        at = 42 if self.old else 48
        body = b"".join(p["b"] for p in e["parts"]) + b"\xff\xff\xff\xff"
        b = bytearray(self.mftsz)
        struct.pack_into("<4sHHQHHHHIIQH", b, 0, b"FILE", at, 1 + self.mftsz // 512, e["jsn"], e["seq"], 1, self.start(), (1 if e["inuse"] else 0) | (2 if e["dir"] else 0),
                         self.start() + len(body) + 4, self.mftsz, e["base"][0] | e["base"][1] << 48, 50)
        if not self.old:
            struct.pack_into("<I", b, 44, n)
        b[self.start():self.start() + len(body)] = body
        rest = self.start() + len(body) + 4
        if r.random() < 0.3:
            b[rest:] = bytes(r.randrange(256) for _ in range(len(b) - rest))
        b = protect(b, at, r.choice([1, r.randrange(1, 65536), 0xFFFF, 0]))
        if e["state"] == "torn":
            k = r.randrange(self.mftsz // 512) * 512 + 510 + r.randrange(2)
            b[k] ^= r.choice([1, 0x80, 0xFF])
        return bytes(b)

    # ---- contents
    def store(self, runs, data):
        for n, a in runs:
            self.disk.append((a * self.bs, data[:n * self.bs]))
            data = data[n * self.bs:]

    def plain(self, runs, most=1 << 23):
        per = self.bs // 512
        for n, a in runs:
            if a is not None:
                k = min(n * per, most // 512)
                self.disk.append((a * self.bs, ("p", a * per, k)))
                if k < n * per:
                    self.disk.append(((a + n) * self.bs - 512 * 64, ("p", (a + n) * per - 64, 64)))

    def model(self):
        es = []
        for n, e in sorted(self.entries.items()):
            es.append({"n": n, "state": e["state"], "seq": e["seq"], "inuse": e["inuse"], "base": list(e["base"]), "jsn": big(e["jsn"]),
                       "attrs": [p["m"] for p in e["parts"]]})
        return {"bs": self.bs, "mftsz": self.mftsz, "nents": self.nents, "label": [-1] if self.label is None else self.label, "serial": list(self.serial),
                "version": list(self.version) if self.has_info else [-1], "vflags": [self.vflags] if self.has_info else [-1], "up": self.up,
                "entries": es, "nodes": self.nodes, "wrong": bool(self.wrong)}

    def size_code(self, size):
        if size % self.bs == 0 and size // self.bs < 128 and self.rng.random() < 0.5:
            return size // self.bs
        return 256 - (size.bit_length() - 1)

    def boot(self):
        r = self.rng
        spc = self.bs // self.bps
        code = spc if spc <= 128 and (spc < 2 or r.random() < 0.8) else 256 - (spc.bit_length() - 1)
        if spc == 1:
            code = 1
        b = bytearray(512)
        b[0:3] = b"\xeb\x52\x90"
        b[3:11] = b"NTFS    " if self.wrong != "boot" else b"NTFS   \0"
        struct.pack_into("<HB", b, 11, self.bps, code)
        b[21] = 0xF8
        struct.pack_into("<QQQ", b, 40, self.clusters * spc - 1, self.mft[0][1], self.mirror)
        struct.pack_into("<II", b, 64, self.size_code(self.mftsz), self.size_code(self.isz))
        b[72:80] = self.serial
        b[510:] = b"\x55\xaa"
        return bytes(b)

    def write(self, path):
        f = Image(path)
        f.put(0, self.boot())
        for at, d in self.disk:
            f.put(at, pattern(1, d[1], d[2]) if isinstance(d, tuple) else d)
        place = []
        for n, a in self.mft:
            place.append((n * self.bs // self.mftsz, a * self.bs))
        first = 0
        for k, at in place:
            for n in range(first, first + k):
                if n in self.entries:
                    f.put(at + (n - first) * self.mftsz, self.entry_bytes(n, self.entries[n]))
            first += k
        f.close(self.clusters * self.bs)


def stamp(r):
    return r.choice([0, r.randrange(1, 1 << 63), 0x01C00000_00000000 + r.randrange(1 << 54), 1, 0x01D00000_00000000 + r.randrange(1 << 54)])


class Tree:
    """Files and directories."""

    def __init__(self, rng, v, budget):
        self.rng, self.v, self.budget = rng, v, budget
        self.paths = []         # (path, dir, number, {name: size}, torn)
        self.links = {}
        self.files = []
        self.marks = {}
        self.depth0 = True
        v.lows = set()
        r = rng
        self.root(r)
        self.deleted(r)
        self.system(r)

    def name(self, used, most=60):
        r, v = self.rng, self.v
        while True:
            n = r.choice([1, 2, 3, 5, 8, 12, r.randrange(1, 40), most])
            u = units("".join(r.choice(LETTERS) for _ in range(n)))[:most]
            if r.random() < 0.05:
                u = [r.choice([r.randrange(1, 65536), r.choice(list(v.map))]) for _ in u]
            u = [c for c in u if c not in (0x2F, 0x5C)]
            if not u or u == [46]:
                continue
            k = tuple(v.upper(u))
            if k not in used:
                used.add(k)
                return u

    def info(self, flags=None, versions=(0, 0)):
        r = self.rng
        b = struct.pack("<QQQQIIII", stamp(r), stamp(r), stamp(r), stamp(r), r.choice([0x20, 0, 0x2026, r.getrandbits(32)]) if flags is None else flags, *versions, r.choice([0, 5]))
        if r.random() < 0.7:
            b += struct.pack("<IIQQ", r.randrange(9), 0x100, 0, r.getrandbits(40))
        return self.v.resident(16, None, b)

    def file_name(self, parent, u, space, flags=0x20, size=0):
        r = self.rng
        return struct.pack("<QQQQQQQIIBB", parent[0] | parent[1] << 48, stamp(r), stamp(r), stamp(r), stamp(r), r.choice([0, size + 100]), r.choice([size, 0]), flags,
                           r.choice([0, 0xA000000C if flags & 0x400 else 7]), len(u), space) + pack(u)

    # ---- streams
    def stream(self, name, kind=None):
        """Parts of a $DATA attribute, its size and where to look."""
        r, v = self.rng, self.v
        kind = kind or r.choice(["res", "res", "plain", "plain", "plain", "sparse", "comp" if v.bs <= 4096 else "plain", "empty"])
        if kind == "res":
            d = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 8, 30, r.randrange(0, min(300, v.room() // 3))])))
            return [v.resident(128, name, d)], len(d), []
        if kind == "empty":
            return [v.part(128, name, [], 0, 0, 0, 0, 0, 0)], 0, []
        if kind == "comp":
            return self.compressed(name)
        most = max(1, min(60, (1 << 18) // v.bs))
        flags, comp = 0, 0
        runs = v.fragments(r.choice([1, 2, r.randrange(1, most + 1), most]), most=r.choice([2, 6, 30]))
        v.plain(runs)
        if kind == "sparse":
            flags, comp = r.choice([(0x8000, 16), (0x8000, 0), (0, 0)])
            some = []
            for x in runs:
                if r.random() < 0.6:
                    some.append((r.choice([1, 2, 16, 100, 1 << 20, r.randrange(1, 3000)]), None))
                some.append(x)
            runs = some + ([(r.choice([1, 5, 16, 70000]), None)] if r.random() < 0.5 else [])
            if r.random() < 0.1:
                runs = [(r.choice([1, 16, 1000]), None)]
            while sum(x[0] for x in runs) * v.bs >= 1 << 40:
                runs = [(min(n, 1000), a) if a is None else (n, a) for n, a in runs]
        total = sum(x[0] for x in runs)
        size = total * v.bs - r.choice([0, 1, v.bs - 1, r.randrange(v.bs), 0 if total < 3 else r.randrange(v.bs * 2)])
        valid = size if r.random() < 0.7 else r.choice([0, r.randrange(size + 1), size - size % v.bs, max(0, size - r.randrange(min(size, 3 * v.bs) + 1))])
        marks = [valid, size]
        at = 0
        for n, a in runs:
            at += n * v.bs
            marks.append(at)
        return v.nonresident(128, name, runs, size, valid, comp, flags, split=r.choice([0.02, 0.3])), size, marks

    def compressed(self, name):
        r, v = self.rng, self.v
        comp = r.choice([16, 16, 16, 8, 4, 2])
        unit = comp * v.bs
        runs, marks, kinds = [], [], []
        n = r.choice([1, 2, 3, r.randrange(1, 14), 20 if v.bs < 2048 else 4])
        for k in range(n):
            x = r.random()
            if x < 0.2:
                m = r.choice([1, 1, 1, 3])
                runs.append((comp * m, None))
                kinds += ["sparse"] * m
            elif x < 0.5:
                f = v.fragments(comp, most=r.choice([1, 3]))
                v.plain(f)
                runs += f
                kinds.append("raw")
            else:
                kinds.append("comp")
                runs.append(("comp", k))
        total = len(kinds) * unit
        size = total - r.choice([0, 1, r.randrange(unit), unit - 1])
        valid = size if r.random() < 0.8 else r.choice([0, r.randrange(size + 1), max(0, size - r.randrange(min(size, 3 * v.bs) + 1))])
        done, at = [], 0
        for x in runs:
            if x[0] != "comp":
                done.append(x)
                at += x[0] * v.bs
                continue
            a = v.take(1)
            plain = pattern(2, a * (v.bs // 512), unit // 512)
            if at + unit > size and r.random() < 0.7:
                need = size - at
                plain = plain[:min(unit, need + -need % 4096)] if r.random() < 0.5 else plain[:max(1, need)]
            data = lznt1_encode(r, plain)
            need = max(1, -(-len(data) // v.bs))
            if need >= comp:
                data = b"".join(struct.pack("<H", 0x3000 | (len(plain[i:i + 4096]) - 1)) + plain[i:i + 4096] for i in range(0, len(plain), 4096))
                # no gain: as is
                f = [(1, a)] + v.fragments(comp - 1, most=2)
                v.plain(f)
                done += f
            else:
                have = r.choice([need, need, r.randrange(need, comp)])
                f = [(1, a)] + (v.fragments(have - 1, most=2) if have > 1 else [])
                v.store(f, data + bytes(have * v.bs - len(data)))
                done += f + [(comp - have, None)]
            at += unit
        # neighbours become one, mostly
        runs = []
        for n, a in done:
            l = runs[-1] if runs else None
            if l and (a is None and l[1] is None or a is not None and l[1] is not None and l[0] + l[1] == a) and r.random() < 0.85:
                runs[-1] = (l[0] + n, l[1])
            else:
                runs.append((n, a))
        marks = [k * unit for k in range(len(kinds) + 1)] + [valid, size]
        return v.nonresident(128, name, runs, size, valid, comp, r.choice([1, 1, 0x8001]), split=r.choice([0.02, 0.2])), size, marks

    def overlay(self):
        """A file whose contents are chunks in another stream."""
        r, v = self.rng, self.v
        m = r.choice([0, 1, 1, 1, 2, 3])
        chunk = [4096, 32768, 8192, 16384][m]
        size = r.choice([1, chunk - 1, chunk, chunk + 1, r.randrange(1, 5 * chunk)])
        n = -(-size // chunk)
        chunks, data, at = [], {}, 0
        for k in range(n):
            have = min(chunk, size - k * chunk)
            chunks.append([4 * (n - 1) + at, -1])
            if m == 1 and r.random() < 0.6:
                s0 = 64 * r.randrange(1 << 20)
                x = lzx_encode(r, pattern(3, s0, -(-have // 512))[:have])
                if len(x) < have:
                    chunks[-1][1] = s0
                    data[4 * (n - 1) + at] = x
                    have = len(x)
            at += have
        total = 4 * (n - 1) + at
        runs = v.fragments(-(-total // v.bs), most=4)
        v.plain(runs)
        data[0] = b"".join(struct.pack("<I", x - 4 * (n - 1)) for x, _ in chunks[1:]) + data.get(0, b"")
        for at, left in data.items():
            pos = 0
            for k, a in runs:
                if left and at < pos + k * v.bs:
                    have = pos + k * v.bs - at
                    v.disk.append((a * v.bs + at - pos, left[:have]))
                    left, at = left[have:], at + min(have, len(left))
                pos += k * v.bs
        need = -(-size // v.bs)
        tag = v.resident(192, None, struct.pack("<IHHIIII", 0x80000017, 16, 0, 1, 2, 1, m))
        a = v.nonresident(128, None, [(need, None)], size, r.choice([size, size, 0]), r.choice([0, 16]), 0x8000)
        b = v.nonresident(128, OVERLAY, runs, total, total, chunks=chunks)
        return [[tag], a, b], {(): (size, [0, chunk, chunk * 2, size])}

    def link(self):
        r, v = self.rng, self.v
        most = max(4, min(60, v.room() // 10))
        t = units("".join(r.choice(LETTERS + "\\:?") for _ in range(r.randrange(1, most))))
        p = r.choice([[], t[:2], t])
        if r.random() < 0.5:
            names, so, po = pack(t) + pack(p), 0, 2 * len(t)
        else:
            names, so, po = pack(p) + pack(t), 2 * len(p), 0
        x = r.random()
        if x < 0.5:
            d = struct.pack("<HHHHI", so, 2 * len(t), po, 2 * len(p), r.choice([0, 1])) + names
            return v.resident(192, None, struct.pack("<IHH", 0xA000000C, len(d), 0) + d)
        if x < 0.8:
            d = struct.pack("<HHHH", so, 2 * len(t), po, 2 * len(p)) + names
            return v.resident(192, None, struct.pack("<IHH", 0xA0000003, len(d), 0) + d)
        d = bytes(r.randrange(256) for _ in range(r.choice([0, 8, 30])))
        return v.resident(192, None, struct.pack("<IHH", r.choice([0x9000601A, 0x80000013, 0x8000001B]), len(d), 0) + d)

    # ---- entries
    def others(self):
        """Attributes of other types."""
        r, v = self.rng, self.v
        res = []
        if r.random() < 0.3:
            res.append([v.resident(64, None, bytes(r.randrange(256) for _ in range(16)), shown=[])])
        if r.random() < 0.2:
            res.append([v.resident(80, None, bytes(r.randrange(256) for _ in range(r.choice([20, 80]))), shown=[])])
        if r.random() < 0.1:
            res.append([v.resident(224, None, bytes(30), shown=[])])
        if r.random() < 0.1:
            res.append([v.resident(256, units("$TXF_DATA"), bytes(56), shown=[])])
        return res

    def seq(self):
        return self.rng.choice([1, 1, 2, 7, 0x8000, 0xFFFF])

    def file(self, n, names, torn=False, inuse=True):
        """names: bytes of the file names; returns sizes of the streams."""
        r, v = self.rng, self.v
        seq = self.seq()
        attrs = [[self.info()]] + [[v.resident(48, None, b, shown=[])] for b in names] + self.others()
        streams = {}
        x = r.random()
        if x < 0.12:
            attrs.append([self.link()])
            if r.random() < 0.3:
                a, size, m = self.stream(None, "res")
                attrs.append(a)
                streams[()] = (size, m)
        elif x < 0.2 and v.bs <= 65536:
            more, streams = self.overlay()
            attrs += more
        elif x < 0.95:
            a, size, m = self.stream(None)
            attrs.append(a)
            streams[()] = (size, m)
        if r.random() < 0.25:
            used = {tuple(v.upper(OVERLAY))}
            for _ in range(r.choice([1, 1, 2, 4])):
                u = self.name(used, 20)
                a, size, m = self.stream(u)
                attrs.append(a)
                streams[tuple(u)] = (size, m)
        v.entry(n, attrs, seq, inuse=inuse, state="torn" if torn else "ok")
        return seq, streams

    def root(self, r):
        self.directory([], 5, (5, 5), 0, [])

    def directory(self, path, n, parent, depth, names):
        r, v = self.rng, self.v
        seq = 5 if n == 5 else self.seq()
        used, items = set(), []        # (units, space, reference, bytes)
        many = r.choice([0, 1, 3, 6, 12]) if depth else r.choice([3, 6, 12, 40])
        most = 30 if v.isz < 1024 else 100 if v.isz < 2048 else 255
        most = min(most, max(10, v.room() // 12))
        if n == 5:
            used.update(tuple(v.upper(units(x))) for x in ("$MFT", "$Volume", "$UpCase", "."))
            self.owned = {}
            for k, x in ((0, "$MFT"), (3, "$Volume"), (10, "$UpCase"), (5, ".")):
                b = self.file_name((5, 5), units(x), 3, 6)
                self.owned[k] = b
                if x == "." or r.random() < 0.6:
                    items.append((units(x), (k, k if k else 1), b))
        sensitive = depth and r.random() < 0.15
        mine = []
        for _ in range(many):
            if self.budget <= 0:
                break
            self.budget -= 1
            try:
                u = self.name(used, most)
                if sensitive and len(u) < 12 and r.random() < 0.5 and tuple(v.upper(u)) != tuple(u) and len(mine) < 3:
                    w = v.upper(u)
                    k = v.number()
                    b = self.file_name((n, seq), w, 0)
                    s, streams = self.file(k, [b])
                    items.append((w, (k, s), b))
                    self.paths.append((path + [w], False, k, streams, False))
                k = v.number()
                space = r.choice([0, 1, 1, 1, 3])
                b = self.file_name((n, seq), u, space, r.choice([0x20, 0x10000000, 0x420, 0x400]))
                bs = [b]
                if space == 1 and r.random() < 0.6:
                    while True:
                        d = units("".join(r.choice("ABCXYZ0189~_") for _ in range(r.randrange(1, 9)))) + units(r.choice(["", ".TXT", ".A~1"]))
                        if tuple(v.upper(d)) not in used:
                            break
                    used.add(tuple(v.upper(d)))
                    bs.append(self.file_name((n, seq), d, 2))
                if r.random() < 0.25 and depth < 4:
                    s = self.directory(path + [u], k, (n, seq), depth + 1, bs)
                    kind, streams, torn = True, self.links.get(k, {}), False
                else:
                    torn = r.random() < 0.02
                    kind = False
                    s, streams = self.file(k, bs, torn)
                    self.files.append((k, s, streams, torn))
                for x in bs:
                    w = list(struct.unpack("<%dH" % ((len(x) - 66) // 2), x[66:]))
                    items.append((w, (k, s), x))
                    if x is b or not kind:
                        self.paths.append((path + [w], kind, k, streams, torn))
                    else:
                        self.paths.append((path + [w], kind, k, streams, torn))
            except MemoryError:
                continue
        if self.files and r.random() < 0.3 and not sensitive:        # an entry of a name that its file does not have
            k, s, streams, torn = r.choice(self.files)
            u = self.name(used, most)
            b = self.file_name((n, seq), u, 0)
            items.append((u, (k, s), b))
            self.paths.append((path + [u], False, k, streams, torn))
        attrs = [[self.info(0x10000000 if r.random() < 0.5 else None, (0, 1) if sensitive else r.choice([(0, 0), (0, 0), (1, 1), (0, 2), (1, 0)]))]]
        if n == 5:
            names = [self.owned[5]]
        attrs += [[v.resident(48, None, b, shown=[])] for b in names] + self.others()
        streams = {}
        if r.random() < 0.15:
            u = self.name({(36,)}, 20)
            a, size, m = self.stream(u)
            attrs.append(a)
            streams[tuple(u)] = (size, m)
        if n != 5 and r.random() < 0.08:
            attrs.append([self.link()])
        attrs += self.index(items, sensitive)
        v.entry(n, attrs, seq, is_dir=True)
        self.links[n] = streams
        if n == 5:
            self.paths.append(([], True, 5, streams, False))
        return seq

    # ---- indexes
    def index(self, items, sensitive):
        r, v = self.rng, self.v
        items.sort(key=lambda x: list(x[0]) if sensitive else v.upper(x[0]))
        unit = v.bs if v.isz >= v.bs else 512
        head = 64 + 2 * (v.isz // 512)
        head += -head % 8
        nodes = []

        def size(x, sub):
            return len(pad(b"x" * (16 + len(x[2])))) + (8 if sub else 0)

        def build(xs, room, may=0.5, top=False):
            """A node: [(item or None, sub node or None)]."""
            if sum(size(x, False) for x in xs) + 16 <= room and (not xs or r.random() < may):
                return [(x, None) for x in xs] + [(None, None)]
            some = 0 if top and r.random() < 0.5 else r.randrange(1, max(2, min(len(xs), 8) + 1))
            while some and True:
                picks = sorted(r.sample(range(len(xs)), some))
                if sum(size(xs[i], True) for i in picks) + 24 <= room:
                    break
                some -= 1
            if not some:
                if not top:
                    raise MemoryError
                picks = []
            res, at = [], 0
            for i in picks + [len(xs)]:
                child = xs[at:i]
                leafless = not top and False
                sub = build(child, v.isz - head, 0.9) if child or leafless or r.random() < 0.2 or not some else None
                if sub is not None:
                    nodes.append(sub)
                    sub = len(nodes) - 1
                res.append((xs[i] if i < len(xs) else None, sub))
                at = i + 1
            return res

        if sensitive:
            if sum(size(x, False) for x in items) + 16 > v.room() * 0.45:
                root = build(items, max(40, v.room() * 0.4), 0, True)
                raise MemoryError
            root = [(x, None) for x in items] + [(None, None)]
        else:
            root = build(items, max(40, int(v.room() * 0.4)), 0.8, True)
        spare = r.choice([0, 0, 1, 3]) if nodes else 0
        order = r.sample(range(len(nodes) + spare), len(nodes))      # where the nodes are
        per = v.isz // unit
        number = [order[i] * per for i in range(len(nodes))]

        def values(node):
            out, model = b"", []
            for x, sub in node:
                key = x[2] if x else b""
                ref = x[1] if x else (0, 0)
                b = pad(struct.pack("<QHHI", 0, 0, len(key), 0) + key) + (struct.pack("<Q", number[sub]) if sub is not None else b"")
                b = struct.pack("<QHHI", ref[0] | ref[1] << 48, len(b), len(key), (1 if sub is not None else 0) | (0 if x else 2)) + b[16:]
                out += b
                model.append({"ref": list(ref), "file": list(key), "sub": -1 if sub is None else number[sub], "last": x is None})
            return out, model

        out, model = values(root)
        big_ = 1 if any(s is not None for _, s in root) else 0
        extra = r.choice([0, 0, 8])
        data = struct.pack("<IIIB3x", 0x30, 1, v.isz, v.isz // unit if v.isz >= v.bs else v.isz // 512) + struct.pack("<IIII", 16, 16 + len(out), 16 + len(out), big_) + out
        attrs = [[v.resident(144, units("$I30"), data, shown=[], values=model, node=unit)]]
        if nodes or r.random() < 0.1:
            total = len(nodes) + spare
            room = max(1, -(-(total * v.isz) // v.bs))
            split = max(1, v.isz // v.bs) if not FRAGMENT else 1
            room += -room % split
            runs = v.fragments(room, split)
            flat = [a + k for n, a in runs for k in range(n)]
            for i, node in enumerate(nodes):
                out, model = values(node)
                at = order[i] * v.isz
                if len(out) + head > v.isz:
                    raise MemoryError
                b = bytearray(v.isz)
                struct.pack_into("<4sHHQQ", b, 0, b"INDX", 40, 1 + v.isz // 512, r.getrandbits(40), number[i])
                leaf = 1 if any(s is not None for _, s in node) else 0
                struct.pack_into("<IIII", b, 24, head - 24, head - 24 + len(out), v.isz - 24, leaf)
                b[head:head + len(out)] = out
                if r.random() < 0.3:
                    b[head + len(out):] = bytes(r.randrange(256) for _ in range(v.isz - head - len(out)))
                b = protect(b, 40, r.choice([1, r.randrange(65536)]))
                v.nodes.append({"at": flat[at // v.bs] * (v.bs // 512) + at % v.bs // 512, "values": model})
                step = min(v.bs, v.isz)
                for k in range(0, v.isz, step):
                    p = at + k
                    v.disk.append((flat[p // v.bs] * v.bs + p % v.bs, bytes(b[k:k + step])))
            attrs.append(v.nonresident(160, units("$I30"), runs, room * v.bs, room * v.bs, split=0.05))
            attrs.append([v.resident(176, units("$I30"), bytes(8), shown=[])])
        return attrs

    # ---- others
    def deleted(self, r):
        v = self.v
        self.loose = []
        for _ in range(r.choice([0, 1, 3])):
            try:
                k = v.number()
                x = r.random()
                if x < 0.3:
                    v.put(k, [], 1, False, False, "bad", (0, 0))
                else:
                    self.file(k, [self.file_name((5, 5), [97], 3)], torn=x < 0.4, inuse=x < 0.5)
                self.loose.append(k)
            except MemoryError:
                continue

    def system(self, r):
        v = self.v
        attrs = [[self.info(6)], [v.resident(48, None, self.owned[3], shown=[])]]
        if v.label is not None:
            attrs.append([v.resident(96, None, pack(v.label), shown=[])])
        if v.has_info:
            attrs.append([v.resident(112, None, struct.pack("<QBBH", 0, *v.version, v.vflags) + r.choice([b"", bytes(4)]), shown=[])])
        if r.random() < 0.5:
            attrs.append([v.resident(128, None, b"")])
        v.entry(3, attrs, 3)
        table = bytearray(131072)
        struct.pack_into("<65536H", table, 0, *[v.map.get(c, c) & 0xFFFF for c in range(65536)])
        n = -(-131072 // v.bs)
        runs = v.fragments(n, most=3)
        v.store(runs, bytes(table))
        parts = v.nonresident(128, None, runs, 131072, 131072, room=v.room(), split=0)
        if len(parts) > 1:
            raise MemoryError
        v.entry(10, [[self.info(6)], [v.resident(48, None, self.owned[10], shown=[])], parts], 10)
        # the table itself
        per = max(1, v.mftsz // v.bs)
        need = max(v.numbers) + 1 + 2 + r.choice([0, 1, 10])
        count = -(-need * v.mftsz // v.bs)
        count += -count % per
        first = max(per, -(-24 * v.mftsz // v.bs))
        first += -first % per
        rest = max(0, count - first)
        runs = v.fragments(first, per, most=0) if r.random() < 0.9 else v.fragments(first, first)
        if rest:
            runs += v.fragments(rest, per, most=r.choice([2, 10, 40]))
        v.mft = runs
        total = sum(x[0] for x in runs) * v.bs
        v.nents = total // v.mftsz
        valid = total - r.choice([0, 0, 1]) * (v.nents - need if v.nents > need else 0) * v.mftsz
        parts = v.nonresident(128, None, runs, total, total, split=r.choice([0, 0.3]))
        if len(parts) > 1 and parts[1]["m"]["first"] < first:      # parts of the table are in entries of the first one
            raise MemoryError
        attrs = [[self.info(6)], [v.resident(48, None, self.owned[0], shown=[])], parts]
        b = v.nonresident(176, None, v.fragments(1), v.bs, v.bs)
        attrs.append(b)
        v.entry(0, attrs, 1)
        v.mirror = v.take(1)
        self.extents = None


FRAGMENT = True
