"""Makes and writes FAT volumes."""
import struct
from images import Image, pattern
from streams import big

LETTERS = ([chr(x) for x in range(0x61, 0x7B)] * 3 + [chr(x) for x in range(0x41, 0x5B)] + list("0123456789 _-.+,;=[]'") + [chr(x) for x in (0xE0, 0xE9, 0xF6, 0xC9, 0xF8, 0xFF, 0x3B1, 0x3C9, 0x394, 0x430, 0x44F, 0x451, 0x416, 0x4E00, 0x20AC, 0x3042)])
SHORT = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-~!#$%&@"


def units(s):
    return [ord(c) for c in s]


def upper(x):
    if 97 <= x <= 122 or 224 <= x <= 254 and x != 247 or 945 <= x <= 969 and x != 962 or 1072 <= x <= 1103:
        return x - 32
    return x - 80 if 1104 <= x <= 1119 else 376 if x == 255 else x


def fold(u):
    return tuple(upper(x) for x in u)


def checksum(b):
    s = 0
    for x in b[:11]:
        s = ((s & 1) << 7) + (s >> 1) + x & 0xFF
    return s


def long_slots(u, s):
    """The slots of a long name, in the order they are stored."""
    n = (len(u) + 12) // 13
    p = list(u)
    if len(p) % 13:
        p += [0]
        p += [0xFFFF] * (-len(p) % 13)
    res = []
    for k in range(n, 0, -1):
        q = p[13 * (k - 1):13 * k]
        b = struct.pack("<B5H3B6HH2H", k | (0x40 if k == n else 0), *q[:5], 0x0F, 0, s, *q[5:11], 0, *q[11:])
        res.append(b)
    return res


class Volume:
    def __init__(self, rng, kind, clusters, bps=512, spc=1):
        self.rng, self.kind, self.clusters, self.bps, self.spc = rng, kind, clusters, bps, spc
        self.reserved = rng.choice([1, 1, 2, 6, 32]) if kind != 32 else rng.choice([2, 7, 32, 33])
        self.fats = rng.choice([1, 2, 2, 2, 3])
        self.rootn = 0 if kind == 32 else rng.choice([16, 32, 64, 112, 224, 512, rng.randrange(4, 130)])
        bits = {12: 12, 16: 16, 32: 32}[kind]
        self.fatsize = -(-(-(-(clusters + 2) * bits // 8)) // bps) + rng.choice([0, 0, 0, 1, 5])
        self.first = self.reserved + self.fats * self.fatsize + -(-self.rootn * 32 // bps)
        self.sectors = self.first + clusters * spc + rng.randrange(spc)
        self.table = {0: {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[kind], 1: {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}[kind]}
        self.free = None
        self.slots = {}
        self.data = set()
        self.active = rng.randrange(self.fats) if kind == 32 and rng.random() < 0.3 else None
        self.serial = rng.randrange(1 << 32)
        self.label = rng.choice([b"NO NAME", b"DISK", b"MY DISK", b"ELEVENCHARS", b"A"])
        self.signed = rng.random() < 0.9
        self.root = 0
        self.hi = [x for x in range(clusters + 1, max(1, clusters - 4), -1)]
        self.next = 2
        if kind == 32:
            self.root = self.take(1)[0]

    def end(self):
        return self.rng.choice(range({12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[self.kind], {12: 0x1000, 16: 0x10000, 32: 0x10000000}[self.kind]))

    def take(self, n):
        """n free clusters, in any order."""
        r, got = self.rng, []
        if self.clusters - len(self.table) + 2 < n + 2:
            raise MemoryError
        style = r.random()
        while len(got) < n:
            if self.hi and r.random() < 0.1:
                c = self.hi.pop(0)
            elif style < 0.4:
                c = self.next
                self.next += 1
            elif style < 0.7:
                self.next += r.choice([0, 0, 0, 1, 3])
                c = self.next
                self.next += 1
            else:
                c = r.randrange(2, self.clusters + 2)
            if 2 <= c < self.clusters + 2 and c not in self.table and c not in got:
                got.append(c)
            elif c >= self.clusters + 2:
                rest = [x for x in range(2, min(self.clusters + 2, 20000)) if x not in self.table and x not in got]
                if len(rest) < n - len(got):
                    raise MemoryError
                got += rest[:n - len(got)]
        if style >= 0.7 and r.random() < 0.5:
            r.shuffle(got)
        for c in got:
            self.table[c] = self.end()
        return got

    def chain(self, got):
        for a, b in zip(got, got[1:]):
            self.table[a] = b
        if got:
            self.table[got[-1]] = self.end()

    def per(self):
        return self.bps * self.spc // 32

    def place(self, at, k):
        s = self.reserved + self.fats * self.fatsize if at == 0 else self.first + (at - 2) * self.spc
        return s * self.bps + 32 * k

    def model(self):
        runs = []
        for n in sorted(self.table):
            if runs and runs[-1]["first"] + len(runs[-1]["values"]) == n:
                runs[-1]["values"].append(self.table[n])
            else:
                runs.append({"first": n, "values": [self.table[n]]})
        return {"bps": self.bps, "spc": self.spc, "reserved": self.reserved, "fats": self.fats, "rootn": self.rootn, "sectors": self.sectors, "fatsize": self.fatsize,
                "root": self.root, "label": list(self.label) if self.signed else [], "serial": big(self.serial if self.signed else 0), "fat": runs,
                "slots": [{"at": at, "slots": [list(b) for b in s]} for at, s in sorted(self.slots.items())]}

    def boot(self):
        r = self.rng
        small = self.kind != 32 and self.sectors < 65536 and r.random() < 0.8
        b = struct.pack("<3s8sHBHBHHBHHHII", b"\xeb\x3c\x90", r.choice([b"MSDOS5.0", b"mkfs.fat", b"MSWIN4.1"]), self.bps, self.spc, self.reserved, self.fats, self.rootn,
                        self.sectors if small else 0, 0xF8, 0 if self.kind == 32 else self.fatsize, 63, 255, r.choice([0, 63, 2048]), 0 if small else self.sectors)
        label = self.label + b" " * (11 - len(self.label))
        ext = struct.pack("<BBBI11s8s", 0x80, 0, 0x29 if self.signed else 0, self.serial, label, {12: b"FAT12   ", 16: b"FAT16   ", 32: b"FAT32   "}[self.kind])
        if self.kind == 32:
            b += struct.pack("<IHHIHH12x", self.fatsize, 0x80 | self.active if self.active is not None else r.choice([0, 0, 1]) if self.fats > 1 else 0, 0, self.root, 1, 6)
        b += ext
        return b + bytes(510 - len(b)) + b"\x55\xaa"

    def fat_bytes(self, table):
        """(offset, bytes) pieces of one allocation table."""
        res = {}
        if self.kind == 12:
            flat = bytearray(self.fatsize * self.bps)
            for n, x in table.items():
                o = n * 3 // 2
                v = flat[o] | flat[o + 1] << 8
                v = v & 0x000F | x << 4 if n & 1 else v & 0xF000 | x
                flat[o], flat[o + 1] = v & 0xFF, v >> 8
            return {0: bytes(flat)}
        for n, x in table.items():
            if self.kind == 16:
                res[n * 2] = struct.pack("<H", x)
            else:
                res[n * 4] = struct.pack("<I", x | self.rng.choice([0, 0, self.rng.randrange(16) << 28]))
        return res

    def write(self, path):
        img = Image(path)
        img.put(0, self.boot())
        for k in range(self.fats):
            t = self.table
            if self.active is not None and k != self.active:
                t = {n: self.rng.choice([0, x, self.rng.randrange(2, self.clusters + 2)]) for n, x in self.table.items()}
            for o, b in self.fat_bytes(t).items():
                img.put((self.reserved + k * self.fatsize) * self.bps + o, b)
        u = self.bps // 512
        for c in self.data:
            s = (self.first + (c - 2) * self.spc) * u
            img.put(s * 512, pattern(1, s, self.spc * u))
        for at, s in self.slots.items():
            img.put(self.place(at, 0), b"".join(s))
        img.close(max(self.sectors * self.bps, img.end))


def when(rng):
    d = (rng.randrange(128) << 9) | rng.randrange(1, 13) << 5 | rng.randrange(1, 29)
    t = rng.randrange(24) << 11 | rng.randrange(60) << 5 | rng.randrange(30)
    return d, t


def short_slot(rng, name, attr, nt, cluster, size, kind):
    cd, ct = when(rng)
    ad, _ = when(rng)
    md, mt = when(rng)
    return struct.pack("<11sBBBHHHHHHHI", name, attr, nt, rng.randrange(200), ct, cd, ad, cluster >> 16 if kind == 32 else rng.choice([0, 0, 7]), mt, md, cluster & 0xFFFF, size)


class Tree:
    """Files and directories of a volume, with what look-ups are to be tried on."""

    def __init__(self, rng, v, budget, damage=None):
        self.rng, self.v, self.budget, self.damage = rng, v, budget, damage
        self.paths = [([], True, 0, 0)]        # (path, is directory, identifier, size)
        self.counter = 0
        self.directory([], 0, None, None)

    def name(self, used):
        r = self.rng
        while True:
            n = r.choice([1, 2, 5, 8, 12, 13, 14, 26, 27, 40, r.randrange(1, 60), r.choice([100, 254, 255])])
            s = "".join(r.choice(LETTERS) for _ in range(n)).strip(" .") or "x"
            if fold(units(s)) not in used:
                return units(s)

    def short(self, used):
        r = self.rng
        while True:
            base = bytes(ord(r.choice(SHORT)) for _ in range(r.randrange(1, 9)))
            ext = bytes(ord(r.choice(SHORT)) for _ in range(r.choice([0, 0, 1, 2, 3, 3])))
            b = base + b" " * (8 - len(base)) + ext + b" " * (3 - len(ext))
            shown = list(base) + ([46] + list(ext) if ext else [])
            if fold(shown) not in used and bytes(b) not in used:
                return b, shown

    def directory(self, path, depth, cluster, parent, known=True):
        """Makes the slots of a directory and puts them where they belong."""
        r, v = self.rng, self.v
        slots, used, subs = [], set(), []
        if path:
            slots.append(short_slot(r, b".          ", 0x10, 0, cluster, 0, v.kind))
            slots.append(short_slot(r, b"..         ", 0x10, 0, parent or 0, 0, v.kind))
        label = r.random() < 0.5 if not path else r.random() < 0.1
        room = v.rootn if cluster is None and v.kind != 32 else 10 ** 6
        many = r.choice([0, 1, 3, 5, 9, r.randrange(1, 25)]) if depth else r.choice([2, 5, 9, r.randrange(3, 30)])
        entries = []
        for _ in range(many):
            if self.budget <= 0:
                break
            self.budget -= 1
            mine = []
            if label and r.random() < 0.4:
                label = False
                mine.append(short_slot(r, r.choice([b"MY DISK A  ", b"VOL        ", b"TWELVE CHAR", b"A B C D E F"]), 0x08 | r.choice([0, 0x20]), 0, 0, 0, v.kind))
            x = r.random()
            if x < 0.12:        # deleted entries
                b, _ = self.short(used)
                old = long_slots(self.name(used), checksum(b)) + [short_slot(r, b, 0x20, 0, 5, 100, v.kind)]
                mine += [b"\xe5" + y[1:] for y in old[r.randrange(len(old)):]]
            elif x < 0.22:      # parts of a long name that do not belong to what follows
                b, _ = self.short(used)
                old = long_slots(self.name(used), checksum(b) ^ r.choice([1, 0x80, 0]))
                y = r.random()
                if y < 0.3:
                    old = old[r.randrange(len(old)):]
                elif y < 0.5:
                    old = old[:-1]
                elif y < 0.6:
                    old = old[1:]
                elif y < 0.7:
                    r.shuffle(old)
                mine += old
            is_dir = depth < 3 and r.random() < 0.25
            b, shown = self.short(used)
            used.add(bytes(b))
            nt = 0
            bad_prefix = list(mine)
            if r.random() < 0.6:
                name = self.name(used)
                ls = long_slots(name, checksum(b))
                w = r.random()
                if w < 0.06:    # a long name that does not count
                    u = r.random()
                    if u < 0.25:
                        k = r.randrange(len(ls))
                        ls[k] = ls[k][:13] + bytes([ls[k][13] ^ 1 << r.randrange(8)]) + ls[k][14:]
                    elif u < 0.5:
                        k = r.randrange(len(ls))
                        ls[k] = b"\xe5" + ls[k][1:]
                    elif u < 0.75 and len(ls) > 1:
                        del ls[r.randrange(len(ls))]
                    else:
                        ls[0] = bytes([ls[0][0] & 0x3F]) + ls[0][1:]
                    name = shown
                mine += ls
                key = name
            else:
                if r.random() < 0.3:
                    nt = r.choice([0x08, 0x10, 0x18])
                key = shown
                if r.random() < 0.05:
                    b = b"\x05" + b[1:]
                    key = None
            if any(k in used for k in ([fold(shown)] + ([fold(key)] if key else []))):
                continue
            used.add(fold(shown))
            if key:
                used.add(fold(key))
            try:
                if is_dir:
                    n = 1
                    got = v.take(1)
                    first, size, attr = got[0], 0, 0x10 | r.choice([0, 0x02, 0x01, 0x06])
                else:
                    cs = v.bps * v.spc
                    n = r.choice([0, 1, 1, 2, 3, r.randrange(1, 12), r.choice([60, 150]) if r.random() < 0.1 else 4])
                    n = min(n, max(1, (1 << 21) // cs))
                    size = 0 if n == 0 else (n - 1) * cs + r.choice([1, cs, cs - 1, r.randrange(1, cs + 1)])
                    got = v.take(n + r.choice([0, 0, 0, 1, 3]) if n else r.choice([0, 0, 0, 1]))
                    v.chain(got)
                    v.data.update(got)
                    first, attr = got[0] if got else 0, r.choice([0x20, 0x20, 0, 0x21, 0x27, 0x80 if r.random() < 0.2 else 0x20])
            except MemoryError:
                continue
            if self.damage == "file" and not is_dir and n and r.random() < 0.5:
                first, size = self.harm(got, n, size, first)
            if self.damage == "dir" and is_dir and r.random() < 0.5:
                first = r.choice([0, 1, v.clusters + 2, v.clusters + 7])
                is_dir = None
            s = short_slot(r, b, attr, nt, first, size, v.kind)
            mine.append(s)
            if len(slots) + len(entries) + len(mine) > room - 1:
                break
            at = len(slots) + len(mine) - 1
            slots += mine
            p = path + [key if key else [0xE5]]
            entries_ref = (p, bool(is_dir) or is_dir is None, at, size, key is not None)
            subs.append((entries_ref, first if is_dir else None))
        # what comes after the end does not count
        per = v.per()
        spare = room - len(slots) if cluster is None and v.kind != 32 else -len(slots) % per
        if r.random() < 0.3 and spare > 1:
            slots.append(bytes(32) if r.random() < 0.6 else b"\0" + bytes(r.randrange(256) for _ in range(31)))
            for _ in range(r.randrange(1, min(spare, 4))):
                slots.append(short_slot(r, self.short(used)[0], 0x20, 0, 3, 100, v.kind))
        elif r.random() < 0.2 and cluster is not None or (cluster is None and v.kind == 32 and r.random() < 0.2):
            if spare and r.random() < 0.5:     # to the end of the cluster
                slots += [b"\xe5" + bytes(31)] * spare
            else:                              # and on, after the end, into another cluster
                slots += [bytes(32)] * (spare or 1)
                slots += [short_slot(r, self.short(used)[0], 0x20, 0, 3, 100, v.kind)]
        if cluster is None and v.kind != 32:
            v.slots[0] = slots[:room]
            where = [(0, k) for k in range(len(slots))]
        else:
            first = v.root if cluster is None else cluster
            need = max(1, -(-len(slots) // per))
            try:
                got = [first] + v.take(need - 1)
            except MemoryError:
                slots, need, got = slots[:per], 1, [first]
                subs = [x for x in subs if x[0][2] < per]
            v.chain(got)
            where = []
            for i, c in enumerate(got):
                v.slots[c] = slots[i * per:(i + 1) * per]
                where += [(c, k) for k in range(per)]
            if self.damage == "dir" and r.random() < 0.5:
                v.table[r.choice(got)] = r.choice([0, 1, v.clusters + 2, {12: 0xFF7, 16: 0xFFF7, 32: 0x0FFFFFF7}[v.kind], r.choice(got)])
        for (p, d, k, size, findable), c in subs:
            self.paths.append((p, d, v.place(*where[k]), size, findable and known))
            if c is not None:
                self.directory(p, depth + 1, c, first if cluster is not None else 0, findable and known)

    def harm(self, got, n, size, first):
        """Breaks the chain of a file."""
        r, v = self.rng, self.v
        k = r.randrange(n)
        bad = {12: 0xFF7, 16: 0xFFF7, 32: 0x0FFFFFF7}[v.kind]
        x = r.random()
        if x < 0.2:
            v.table[got[k]] = got[r.randrange(k + 1)]
        elif x < 0.4:
            v.table[got[k]] = v.end()
        elif x < 0.55:
            v.table[got[k]] = r.choice([0, 1])
        elif x < 0.65:
            v.table[got[k]] = bad
        elif x < 0.8:
            v.table[got[k]] = r.choice([v.clusters + 2, min(bad - 1, v.clusters + 3 + r.randrange(50))])
        elif x < 0.9:
            return r.choice([0, 1, v.clusters + 2]), size
        else:
            return first, min(size + r.choice([v.bps * v.spc * len(got), 1 << 30]), (1 << 31) - 1)
        return first, size
