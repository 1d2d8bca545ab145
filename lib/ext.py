"""Makes and writes ext2, ext3 and ext4 volumes."""
import struct
from images import Image, pattern
from streams import big

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.+,;=[]'éöß中日本€"

_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = _c >> 1 ^ (0x82F63B78 if _c & 1 else 0)
    _T.append(_c)


def crc32c(seed, data):
    """Without final inversion, as ext4 has it."""
    c = seed
    for x in data:
        c = _T[(c ^ x) & 255] ^ c >> 8
    return c


def runs(d):
    """A dict of numbers as runs."""
    res = []
    for k in sorted(d):
        if res and res[-1]["first"] + len(res[-1]["values"]) == k:
            res[-1]["values"].append(d[k])
        else:
            res.append({"first": k, "values": [d[k]]})
    return res


class Volume:
    def __init__(self, rng):
        r = self.rng = rng
        self.kind = r.choice([2, 2, 3, 4, 4, 4, 4])
        self.rev = 0 if self.kind == 2 and r.random() < 0.25 else 1
        self.bs = r.choice([1024, 1024, 2048, 4096, 4096, 4096, 8192, 16384, 65536])
        self.isize = 128 if self.rev == 0 else r.choice([128, 256, 256, 512, 1024])
        self.compat, self.incompat, self.rocompat = 0, 0, 0
        if self.rev:
            self.compat = r.choice([0, 0x8, 0x20, 0x38])
            self.incompat = r.choice([0x2, 0x2, 0x2, 0])
            self.rocompat = r.choice([0, 0x1, 0x1, 0x3, 0x3])
        if self.kind == 3:
            self.compat |= 4
        if self.kind == 4:
            self.compat |= r.choice([0, 4, 4])
            if r.random() < 0.05 and self.rocompat & 1:
                self.compat |= 0x200
            self.incompat |= r.choice([0x40, 0x40, 0x40, 0])
            for f, p in ((0x80, 0.4), (0x200, 0.5), (0x8000, 0.5), (0x400, 0.1), (4, 0.05)):
                if r.random() < p:
                    self.incompat |= f
            if self.isize == 128:
                self.incompat &= ~0x8000
            self.rocompat |= r.choice([0x78, 0x78, 0x8, 0x60])
            if r.random() < 0.4:
                self.rocompat = self.rocompat & ~0x10 | 0x400
                if r.random() < 0.4:
                    self.incompat |= 0x2000
            if not (self.incompat & 0x1f7c0 or self.rocompat & 0x378):
                self.rocompat |= 0x40
        self.first = 1 if self.bs == 1024 else 0
        self.bpg = r.choice([8 * self.bs, 8 * self.bs, r.choice([256, 512, 1024, 2048])]) if self.bs < 65536 else r.choice([65528, 1024])
        self.bpg = min(self.bpg, 65528)
        self.groups = r.choice([1, 1, 2, 3, 4, 6, 10, 12, 28, 30, 52]) if self.bpg * self.bs < 1 << 26 else r.choice([1, 1, 2, 3, 5, 28])
        last = r.choice([self.bpg, self.bpg, r.randrange(200, self.bpg + 1)])
        self.blocks = self.first + (self.groups - 1) * self.bpg + last
        per = self.bs // self.isize
        self.ipg = max(16, r.choice([per, 2 * per, 16, 32, 8 * r.randrange(2, 60)]))
        self.ipg = min(self.ipg, 8 * self.bs) // 8 * 8
        self.inodes = self.ipg * self.groups
        self.uuid = bytes(r.randrange(256) for _ in range(16))
        self.seed = crc32c(0xFFFFFFFF, self.uuid)
        if self.incompat & 0x2000:     # the identifier was changed afterwards
            self.seed = r.randrange(1 << 32)
        self.label = r.choice([b"", b"root", b"sixteen-letters!", "été".encode(), b"a b"])
        self.mounted = r.choice([b"", b"/", b"/mnt/data", b"/" + b"m" * 63])
        self.mtime = struct.pack("<i", r.choice([0, 1700000000, 1, -5, 0x7FFFFFFF]))
        self.wtime = struct.pack("<i", r.choice([0, 1600000000, r.randrange(1 << 31)]))
        self.gdsize = 64 if self.incompat & 0x80 else 32
        self.gdblocks = -(-self.groups * self.gdsize // self.bs)
        self.itblocks = -(-self.ipg * self.isize // self.bs)
        self.used = set()
        self.resgdt = r.choice([0, 0, 1, 5])
        self.itable = []
        flex = self.incompat & 0x200
        for g in range(self.groups):
            at = self.first + g * self.bpg
            if self.has_super(g):
                self.take_at(at, 1 + self.gdblocks + self.resgdt)
        for g in range(self.groups):
            at = self.first + g * self.bpg + (1 + self.gdblocks + self.resgdt if self.has_super(g) else 0) + 2
            if flex or r.random() < 0.1:
                at = self.find(self.itblocks)
            self.take_at(at, self.itblocks)
            self.itable.append(at)
        self.free_ino = None
        self.table, self.ptrs, self.nodes, self.dirs, self.texts, self.data = [], [], [], [], [], set()
        self.inos = {1, 3, 4, 5, 6, 7, 8, 9, 10}
        self.raw = []        # (offset, bytes) of metadata blocks

    def has_super(self, g):
        if g == 0 or not self.rocompat & 1:
            return True
        if self.compat & 0x200:
            return False
        for b in (3, 5, 7):
            x = g
            while x > 1 and x % b == 0:
                x //= b
            if x == 1:
                return True
        return False

    def take_at(self, at, n):
        if at + n > self.blocks or any(b in self.used for b in range(at, at + n)):
            raise MemoryError
        self.used.update(range(at, at + n))

    def find(self, n):
        r = self.rng
        for _ in range(400):
            at = r.randrange(self.first + 1, max(self.first + 2, self.blocks - n + 1)) if r.random() < 0.5 else r.randrange(self.first + 1, max(self.first + 2, min(self.blocks - n + 1, 3000)))
            if all(b not in self.used for b in range(at, at + n)) and at + n <= self.blocks:
                return at
        raise MemoryError

    def take(self, n=1):
        at = self.find(n)
        self.take_at(at, n)
        return at

    def take_ino(self):
        r = self.rng
        for _ in range(300):
            n = r.randrange(11, self.inodes + 1) if r.random() < 0.6 else r.randrange(11, min(self.inodes, 40) + 1)
            if n not in self.inos:
                self.inos.add(n)
                return n
        raise MemoryError

    # --- maps of blocks -------------------------------------------------------------
    def pieces(self, wanted):
        """Stores ranges [(logical, count)] of blocks: [(logical, physical, count)]."""
        r, res = self.rng, []
        for l, n in wanted:
            while n:
                m = n if r.random() < 0.5 else r.randrange(1, n + 1)
                if r.random() < 0.3 and res and res[-1][1] and all(res[-1][1] + res[-1][2] + k not in self.used and res[-1][1] + res[-1][2] + k < self.blocks for k in range(m)):
                    at = res[-1][1] + res[-1][2]
                    self.take_at(at, m)
                else:
                    at = self.take(m)
                res.append((l, at, m))
                l, n = l + m, n - m
        return res

    def as_ptrs(self, stored):
        """The 15 numbers, with blocks of numbers where needed; how many blocks that took."""
        p = self.bs // 4
        top, extra = [0] * 15, [0]
        blocks = {}

        def node(parent, k):
            at = parent.get(k)
            if not at:
                at = self.take()
                extra[0] += 1
                parent[k] = at
                blocks[at] = {}
            return blocks[at]
        tops = {}
        for l, at, n in stored:
            for i in range(n):
                x, b = l + i, at + i
                if x < 12:
                    tops[x] = b
                    continue
                x -= 12
                if x < p:
                    node(tops, 12)[x] = b
                    continue
                x -= p
                if x < p * p:
                    node(node(tops, 13), x // p)[x % p] = b
                    continue
                x -= p * p
                node(node(node(tops, 14), x // (p * p)), x // p % p)[x % p] = b
        for k, b in tops.items():
            top[k] = b
        for at, d in blocks.items():
            self.ptrs.append({"at": at, "runs": runs(d)})
            for run in runs(d):
                self.raw.append((at * self.bs + 4 * run["first"], struct.pack("<%dI" % len(run["values"]), *run["values"])))
        return {"kind": "ptrs", "nums": top, "depth": 0, "entries": [], "data": []}, struct.pack("<15I", *top), extra[0]

    def node_bytes(self, depth, entries, cap, room):
        b = struct.pack("<HHHHI", 0xF30A, len(entries), cap, depth, 0)
        for l, n, at in entries:
            b += struct.pack("<IHHI", l, n, at >> 32, at & 0xFFFFFFFF) if depth == 0 else struct.pack("<IIHH", l, at & 0xFFFFFFFF, at >> 32, self.rng.choice([0, 0, 0xFFFF]))
        return b + bytes(room - len(b))

    def as_tree(self, stored, unwritten=()):
        r = self.rng
        leaf = []
        for l, at, n in sorted(list(stored) + [(l, at, n) for l, at, n in unwritten]):
            un = (l, at, n) in unwritten
            if leaf and not un and leaf[-1][1] + n <= 32768 and leaf[-1][1] < 32769 and leaf[-1][0] + leaf[-1][1] == l and leaf[-1][2] + leaf[-1][1] == at and r.random() < 0.7:
                leaf[-1] = (leaf[-1][0], leaf[-1][1] + n, leaf[-1][2])
            else:
                leaf.append((l, n + 32768 if un else n, at))
        depth, level, extra = 0, leaf, 0
        cap = (self.bs - 12) // 12
        deeper = r.random() < 0.3
        while len(level) > 4 or (deeper and level and depth < r.randrange(1, 4)):
            up, i = [], 0
            fan = r.choice([cap, 4, 3, 2 if len(level) < 40 else 7])
            while i < len(level):
                n = min(fan, cap, r.choice([fan, fan, max(1, fan - 1)]))
                part = level[i:i + n]
                at = self.take()
                extra += 1
                self.nodes.append({"at": at, "depth": depth, "entries": [list(x) for x in part]})
                self.raw.append((at * self.bs, self.node_bytes(depth, part, cap, self.bs)))
                up.append((part[0][0] if i or r.random() < 0.7 else 0, 0, at))
                i += n
            level, depth = up, depth + 1
            if depth >= 5:
                break
        if len(level) > 4:
            raise MemoryError
        ref = {"kind": "tree", "depth": depth, "entries": [list(x) for x in level], "nums": [], "data": []}
        return ref, self.node_bytes(depth, level, 4, 60), extra

    def mapping(self, wanted, allow_unwritten=False, data=True):
        """Stores the ranges: reference, its bytes, number of sectors, whether by extents."""
        r = self.rng
        stored = self.pieces(wanted)
        unw = []
        if self.incompat & 0x40 and r.random() < 0.85:
            if allow_unwritten:
                last = 0
                gaps = []
                for l, at, n in sorted(stored):
                    if l > last:
                        gaps.append((last, l - last))
                    last = l + n
                gaps.append((last, 10))
                for a, n in gaps:
                    if r.random() < 0.4:
                        m = min(n, r.choice([1, 2, n, 32767]), 2000)
                        off = r.randrange(n - m + 1)
                        try:
                            unw.append((a + off, self.take(m), m))
                        except MemoryError:
                            pass
                if r.random() < 0.15:      # reserved far beyond the end
                    unw.append((last + r.choice([50, 5000, 1 << 20]), self.take(2), 2))
            ref, b, extra = self.as_tree(stored, unw)
            flag = 0x80000
        else:
            ref, b, extra = self.as_ptrs(stored)
            flag = 0
        n = sum(x[2] for x in stored) + sum(x[2] for x in unw) + extra
        if data:
            for l, at, k in stored:
                self.data.update(range(at, at + k))
            for l, at, k in unw:
                if r.random() < 0.5:
                    self.data.update(range(at, at + k))
        return ref, b, n, flag, stored

    # --- inodes -----------------------------------------------------------------------
    def stamp(self):
        r = self.rng
        return r.choice([0, r.randrange(1, 1 << 31), r.randrange(1, 1 << 31), r.randrange(1 << 31, 1 << 32), 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF])

    def inode(self, ino, mode, size, ref, refb, blocks, flags, inline=None):
        """Makes the inode; inline: what of the data comes after the first 60 bytes."""
        r = self.rng
        huge = self.rocompat & 8 and r.random() < 0.2 and self.kind == 4
        nblk = blocks if huge else blocks * (self.bs // 512)
        if huge:
            flags |= 0x40000
        b = bytearray(self.isize)
        hi_ids = r.choice([(0, 0), (0, 0), (r.randrange(65536), r.randrange(65536))])
        ok = mode & 0xF000 == 0x8000 or self.kind == 4
        struct.pack_into("<HHIIIIIHHIII60sIIIIHHHHHH", b, 0, mode, r.choice([0, 1000, 65535, r.randrange(65536)]), size & 0xFFFFFFFF, self.stamp(), self.stamp(), self.stamp(),
                         r.choice([0, 0, self.stamp()]), r.choice([0, 100, r.randrange(65536)]), r.choice([1, 1, 2, 65000]), nblk & 0xFFFFFFFF, flags, r.randrange(1 << 32), refb,
                         r.randrange(1 << 32), 0, size >> 32 if ok else 0, 0, 0, 0, hi_ids[0], hi_ids[1], 0, 0)
        attrs = []
        if self.isize > 128:
            extra = r.choice([28, 32, 32, 32, 24, 16, 8, 4, 0]) if inline is None else 32
            if self.rocompat & 0x400:
                extra = 32
            more = lambda: r.choice([0, r.randrange(4) | r.randrange(10 ** 9) << 2, r.randrange(10 ** 9) << 2])
            f = struct.pack("<HHIIIIIII", extra, 0, more(), more(), more(), self.stamp(), more(), r.randrange(1 << 32), 0)
            b[128:128 + max(4, extra)] = f[:max(4, extra)]
            if inline is not None or r.random() < 0.3:
                attrs = self.attributes(b, 128 + extra, inline)
        if self.rocompat & 0x400 and r.random() < 0.95:
            c = crc32c(crc32c(self.seed, struct.pack("<I", ino)), bytes(b[100:104]))
            c = crc32c(c, bytes(b))
            struct.pack_into("<H", b, 124, c & 0xFFFF)
            if self.isize > 128:
                struct.pack_into("<H", b, 130, c >> 16)
        self.table.append({"ino": ino, "raw": list(b[:160 if self.isize > 128 else 128]), "ref": dict(ref, **({} if "dirents" in ref else {})), "attrs": attrs})
        g, k = divmod(ino - 1, self.ipg)
        self.raw.append((self.itable[g] * self.bs + k * self.isize, bytes(b)))

    def attributes(self, b, at, inline):
        """Extended attributes in the inode, from `at`."""
        r = self.rng
        room = self.isize - at - 4
        if room < 24:
            return []
        items = []
        if inline is not None:
            items.append((7, b"data", inline))
        for _ in range(r.choice([0, 1, 2, 3])):
            items.append((r.choice([1, 6, 4]), bytes(r.choice(b"abcdef.") for _ in range(r.randrange(1, 14))), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 20, 33])))))
        head = items[:1] if inline is not None else []
        rest = items[len(head):]
        r.shuffle(rest)
        items = head + rest if r.random() < 0.5 else rest + head
        need = lambda x: 16 + -(-len(x[1]) // 4) * 4 + -(-len(x[2]) // 4) * 4
        while sum(map(need, items)) + 4 > room:
            drop = [x for x in items if x[0] != 7]
            if not drop:
                raise MemoryError
            items.remove(drop[-1])
        if not items:
            return []
        b[at:at + 4] = struct.pack("<I", 0xEA020000)
        e, end = at + 4, self.isize
        for idx, name, val in items:
            end -= -(-len(val) // 4) * 4
            b[end:end + len(val)] = val
            h = struct.pack("<BBHIII", len(name), idx, end - at - 4 if val else 0, 0, len(val), r.randrange(1 << 32)) + name
            b[e:e + len(h)] = h
            e += -(-len(h) // 4) * 4
        return [[idx, list(name)] for idx, name, val in items]

    def inline_room(self):
        return self.isize - 128 - 32 - 4 - 20 - 4

    # --- the volume ---------------------------------------------------------------------
    def model(self):
        return {"bs": self.bs, "inodes": self.inodes, "isize": self.isize, "compat": self.compat, "incompat": self.incompat, "rocompat": self.rocompat,
                "label": list(self.label), "mounted": list(self.mounted), "mtime": list(self.mtime), "wtime": list(self.wtime),
                "table": self.table, "ptrs": self.ptrs, "nodes": self.nodes, "dirs": self.dirs, "texts": self.texts}

    def superblock(self, g):
        r = self.rng
        b = bytearray(1024)
        struct.pack_into("<13I", b, 0, self.inodes, self.blocks, 0, 5, 5, self.first, self.bs.bit_length() - 11, self.bs.bit_length() - 11, self.bpg, self.bpg, self.ipg, 0, 0)
        b[44:48], b[48:52] = self.mtime, self.wtime
        struct.pack_into("<HHHHHHIIII", b, 52, 1, 20, 0xEF53, 1, 1, 0, 0, 0, 0, self.rev)
        if self.rev:
            struct.pack_into("<IHHIII", b, 84, 11, self.isize, g, self.compat, self.incompat, self.rocompat)
            b[104:120] = self.uuid
            b[120:120 + len(self.label)] = self.label
            b[136:136 + len(self.mounted)] = self.mounted
            struct.pack_into("<H", b, 0xFE, self.gdsize if self.incompat & 0x80 else 0)
            if self.isize > 128:
                struct.pack_into("<HH", b, 0x15C, 32, 32)
            if self.incompat & 0x200:
                b[0x174] = self.logflex
            if self.rocompat & 0x400:
                b[0x175] = 1
            if self.incompat & 0x2000:
                struct.pack_into("<I", b, 0x270, self.seed)
            if self.rocompat & 0x400:
                struct.pack_into("<I", b, 1020, crc32c(0xFFFFFFFF, bytes(b[:1020])))
        else:
            self.label = self.mounted = b""
        return bytes(b)

    def descriptors(self):
        res = b""
        for g in range(self.groups):
            b = bytearray(self.gdsize)
            at = self.itable[g]
            struct.pack_into("<IIIHHHHIHHHH", b, 0, at - 2 & 0xFFFFFFFF, at - 1 & 0xFFFFFFFF, at, 5, 5, 1, 4 if self.kind == 4 else 0, 0, 0, 0, 0, 0)
            if self.rocompat & 0x400:
                c = crc32c(crc32c(self.seed, struct.pack("<I", g)), bytes(b))
                struct.pack_into("<H", b, 30, c & 0xFFFF)
            res += bytes(b)
        return res

    def write(self, path):
        img = Image(path)
        gd = self.descriptors()
        for g in range(self.groups):
            if self.has_super(g):
                at = (self.first + g * self.bpg) * self.bs
                img.put(at + (1024 if g == 0 and self.bs > 1024 else 0), self.superblock(g))
                img.put(at + self.bs, gd)
        per = self.bs // 512
        for b in self.data:
            img.put(b * self.bs, pattern(1, b * per, per))
        for off, b in self.raw:
            img.put(off, b)
        img.close(self.blocks * self.bs)


class Tree:
    """Files and directories."""

    def __init__(self, rng, v, budget):
        self.rng, self.v, self.budget = rng, v, budget
        self.paths = []         # (path, type, inode, size)
        if not v.rev:
            v.label = v.mounted = b""
        v.logflex = rng.choice([4, 0, 1, 15, 16, 20]) if v.incompat & 0x200 else 0
        self.directory([], 2, 2, 0)

    def name(self, used):
        r = self.rng
        while True:
            n = r.choice([1, 2, 3, 8, 12, 20, 60, r.randrange(1, 100), 255])
            s = bytearray("".join(r.choice(LETTERS) for _ in range(n)).encode()[:255])
            if r.random() < 0.03:
                s[r.randrange(len(s))] = r.choice([0xFF, 0x80, 0xC0])
            if r.random() < 0.03:
                s = bytearray(r.choice([b"...", b".a", b"..b", b" "]))
            s = bytes(s).replace(b"/", b"_")
            if s not in used and s not in (b".", b".."):
                used.add(s)
                return s

    def directory(self, path, ino, parent, depth):
        r, v = self.rng, self.v
        used, items = set(), []
        many = r.choice([0, 1, 3, 6, 12]) if depth else r.choice([3, 6, 12, 25])
        for _ in range(many):
            if self.budget <= 0:
                break
            self.budget -= 1
            try:
                x = r.random()
                if x < 0.06 and self.paths and any(p[1] == "file" for p in self.paths):      # a hard link
                    p = r.choice([p for p in self.paths if p[1] == "file"])
                    n = self.name(used)
                    items.append((n, p[2], 1))
                    self.paths.append((path + [list(n)], "file", p[2], p[3]))
                    continue
                n = self.name(used)
                if x < 0.25 and depth < 4:
                    k = v.take_ino()
                    items.append((n, k, 2))
                    self.paths.append((path + [list(n)], "dir", k, 0))
                    continue
                if x < 0.4:
                    k, kind, size = self.link()
                elif x < 0.48:
                    k, kind, size = self.special()
                else:
                    k, kind, size = self.file()
                items.append((n, k, {"link": 7, "file": 1}.get(kind, 3)))
                self.paths.append((path + [list(n)], kind, k, size))
            except MemoryError:
                continue
        self.store(path, ino, parent, items)
        if not path:
            self.paths.append(([], "dir", 2, 0))
        for n, k, t in items:
            if t == 2:
                self.directory(path + [list(n)], k, ino, depth + 1)

    def entry(self, ino, name, t, size=None):
        n = -(-(8 + len(name)) // 4) * 4
        size = size or n
        t = t if self.v.incompat & 2 else 0
        code = size if size < 65536 else 65535
        return struct.pack("<IHBB", ino, code, len(name), t) + name + bytes(size - 8 - len(name))

    def fill(self, items, room):
        """Blocks of at most `room` bytes with the entries: [(bytes, [entry])]."""
        r, v = self.rng, self.v
        blocks, cur, shown = [], [], []     # cur: (ino, name, t, size)
        left = room

        def close():
            nonlocal cur, shown, left
            if cur:
                a, b, c, d = cur[-1]
                cur[-1] = (a, b, c, d + left)
            elif room:
                cur = [(0, b"", 0, room)]
            blocks.append((b"".join(self.entry(*x) for x in cur), [{"ino": x[0], "name": list(x[1])} for x in cur]))
            cur, shown, left = [], [], room
        for n, k, t in items:
            if r.random() < 0.1:      # an entry that is no longer used
                old = self.name(set())
                size = -(-(8 + len(old)) // 4) * 4
                if size <= left:
                    if cur and r.random() < 0.7:
                        a, b, c, d = cur[-1]
                        cur[-1] = (a, b, c, d + size)
                    else:
                        cur.append((0, old, 1, size))
                    left -= size
            size = -(-(8 + len(n)) // 4) * 4 + r.choice([0, 0, 0, 4, 12])
            if size > left or (r.random() < 0.08 and cur and room > 200):
                close()
            size = min(size, left)
            if size < -(-(8 + len(n)) // 4) * 4:
                raise MemoryError
            cur.append((k, n, t, size))
            left -= size
        close()
        return blocks

    def store(self, path, ino, parent, items):
        """Writes the directory."""
        r, v = self.rng, self.v
        mode = 0x4000 | r.choice([0o755, 0o700, 0o1777])
        if v.incompat & 0x8000 and r.random() < 0.5 and path:
            try:
                first, rest, size = [], [], 56
                for it in items:
                    n = -(-(8 + len(it[0])) // 4) * 4
                    if not rest and n <= size:
                        first.append(it)
                        size -= n
                    else:
                        rest.append(it)
                a = self.fill(first, 56)
                room = -(-sum(-(-(8 + len(x[0])) // 4) * 4 + 40 for x in rest) // 4) * 4 if rest else 0
                room = min(room, v.inline_room() // 4 * 4)
                b = self.fill(rest, room) if rest else []
                if len(a) == 1 and len(b) <= 1:
                    data = struct.pack("<I", parent) + a[0][0]
                    more = b[0][0] if b else b""
                    ref = {"kind": "inline", "depth": 0, "nums": [], "data": [], "entries": a[0][1] + (b[0][1] if b else [])}
                    v.inode(ino, mode, 60 + len(more), ref, data, 0, 0x10000000, more)
                    return
            except MemoryError:
                pass
        dots = [(b".", ino, 2), (b"..", parent, 2)]
        if v.compat & 0x20 and len(items) > 4 and r.random() < 0.6:   # indexed: a root, maybe index blocks, leaves
            root = [(ino, b".", 2, 12), (parent, b"..", 2, v.bs - 12)]
            blocks = [(b"".join(self.entry(*x) for x in root), [{"ino": x[0], "name": list(x[1])} for x in root])]
            leaves = self.fill(items, v.bs)
            if r.random() < 0.4:
                leaves.insert(r.randrange(len(leaves) + 1), (self.entry(0, b"", 0, v.bs), [{"ino": 0, "name": []}]))
            blocks += leaves
            flag = 0x1000
        else:
            blocks = self.fill(dots + items, v.bs)
            flag = 0
            if r.random() < 0.1:
                blocks.append((self.entry(0, b"", 0, v.bs), [{"ino": 0, "name": []}]))
        ref, b, n, f, stored = v.mapping([(0, len(blocks))], data=False)
        for l, at, k in stored:
            for i in range(k):
                v.raw.append(((at + i) * v.bs, blocks[l + i][0]))
                v.dirs.append({"at": at + i, "entries": blocks[l + i][1]})
        v.inode(ino, mode, len(blocks) * v.bs, ref, b, n, f | flag)

    def link(self):
        r, v = self.rng, self.v
        n = r.choice([1, 10, 58, 59, 60, 61, r.randrange(1, 60), r.randrange(60, 300), min(1000, v.bs - 1)])
        t = bytes(r.choice(b"abcdefghij/.-_") for _ in range(n))
        ino = v.take_ino()
        if n < 60:
            ref = {"kind": "inline", "depth": 0, "nums": [], "data": list(t), "entries": []}
            inline = v.incompat & 0x8000 and r.random() < 0.1
            v.inode(ino, 0xA1FF, n, ref, t + bytes(60 - n), r.choice([0, 0, 1]), 0x10000000 if inline else 0, b"" if inline else None)
        elif v.incompat & 0x8000 and n - 60 <= v.inline_room() and r.random() < 0.6:
            ref = {"kind": "inline", "depth": 0, "nums": [], "data": list(t), "entries": []}
            v.inode(ino, 0xA1FF, n, ref, t[:60], 0, 0x10000000, t[60:])
        else:
            ref, b, k, f, stored = v.mapping([(0, 1)], data=False)
            v.texts.append({"at": stored[0][1], "data": list(t)})
            v.raw.append((stored[0][1] * v.bs, t))
            v.inode(ino, 0xA1FF, n, ref, b, k, f)
        return ino, "link", n

    def special(self):
        r, v = self.rng, self.v
        ino = v.take_ino()
        t = r.choice([1, 2, 6, 12])
        b = struct.pack("<H", r.randrange(1, 65536)) + bytes(58) if t in (2, 6) else bytes(60)
        ref = {"kind": "none", "depth": 0, "nums": [], "data": [], "entries": []}
        v.inode(ino, t << 12 | 0o644, 0, ref, b, 0, 0)
        return ino, "special", 0

    def file(self):
        r, v = self.rng, self.v
        ino = v.take_ino()
        mode = 0x8000 | r.choice([0o644, 0o755, 0o4755, 0])
        if v.incompat & 0x8000 and r.random() < 0.4:
            n = r.choice([0, 1, 59, 60, 61, r.randrange(0, max(1, 61 + v.inline_room())), 60 + v.inline_room()])
            t = bytes(r.randrange(256) for _ in range(n))
            ref = {"kind": "inline", "depth": 0, "nums": [], "data": list(t), "entries": []}
            v.inode(ino, mode, n, ref, (t + bytes(60))[:60], 0, 0x10000000, t[60:])
            return ino, "file", n
        bs, p = v.bs, v.bs // 4
        x = r.random()
        cap = 1 << 40 if v.kind == 4 and v.incompat & 0x40 else min(1 << 40, (12 + p + p * p + p * p * p) * bs)
        most = max(1, min(40, (1 << 20) // bs))
        if x < 0.1:
            wanted, n = [], r.choice([0, 0, 1, r.randrange(10 * bs)])
        elif x < 0.5:
            k = r.randrange(1, most + 1)
            wanted, n = [(0, k)], k * bs - r.choice([0, 1, r.randrange(bs), bs - 1])
        else:
            edges = [0, 1, 11, 12, 13, 12 + p - 1, 12 + p, 12 + p + 1, 12 + 2 * p, 12 + p + p * p - 1, 12 + p + p * p, 12 + p + p * p + p, r.randrange(100), r.randrange(5000), r.randrange(1 << 20), (1 << 32) // bs - 1, (1 << 32) // bs]
            last = -1
            wanted = []
            for e in sorted(r.choice(edges) for _ in range(r.choice([1, 2, 3, 5, 8]))):
                if e > last and (e + 4) * bs < cap and e < 1 << 30:
                    k = r.choice([1, 1, 2, 3])
                    wanted.append((e, k))
                    last = e + k
            end = (wanted[-1][0] + wanted[-1][1]) * bs if wanted else 0
            n = max(0, end + r.choice([0, 0, -1, -r.randrange(bs), 1, r.randrange(20 * bs), 1 << 22]))
            n = min(n, cap - bs)
            wanted = [w for w in wanted if w[0] * bs < n or r.random() < 0.2]
        if n >= 1 << 32 and not v.rocompat & 2 and v.kind != 4:
            n = (1 << 32) - 1 - r.randrange(3)
            wanted = [w for w in wanted if (w[0] + w[1]) * bs <= n]
        if n >= 1 << 31 and not v.rev:
            n = (1 << 31) - 1
            wanted = [w for w in wanted if (w[0] + w[1]) * bs <= n]
        ref, b, k, f, stored = v.mapping(wanted, allow_unwritten=True)
        v.inode(ino, mode, n, ref, b, k, f)
        self.marks = getattr(self, "marks", {})
        self.marks[ino] = [y * bs for l, at, m in stored for y in (l, l + m)] + [12 * bs, (12 + p) * bs]
        return ino, "file", n
