"""Disks within files within disks: writes bytes of any content as the formats of the repository (Vfs.tla).

A disk of the model is a number; `World.disks[k]` has its size, checksum, kind and what file systems it can be seen as."""
import bz2, datetime, hashlib, os, random, struct, tempfile, uuid, zlib
import ext, fat, ntfs
from images import Image
from ntfs import pack, units
from streams import big
from vhdx import crc32c, guid, summed

MIB = 1 << 20


def crc(b):
    return zlib.crc32(b)


def iso(t, rest=""):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime("%Y-%m-%dT%H:%M:%S") + rest


def through(write):
    """The bytes of a file that a function writes."""
    f = tempfile.NamedTemporaryFile(prefix="kv", delete=False)
    f.close()
    write(f.name)
    b = open(f.name, "rb").read()
    os.unlink(f.name)
    return b


# ---- volume systems

def mbr(rng, parts):
    """parts: bytes; some of them within an extended partition.  Returns the disk and where its partitions are."""
    n = len(parts)
    logical = n > 4 or n > 1 and rng.random() < 0.4
    prim = parts if not logical else parts[:rng.randrange(0, min(3, n - 1) + 1)]
    rest = parts[len(prim):]
    at, place = rng.choice([1, 63, 64]), []
    for p in prim:
        place.append(at)
        at += len(p) // 512 + rng.choice([0, 0, 7])
    ext_at = at
    logs = []
    for p in rest:
        gap = rng.choice([1, 1, 63])
        logs.append((at, gap))
        at += gap + len(p) // 512
    out = bytearray(at * 512)

    def record(entries):
        b = bytes(446)
        for t, s, k in entries:
            b += struct.pack("<B3sB3sII", 0, bytes(3), t, bytes(3), s, k)
        return b.ljust(510, b"\0") + b"\x55\xaa"
    first = [(7, s, len(p) // 512) for s, p in zip(place, prim)]
    if rest:
        first.insert(rng.randrange(len(first) + 1), (rng.choice([5, 15]) if False else 5, ext_at, at - ext_at))
    out[0:512] = record(first)
    for s, p in zip(place, prim):
        out[s * 512:s * 512 + len(p)] = p
    for k, ((a, gap), p) in enumerate(zip(logs, rest)):
        e = [(0x83, gap, len(p) // 512)]
        if k + 1 < len(logs):
            e.append((5, logs[k + 1][0] - ext_at, logs[k + 1][1] + len(rest[k + 1]) // 512))
        out[a * 512:a * 512 + 512] = record(e)
        out[(a + gap) * 512:(a + gap) * 512 + len(p)] = p
    return bytes(out)


def gpt(rng, parts, hybrid=()):
    at, place = 34 + rng.choice([0, 0, 30]), []
    for p in parts:
        place.append(at)
        at += len(p) // 512 + rng.choice([0, 0, 7])
    end = at - 1 + rng.choice([0, 3])
    n = end + 34
    out = bytearray(n * 512)
    body, ids = b"", []
    for s, p in zip(place, parts):
        name = rng.choice(["", "p", "Über"]).encode("utf-16-le")
        body += struct.pack("<16s16sQQQ", uuid.UUID(int=rng.getrandbits(127) + 1).bytes_le, (ids := ids + [uuid.UUID(int=rng.getrandbits(128))])[-1].bytes_le, s, s + len(p) // 512 - 1, 0) + name.ljust(72, b"\0")
        out[s * 512:s * 512 + len(p)] = p
    body += bytes(16384 - len(body))
    gid = uuid.UUID(int=rng.getrandbits(128)).bytes_le
    for me, other, where in ((1, n - 1, 2), (n - 1, 1, n - 33)):
        h = struct.pack("<8sIII4xQQQQ16sQIII", b"EFI PART", 0x10000, 92, 0, me, other, 34, end, gid, where, 128, 128, zlib.crc32(body))
        out[me * 512:me * 512 + 92] = h[:16] + struct.pack("<I", zlib.crc32(h)) + h[20:]
        out[where * 512:where * 512 + 16384] = body
    rows = [(0xEE, 1, n - 1)]
    # the table is to leave no doubt about the size of sectors
    if hybrid and 2 * (place[hybrid[-1]] + len(parts[hybrid[-1]]) // 512) > n:
        rows = [(0xEE, 1, 33)] + [(7, place[k], len(parts[k]) // 512) for k in hybrid]
    b = bytes(446)
    for t, s, k in rows:
        b += struct.pack("<B3sB3sII", 0, bytes(3), t, bytes(3), s, k)
    out[0:512] = b.ljust(510, b"\0") + b"\x55\xaa"
    return bytes(out), [bytes(out[s * 512:(s + k) * 512]) for _, s, k in rows], len(rows) > 1, ids


def apm(rng, parts):
    n = len(parts)
    at = 1 + n + 1
    rows = [("Apple", "Apple_partition_map", 1, n + 1)]
    for p in parts:
        rows.append(("part", "Apple_HFS", at, len(p) // 512))
        at += len(p) // 512 + rng.choice([0, 0, 3])
    out = bytearray(at * 512)
    out[0:8] = struct.pack(">2sHI", b"ER", 512, at)
    for k, (name, t, s, m) in enumerate(rows):
        out[512 * (k + 1):512 * (k + 1) + 92] = struct.pack(">2sHIII32s32sIII", b"PM", 0, n + 1, s, m, name.encode(), t.encode(), 0, m, 0x33)
    for (_, _, s, m), p in zip(rows[1:], parts):
        out[s * 512:s * 512 + len(p)] = p
    return bytes(out), [bytes(out[s * 512:(s + m) * 512]) for _, _, s, m in rows]


# ---- images

def vhd_footer(kind, size, off, ident, rng):
    b = bytearray(struct.pack(">8sIIQI4sI4sQQIII16sB", b"conectix", 2, 0x10000, off, 0x20000000, b"kv  ", 0x10000, b"Wi2k", size, size, 0x01000411, {"fixed": 2, "dynamic": 3, "diff": 4}[kind], 0, ident.bytes, 0).ljust(512, b"\0"))
    struct.pack_into(">I", b, 64, ~sum(b) & 0xFFFFFFFF)
    return bytes(b)


def vhd(rng, data, kind=None, parent=None, ident=None):
    """parent: (content, identifier, file name)"""
    kind = kind or rng.choice(["fixed", "dynamic"])
    ident = ident or uuid.UUID(int=rng.getrandbits(128))
    size = len(data)
    if kind == "fixed":
        return data + vhd_footer(kind, size, (1 << 64) - 1, ident, rng)
    bs = rng.choice([4096, 16384, 1 << 16])
    n = -(-size // bs)
    bat_at = 1536 if not parent else 2048
    at = bat_at + -(-4 * n // 512) * 512
    bat, body = [], b""
    old = parent[0] if parent else bytes(size)
    maps = -(-bs // 512 // 8)
    maps += -maps % 512
    for k in range(n):
        d = data[k * bs:(k + 1) * bs].ljust(bs, b"\0")
        o = old[k * bs:(k + 1) * bs].ljust(bs, b"\0")
        if d == o and (not parent or rng.random() < 0.8):
            bat.append(0xFFFFFFFF)
            continue
        bat.append(at // 512)
        bits = bytearray(maps)
        for s in range(bs // 512):
            if not parent or d[s * 512:s * 512 + 512] != o[s * 512:s * 512 + 512]:
                bits[s // 8] |= 0x80 >> s % 8
        body += bytes(bits) + d
        at += maps + bs
    h = bytearray(1024)
    struct.pack_into(">8sQQIII", h, 0, b"cxsparse", (1 << 64) - 1, bat_at, 0x10000, n, bs)
    if parent:
        h[40:56] = parent[1].bytes
        name = parent[2].encode("utf-16-be")
        h[64:64 + len(name)] = name
    struct.pack_into(">I", h, 36, ~sum(h) & 0xFFFFFFFF)
    foot = vhd_footer("diff" if parent else kind, size, 512, ident, rng)
    return (foot + bytes(h)).ljust(bat_at, b"\0") + struct.pack(">%dI" % n, *bat).ljust(-(-4 * n // 512) * 512, b"\xff") + body + foot


def qcow(rng, data, backing=None, version=None):
    """backing: (content, file name)"""
    ver = version or rng.choice([1, 2, 3])
    cbits = rng.choice([9, 12, 16]) if ver > 1 else rng.choice([9, 12])
    cs = 1 << cbits
    lbits = cbits - 3 if ver > 1 else rng.choice([9, 5])
    cpt = 1 << lbits
    n = -(-len(data) // cs)
    l1n = -(-n // cpt)
    name = backing[1].encode() if backing else b""
    if ver == 1:
        h = struct.pack(">4sIQIIQBBHIQ", b"QFI\xfb", 1, 48 if name else 0, len(name), 0, len(data), cbits, lbits, 0, 0, 0)
    else:
        h = struct.pack(">4sIQIIQIIQQIIQ", b"QFI\xfb", ver, 0, len(name), cbits, len(data), 0, l1n, 0, 0, 0, 0, 0)
        if ver == 3:
            h += struct.pack(">QQQII", 0, 0, 0, 4, 104) + bytes(8)
        if name:
            h = h[:8] + struct.pack(">Q", len(h)) + h[16:]
    h = bytearray(h + name)
    at = -(-len(h) // cs) * cs
    l1at = at
    struct.pack_into(">Q", h, 40 if ver > 1 else 40, l1at)
    at += -(-l1n * 8 // cs) * cs
    out = {0: bytes(h)}
    l1 = []
    old = backing[0] if backing else b""
    flag = 1 << 63 if ver > 1 else 0
    for t in range(l1n):
        l2 = []
        base = at
        at += -(-cpt * 8 // cs) * cs
        for k in range(t * cpt, min((t + 1) * cpt, n)):
            d = data[k * cs:(k + 1) * cs].ljust(cs, b"\0")
            if d == old[k * cs:(k + 1) * cs].ljust(cs, b"\0") and rng.random() < 0.9:
                l2.append(0)
                continue
            out[at] = d
            l2.append(at | flag)
            at += cs
        if any(l2):
            out[base] = struct.pack(">%dQ" % len(l2), *l2)
            l1.append(base | flag)
        else:
            l1.append(0)
    out[l1at] = struct.pack(">%dQ" % l1n, *l1)
    b = bytearray(at)
    for a, d in out.items():
        b[a:a + len(d)] = d
    return bytes(b)


def sparseimage(rng, data):
    spb = rng.choice([8, 64, 256])
    n = -(-len(data) // 512)
    bands = -(-n // spb)
    while bands > 1008:
        spb *= 2
        bands = -(-n // spb)
    order = [k for k in range(bands) if any(data[k * spb * 512:(k + 1) * spb * 512]) or rng.random() < 0.1]
    rng.shuffle(order)
    if bands - 1 in order:            # the last one may be shorter
        order.remove(bands - 1)
        order.append(bands - 1)
    head = struct.pack(">4sIIII12xI28x", b"sprs", 3, spb, 1, n, 0) + struct.pack(">%dI" % bands, *[x + 1 for x in order] + [0] * (bands - len(order)))
    return head.ljust(4096, b"\0") + b"".join(data[k * spb * 512:(k + 1) * spb * 512].ljust(spb * 512, b"\0") for k in order)


def udif(rng, data):
    from udif import plist
    n = len(data) // 512
    t = rng.choice([1, 0x80000005, 0x80000005, 0x80000006])
    body, rows, at = b"", [], 0
    while at < n:
        k = min(n - at, rng.choice([8, 64, 512, 2048]))
        d = data[at * 512:(at + k) * 512]
        if not any(d):
            rows.append((2, at, k, 0, 0))
        else:
            z = zlib.compress(d) if t == 0x80000005 else bz2.compress(d) if t == 0x80000006 else d
            rows.append((t, at, k, len(body), len(z)))
            body += z
        at += k
    rows.append((0xFFFFFFFF, n, 0, len(body), 0))
    b = struct.pack(">4sIQQQII24xII128sI", b"mish", 1, 0, n, 0, 2056, 0, 2, 32, bytes(128), len(rows))
    for r in rows:
        b += struct.pack(">I4sQQQQ", r[0], bytes(4), *r[1:])
    p = plist(rng, [b])
    foot = bytearray(512)
    struct.pack_into(">4sIIIQQQ", foot, 0, b"koly", 4, 512, 1, 0, 0, len(body))
    struct.pack_into(">QQ", foot, 216, len(body), len(p))
    struct.pack_into(">II", foot, 56, 1, 1)
    struct.pack_into(">IQ", foot, 488, 1, n)
    return body + p + bytes(-(len(body) + len(p)) % 512) + bytes(foot)


def vhdx(rng, data, parent=None, ident=None):
    """parent: (content, data write identifier, file name)"""
    bs = MIB
    n = -(-len(data) // bs)
    ident = ident or uuid.UUID(int=rng.getrandbits(128))
    meta, bat = 2 * MIB, 3 * MIB
    out = {0: b"vhdxfile"}
    for k in (0, 1):
        h = bytearray(4096)
        h[0:4] = b"head"
        struct.pack_into("<Q", h, 8, 5 + k)
        h[32:48] = ident.bytes_le
        struct.pack_into("<HHIQ", h, 64, 0, 1, MIB, MIB)
        out[65536 * (k + 1)] = summed(h, None)
        g = bytearray(65536)
        g[0:4] = b"regi"
        struct.pack_into("<I", g, 8, 2)
        g[16:48] = guid("2dc27766-f623-4200-9d64-115e9bfd4a08") + struct.pack("<QII", bat, MIB, 1)
        g[48:80] = guid("8b7ca206-4790-4b9a-b8fe-575f050f886e") + struct.pack("<QII", meta, MIB, 1)
        out[65536 * (3 + k)] = summed(g, None)
    items = [("caa16737-fa36-4d43-b3b6-33f0aa44e76b", struct.pack("<II", bs, 2 if parent else 0), 4), ("2fa54224-cd1b-4876-b211-5dbed83bf4b8", struct.pack("<Q", len(data)), 6),
             ("8141bf1d-a96f-4709-ba47-f233a8faab5f", struct.pack("<I", 512), 6), ("cda348c7-445d-4471-9cc9-e9885251c556", struct.pack("<I", 4096), 6),
             ("beca12ab-b2e6-4523-93ef-c309e000c746", uuid.UUID(int=rng.getrandbits(128)).bytes_le, 6)]
    if parent:
        pairs = [(x.encode("utf-16-le"), y.encode("utf-16-le")) for x, y in (("parent_linkage", "{%s}" % parent[1]), ("relative_path", ".\\" + parent[2]))]
        loc = bytearray(20 + 12 * len(pairs))
        loc[0:16] = guid("b04aefb7-d19e-4a81-b789-25b8e9445913")
        struct.pack_into("<H", loc, 18, len(pairs))
        for j, (key, value) in enumerate(pairs):
            struct.pack_into("<IIHH", loc, 20 + 12 * j, len(loc), len(loc) + len(key), len(key), len(value))
            loc += key + value
        items.append(("a8d35f2d-b30b-454d-abf7-d3d84834ab0c", bytes(loc), 4))
    table = bytearray(65536)
    table[0:8] = b"metadata"
    struct.pack_into("<H", table, 10, len(items))
    at = 65536
    for j, (g, d, flags) in enumerate(items):
        table[32 + 32 * j:48 + 32 * j] = guid(g)
        struct.pack_into("<III", table, 48 + 32 * j, at, len(d), flags)
        out[meta + at] = d
        at += len(d)
    out[meta] = bytes(table)
    old = parent[0] if parent else b""
    at = 4 * MIB
    chunk = (1 << 23) * 512 // bs
    rows = bytearray(8 * (n + 1 if not parent else (chunk + 1)))
    bits = bytearray(MIB)
    any_ = False
    for k in range(n):
        d = data[k * bs:(k + 1) * bs].ljust(bs, b"\0")
        o = old[k * bs:(k + 1) * bs].ljust(bs, b"\0")
        if d == o:
            continue
        state = 6
        if parent:
            state, any_ = 7, True
            for s in range(bs // 512):
                if d[512 * s:512 * s + 512] != o[512 * s:512 * s + 512]:
                    i = k * (bs // 512) + s
                    bits[i // 8] |= 1 << i % 8
        struct.pack_into("<Q", rows, 8 * k, state | at)
        out[at] = d
        at += MIB
    if any_:
        struct.pack_into("<Q", rows, 8 * chunk, 6 | at)
        out[at] = bytes(bits)
        at += MIB
    out[bat] = bytes(rows)
    b = bytearray(at)
    for a, d in out.items():
        b[a:a + len(d)] = d
    return bytes(b)


def ewf(rng, data, stem, style="E01", media=1, granularity=None, ident=None, header=b"1\nmain\nc\tn\n1\t2\n\n", digests=()):
    """[(name, bytes)]: segment files"""
    spc = rng.choice([8, 64])
    cs = spc * 512
    n = -(-len(data) // cs)

    def adler(b):
        return struct.pack("<I", zlib.adler32(bytes(b)))

    gap = bytes(28) if granularity is None else bytes(32) + struct.pack("<I4x", granularity)
    vol = struct.pack("<B3xIIIQ", media, n, spc, 512, len(data) // 512) + gap + (ident or uuid.UUID(int=7)).bytes_le + bytes(968)
    vol = vol.ljust(1048, b"\0")
    vol += adler(vol)
    nseg = rng.choice([1, 1, 2, 3]) if n > 3 else 1
    cuts = sorted(rng.sample(range(1, n), nseg - 1)) if nseg > 1 else []
    res = []
    for s, (a, b) in enumerate(zip([0] + cuts, cuts + [n]), 1):
        out = bytearray(b"EVF\x09\x0d\x0a\xff\x00" + struct.pack("<BHH", 1, s, 0))

        def section(t, body):
            last = t in ("next", "done")
            h = struct.pack("<16sQQ40x", t.encode(), len(out) if last else len(out) + 76 + len(body), 0 if last else 76 + len(body))
            out.extend(h + adler(h) + body)
        if s == 1:
            section("header", zlib.compress(header))
            section("volume", vol)
        base = len(out) + 76
        body, rows = b"", []
        for k in range(a, b):
            d = data[k * cs:(k + 1) * cs]
            z = zlib.compress(d)
            if len(z) < len(d):
                rows.append(base + len(body) | 1 << 31)
                body += z
            else:
                rows.append(base + len(body))
                body += d + adler(d)
        section("sectors", body)
        head = struct.pack("<I4xQ4x", len(rows), 0)
        e = struct.pack("<%dI" % len(rows), *rows)
        section("table", head + adler(head) + e + adler(e))
        section("table2", head + adler(head) + e + adler(e))
        for t, d in digests if b == n else ():
            d += bytes((16 if t == "hash" else 40) - len(d) + (16 if t == "hash" else 36))
            section(t, d + adler(d))
        section("done" if b == n else "next", b"")
        e = style if s == 1 else style[0] + "%02d" % s
        res.append(("%s.%s" % (stem, e), bytes(out)))
    return res


# ---- file systems: trees of {"name", "kids" | "data" | "target", "times": [m, a, c, b], "streams": [(name, data)]}

def ext_volume(rng, tree):
    bs = rng.choice([1024, 1024, 2048, 4096])
    log = {1024: 0, 2048: 1, 4096: 2}[bs]
    first = 1 if bs == 1024 else 0
    isz = rng.choice([128, 256])
    nodes = []

    def count(t):
        nodes.append(t)
        for k in t.get("kids", []):
            count(k)
    count(tree)
    inodes = -(-(len(nodes) + 12) // (bs // isz)) * (bs // isz)
    inodes += -inodes % 8
    itab = first + 4
    at = itab + inodes * isz // bs
    disk = {}
    table = {}
    for i, t in enumerate(nodes):
        t["_ino"] = 2 if i == 0 else 11 + i

    def put(data):
        nonlocal at
        n = -(-len(data) // bs)
        a = at
        disk[a] = data
        at += n
        if rng.random() < 0.3:
            at += 1
        return a, n

    def inode(t, mode, size, data=None, inline=None):
        b = bytearray(isz)
        m, a, c, cr = [x & 0xFFFFFFFF for x in t["times"]]
        nm, na, nc, nb = t.get("nanos", [0] * 4)
        uid, gid = t.get("ids", (0, 0))
        struct.pack_into("<HHIIIIIHHII", b, 0, mode, uid & 0xFFFF, size & 0xFFFFFFFF, a, c, m, 0, gid & 0xFFFF, 1, 0, 0)
        struct.pack_into("<HH", b, 120, uid >> 16, gid >> 16)
        t["_id"], t["_mode"] = str(t["_ino"]), mode
        if inline is not None:
            b[40:40 + len(inline)] = inline
        elif data:
            s, n = put(data)
            if rng.random() < 0.7 or n > 12:
                struct.pack_into("<I", b, 32, 0x80000)
                struct.pack_into("<HHHHI", b, 40, 0xF30A, 1, 4, 0, 0)
                struct.pack_into("<IHHI", b, 52, 0, n, 0, s)
            else:
                struct.pack_into("<%dI" % n, b, 40, *range(s, s + n))
            struct.pack_into("<I", b, 28, n * bs // 512)
        elif rng.random() < 0.5:
            struct.pack_into("<I", b, 32, 0x80000)
            struct.pack_into("<HHHHI", b, 40, 0xF30A, 0, 4, 0, 0)
        if isz > 128:
            struct.pack_into("<H", b, 128, 32)
            struct.pack_into("<III", b, 132, nc << 2, nm << 2, na << 2)
            struct.pack_into("<II", b, 144, cr, nb << 2)
        t["_b"] = isz > 128
        table[t["_ino"]] = bytes(b)

    def directory(t, parent):
        items = [(t["_ino"], b".", 2), (parent, b"..", 2)]
        for k in t["kids"]:
            items.append((k["_ino"], k["name"].encode("utf-8", "surrogateescape"), 2 if "kids" in k else 7 if "target" in k else {0x1000: 5, 0x2000: 3, 0x6000: 4, 0xC000: 6}.get(k.get("special"), 1)))
        body, block = b"", b""
        for j, (ino, name, ft) in enumerate(items):
            n = 8 + len(name) + -len(name) % 4
            if len(block) + n > bs:
                block = block[:last + 4] + struct.pack("<H", bs - last) + block[last + 6:]
                body += block.ljust(bs, b"\0")
                block = b""
            last = len(block)
            block += (struct.pack("<IHBB", ino, n, len(name), ft) + name).ljust(n, b"\0")
        block = block[:last + 4] + struct.pack("<H", bs - last) + block[last + 6:]
        body += block.ljust(bs, b"\0")
        t["_size"] = len(body)
        inode(t, 0x4000 | t.get("mode", 0o755), len(body), body)
        for k in t["kids"]:
            if "kids" in k:
                directory(k, t["_ino"])
            elif "target" in k:
                e = k["target"].encode()
                inode(k, 0xA000 | k.get("mode", 0o777), len(e), inline=e if len(e) < 60 else None, data=e if len(e) >= 60 else None)
            else:
                inode(k, k.get("special", 0x8000) | k.get("mode", 0o644), len(k["data"]), k["data"])
    directory(tree, 2)
    at += rng.choice([0, 5])
    assert at < bs * 8
    blocks = at
    out = bytearray(blocks * bs)
    sb = struct.pack("<IIIIIIIIIIIIIHHHHHHIIIIHHIHHIII", inodes, blocks, 0, 0, 0, first, log, log, bs * 8, bs * 8, inodes, 0, 0, 0, 20, 0xEF53, 1, 1, 0, 0, 0, 0, 1, 0, 0, 11, isz, 0, 0, 0x42, 0)
    out[1024:1024 + len(sb)] = sb
    d = struct.pack("<IIIHHH", first + 2, first + 3, itab, 0, 0, 1)
    out[(first + 1) * bs:(first + 1) * bs + len(d)] = d
    for ino, b in table.items():
        p = itab * bs + (ino - 1) * isz
        out[p:p + isz] = b
    for a, d in disk.items():
        out[a * bs:a * bs + len(d)] = d
    return bytes(out)


def fat_volume(rng, tree):
    total = 0

    def count(t):
        n = 1
        for k in t.get("kids", []):
            n += count(k)
        return n + -(-len(t.get("data", b"")) // 512) + 3
    need = count(tree) + 40
    spc = rng.choice([1, 1, 2, 4])
    clusters = max(-(-need * 3 // 2 // spc) + 60, 100)
    kind = 12
    if clusters > 4000:
        kind, clusters = 16, max(clusters, 4200)
    v = fat.Volume(rng, kind, clusters, 512, spc)
    v.rootn = 128
    v.first = v.reserved + v.fats * v.fatsize + 8
    v.sectors = v.first + clusters * spc
    files = []
    size = 512 * spc

    def stamp(t):
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
        return (d.year - 1980) << 9 | d.month << 5 | d.day, d.hour << 11 | d.minute << 5 | d.second // 2

    def directory(t, at, parent):
        slots = []

        def slot(name, attr, cluster, n, times, cs=0):
            (cd, ct), (ad, _), (md, mt) = stamp(times[3]), stamp(times[1]), stamp(times[0])
            return struct.pack("<11sBBBHHHHHHHI", name, attr, 0, cs, ct, cd, ad, 0, mt, md, cluster, n)
        if at:
            slots.append(slot(b".          ", 0x10, at, 0, t["times"]))
            slots.append(slot(b"..         ", 0x10, parent, 0, t["times"]))
        for i, k in enumerate(t["kids"]):
            stem, _, e = k["name"].upper().partition(".")
            plain = k["name"] == k["name"].upper() and len(stem) <= 8 and len(e) <= 3 and all(c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_." for c in k["name"])
            short = stem.ljust(8).encode() + e.ljust(3).encode() if plain else b"KV%06d~~~" % i
            if "kids" in k:
                sub = directory(k, None, at or 0)
                first, n, attr = sub, 0, k.get("attr", 0) & 0x27 | 0x10
            else:
                d = k["data"]
                got = v.take(-(-len(d) // size)) if d else []
                v.chain(got)
                files.append((got, d))
                first, n, attr = (got[0] if got else 0), len(d), k.get("attr", 0x20)
            one = slot(short, attr, first, n, k["times"], k.get("nanos", [0] * 4)[3] // 10000000)
            k["_attr"] = attr
            slots += ([] if plain else fat.long_slots(units(k["name"]), fat.checksum(short))) + [one]
            k["_short"] = len(slots) - 1
        if at == 0:
            assert len(slots) < v.rootn
            v.slots[0] = slots
            return 0
        return slots

    def sub_directory(t, parent):
        # clusters first: their number is needed within
        n = len(t["kids"])
        per = v.per()
        most = 2 + sum(1 + (len(k["name"]) // 13 + 1) for k in t["kids"])
        got = v.take(-(-(most + 1) // per))
        v.chain(got)
        t["_got"] = got
        slots = inner(t, got[0], parent)
        for j, c in enumerate(got):
            part = slots[j * per:(j + 1) * per]
            v.slots[c] = part + [bytes(32)] * (per - len(part))
        return got[0]
    inner = directory

    def directory2(t, at, parent):
        return sub_directory(t, parent) if at is None else inner(t, at, parent)
    directory = directory2
    directory(tree, 0, 0)

    def identify(t, place):
        for k in t["kids"]:
            k["_id"] = "0x%08x" % place(k["_short"])
            if "kids" in k:
                identify(k, lambda n, got=k["_got"]: (v.first + (got[n // v.per()] - 2) * spc) * 512 + n % v.per() * 32)
    identify(tree, lambda n: (v.first - 8) * 512 + n * 32)
    tree["_id"] = "0x%08x" % ((v.first - 8) * 512)

    def write(path):
        v.write(path)
        with open(path, "r+b") as f:
            for got, d in files:
                for j, c in enumerate(got):
                    f.seek((v.first + (c - 2) * spc) * 512)
                    f.write(d[j * size:(j + 1) * size])
    return through(write)


FT = 116444736000000000


# label, version and flags of an NTFS volume
NTFS_FACTS = lambda rng: (units("kv"), (3, 1), 0)


def ntfs_volume(rng, tree):
    v = ntfs.Volume(rng)
    total = 0

    def count(t):
        n = 1 + len(t.get("data", b"")) // 4096 + sum(len(d) // 4096 + 1 for _, d in t.get("streams", []))
        return n + sum(map(count, t.get("kids", [])))
    v.bps, v.bs, v.mftsz, v.isz, v.old = 512, rng.choice([1024, 4096]), 1024, rng.choice([1024, 4096]), False
    v.clusters = (count(tree) * 3 * 4096 + 1200000) // v.bs
    v.used = [(0, max(1, 8192 // v.bs))]
    v.label, v.version, v.vflags = NTFS_FACTS(rng)
    v.has_info = True
    v.lows = set()
    t = object.__new__(ntfs.Tree)
    t.rng, t.v = rng, v
    t.owned = {k: t.file_name((5, 5), units(x), 3, 6) for k, x in ((0, "$MFT"), (3, "$Volume"), (10, "$UpCase"), (5, "."))}

    def info(node):
        m, a, c, b = [FT + x * 10000000 + y // 100 for x, y in zip(node["times"], node.get("nanos", [0] * 4))]
        return [v.resident(16, None, struct.pack("<QQQQIIII", b, m, c, a, node.get("attr", 0x20), 0, 0, 0))]

    def stream(name, d):
        if len(d) < 150:
            return [v.resident(128, name, d)]
        n = -(-len(d) // v.bs)
        runs = v.fragments(n, most=rng.choice([0, 2]))
        v.store(runs, d)
        return v.nonresident(128, name, runs, len(d), len(d), split=0)

    def put(node, n, names):
        seq = 5 if n == 5 else 1
        node["_id"] = "%d-%d" % (n, seq)
        node["_attr"] = node.get("attr", 0x20)
        attrs = [info(node)] + [[v.resident(48, None, b, shown=[])] for b in names]
        if "kids" in node:
            items = []
            if n == 5:
                for k, x in ((0, "$MFT"), (3, "$Volume"), (5, "."), (10, "$UpCase")):
                    items.append((units(x), (k, k if k else 1), t.owned[k]))
            for k in node["kids"]:
                m = v.number()
                b = t.file_name((n, seq), units(k["name"]), rng.choice([0, 1, 3]), 0x10000000 if "kids" in k else 0x20)
                k["_named"] = struct.unpack_from("<4Q", b, 8)
                put(k, m, [b])
                items.append((units(k["name"]), (m, 1), b))
            attrs += t.index(items, False)
        elif "target" in node:
            p = pack(units(node["sub"]))
            q = pack(units(node["target"]))
            body = struct.pack("<HHHHI", 0, len(p), len(p), len(q), node["flags"]) + p + q
            attrs.append([v.resident(192, None, struct.pack("<IHH", 0xA000000C, len(body), 0) + body)])
        if "data" in node:
            attrs.append(stream(None, node["data"]))
        for name, d in node.get("streams", []):
            attrs.append(stream(units(name), d))
        v.entry(n, attrs, seq, is_dir="kids" in node)
        return seq
    put(tree, 5, [t.owned[5]])
    t.system(rng)
    return through(v.write)


# ---- worlds

NAMES = ["a.txt", "README.TXT", "file", "some file.bin", "x.y.z", "Über", "данные.txt", "日本.dat", "~", "UPPER", "new folder", "a", "b", "c1", "very long name of a file that needs several slots.data"]


# what a name may be made of that is to be escaped when shown
WILD = ["a:b", "x|y.txt", "a'b", "tab\there", "\x01\x1f", "\x7f\x9f\xa0", "\u2028line", "\u2029.p", "\ue000\uf8ff", "\ufdd0\ufddf\ufffe", "\uffff", "a;b", "a b ", "\u00ad", "::$x", "|", "~~",
        "\U0001F600.png", "\U0001fffe", "\U000f0000\U0010fffd"]
WILDER = ["back\\slash", "\\", "new\nline", "a\rb", "\x7f", "caf\udce9", "\udcff\udc80", "x\udcc3", "\\x01", "a\\:b", "\\|"]
HASHES = ["md5", "sha1", "sha224", "sha256", "sha512"]


def sums(d):
    return {k: hashlib.new(k, d).hexdigest() for k in HASHES}


def codes(fs, name):
    """A name as the numbers its file system stores: of characters or of 16-bit units, or of bytes that are not UTF-8."""
    if fs in ("Ntfs", "Fat"):
        return [False, units(name)]
    if any(0xDC80 <= ord(c) <= 0xDCFF for c in name):
        return [True, list(name.encode("utf-8", "surrogateescape"))]
    return [False, [ord(c) for c in name]]


def moment(v, digits):
    """A time as a whole number of units of 10^-digits seconds."""
    return [v < 0, big(abs(v)), digits]


def detect(b):
    """What a scanner may take the bytes to be: an image, a volume system, a file system."""
    img = {b"EVF\x09": "Ewf", b"QFI\xfb": "Qcow", b"sprs": "SparseImage", b"vhdx": "Vhdx"}.get(b[:4], "")
    tail = b[-512:] if len(b) >= 512 else b""
    end = "Udif" if tail[:4] == b"koly" else "Vhd" if tail[:8] == b"conectix" else ""
    # (an image that ends with the end of one within is neither to a scanner)
    img = "two" if img and end else img or end
    fs = "Fat" if b[54:62] in (b"FAT12   ", b"FAT16   ") else "Ntfs" if b[3:11] == b"NTFS    " else "Ext" if b[1080:1082] == b"\x53\xef" else ""
    both = [b[560:579] == b"Apple_partition_map", any(b[n:n + 8] == b"EFI PART" for n in (512, 1024, 2048, 4096))]
    vol = "Apm and Gpt" if all(both) else "Apm" if both[0] else "Gpt" if both[1] else ""
    if not vol and fs not in ("Fat", "Ntfs") and any(b[n - 2:n] == b"\x55\xaa" for n in (512, 1024, 2048, 4096)):
        vol = "Mbr"
    return {"img": img, "vol": vol, "fs": fs}


class World:
    """File systems, number 1 the one of the operating system; entries of which can be seen as others."""

    def __init__(self, rng, tools=False):
        self.rng = rng
        self.tools = tools       # what the command line tools show as well
        self.fss = [None]
        self.files = []          # of the operating system: (name, bytes)
        self.times = {}
        self.depth = rng.choice([1, 2, 2, 3])
        top = []
        for k in range(rng.choice([1, 1, 2])):
            top += self.store("disk%d" % k, 0, True)
        self.files = [(e["name"], e["bytes"]) for e in top]
        entries = [self.entry([""], "dir", views={})]
        for e in top:
            if detect(e["bytes"])["img"] == "two":
                raise AssertionError("two images")
            t = [rng.randrange(1, rng.choice([1 << 31, 1 << 33])) for _ in "ma"]
            self.times[e["name"]] = t
            entries.append(self.entry(["", e["name"]], "file", e["bytes"], views=e["views"], times=[iso(t[0], "" if t[0] < 1 << 31 else ".000000000"), "", "", ""]))
        self.fss[0] = {"type": "Os", "entries": entries}

    def entry(self, path, kind, data=None, views=None, times=None, target="-", streams=(), node=None, fs=""):
        d = data if data is not None else b""
        more = {}
        if self.tools:
            more["sums"] = sums(d) if data is not None else {k: "-" for k in HASHES}
            more["guid"], more["guidcodes"] = "", []
            more["targetcodes"] = [ord(x) for x in target]
            more["raw"] = [codes(fs, n) for n in path]
            if node is not None:
                more.update(self.facts(fs, node, kind, d, streams, len(path) == 1))
        return more | {"path": path, "name": path[-1] if len(path) > 1 else "", "kind": kind, "size": big(len(d)), "crc": big(crc(d)), "has": data is not None,
                "times": times or ["", "", "", ""], "target": target, "streams": [[n, big(len(x)), big(crc(x))] for n, x in streams],
                "views": views or {}, "scan": detect(d) if data is not None else {"img": "", "vol": "", "fs": ""}}

    def facts(self, fs, t, kind, data, streams, top):
        m, a, c, b = t["times"]
        nm, na, nc, nb = t.get("nanos", [0] * 4)
        no = []
        f = {"id": t["_id"], "uid": "", "gid": "", "mode": 0, "length": 0, "stamps": [no] * 4, "named": [], "sub": [], "flags": 0}
        if fs == "Ext":
            f["uid"], f["gid"] = map(str, t.get("ids", (0, 0)))
            f["mode"] = t["_mode"]
            f["length"] = len(t["target"].encode()) if "target" in t else len(data)
            if t["_b"]:
                f["stamps"] = [moment(x * 10 ** 9 + y, 9) for x, y in ((a, na), (m, nm), (c, nc), (b, nb))]
            else:
                f["stamps"] = [moment(x, 0) for x in (a, m, c)] + [no]
        elif fs == "Fat":
            f["length"], f["flags"] = len(data), t.get("_attr", 0)
            if not top:
                f["stamps"] = [moment(a // 86400 * 86400, 0), moment(m, 0), no, moment(b * 100 + nb // 10000000, 2)]
        else:
            f["length"], f["flags"] = len(data), t["_attr"]
            f["stamps"] = [moment(x * 10 ** 7 + y // 100, 7) for x, y in ((a, na), (m, nm), (c, nc), (b, nb))]
            if not top:
                nb, nm, nc, na = t["_named"]
                f["named"] = [moment(x - FT, 7) if x else no for x in (na, nm, nc, nb)]
        f["forks"] = [[codes(fs, n), len(x), sums(x)] for n, x in streams]
        return f

    def add(self, t, entries):
        for e in entries:
            # a layer or partition with an image that starts as the disk in it does: there are two ways to see it
            if e["has"] and e["scan"]["img"] and (e["scan"]["vol"] or e["scan"]["fs"]) and t not in ("Ext", "Fat", "Ntfs"):
                raise AssertionError("two ways")
        # what a scan takes the disk to be is what it is
        for e in [] if t in ("Ext", "Fat", "Ntfs") else entries[1:] if t in ("Apm", "Gpt", "Mbr") else entries[-1:]:
            seen = t not in ("Apm", "Gpt", "Mbr") and e["scan"]["vol"] or e["scan"]["fs"]
            if seen and seen not in e["views"]:
                raise AssertionError("seems another")
        self.fss.append({"type": t, "entries": entries})
        return len(self.fss)

    def blob(self):
        r = self.rng
        n = 512 * r.choice([8, 16, 40, 100])
        # nothing that looks like anything else
        return bytes(r.randrange(128) for _ in range(64)) * (n // 64) if r.random() < 0.9 else bytes(n)

    def disk(self, depth):
        """(bytes, views)"""
        r = self.rng
        x = r.random()
        if depth >= self.depth + 1 or x < 0.12:
            return self.blob(), {}
        if x < 0.5:
            return self.volume(depth)
        if x < 0.85:
            return self.parts(depth)
        f = self.store("inner", depth, False)
        return f[-1]["bytes"], f[-1]["views"]

    def parts(self, depth):
        r = self.rng
        subs = [self.disk(depth + 1) if r.random() < 0.8 else (self.blob(), {}) for _ in range(r.choice([1, 2, 3, 5]))]
        subs = [(b + bytes(-len(b) % 512), v) for b, v in subs if len(b) < 6 << 20] or [(self.blob(), {})]
        kind = r.choice(["Mbr", "Gpt", "Gpt", "Apm"])
        views = {}
        whole = [b for b, _ in subs]
        if kind == "Mbr":
            data = mbr(r, whole)
        elif kind == "Gpt":
            hybrid = [k for k in range(min(3, len(subs))) if r.random() < 0.6]
            data, others, mixed, ids = gpt(r, whole, hybrid)
            hybrid = hybrid if mixed else []
            es = [self.entry([""], "dir")]
            for i, b in enumerate(others):
                v = {} if not hybrid or i == 0 else subs[hybrid[i - 1]][1]
                es.append(self.entry(["", "mbr%d" % (i + 1)], "file", b, views=v))
            views["Mbr"] = self.add("Mbr", es)
        else:
            data, _ = apm(r, whole)
        prefix = kind.lower()
        es = [self.entry([""], "dir")] + [self.entry(["", "%s%d" % (prefix, i + 1)], "file", b, views=v) for i, (b, v) in enumerate(subs)]
        for e, x in zip(es[1:], ids if kind == "Gpt" and self.tools else []):
            e["guid"] = str(x)
            e["guidcodes"] = [ord(x) for x in e["guid"]]
        views[kind] = self.add(kind, es)
        return data, views

    def volume(self, depth):
        r = self.rng
        kind = r.choice(["Ext", "Fat", "Ntfs"])
        left = [r.choice([3, 6, 12])]
        base = 1500000000 + r.randrange(10 ** 6) * 2
        names = NAMES + (WILD + (WILDER if kind == "Ext" else []) if self.tools else [])

        def times():
            if self.tools and kind != "Fat" and r.random() < 0.3:
                return [r.choice([-1, 1, 1, -1, -1]) * r.randrange(1, 1 << 31) // r.choice([1, 1, 1000, 1 << 28]) or -1 for _ in range(4)]
            return [base + 86400 * r.randrange(1, 400) + 2 * r.randrange(40000) for _ in range(4)]

        def dressed(k):
            if self.tools:
                k["nanos"] = [r.choice([0, r.randrange(10 ** 9), r.randrange(10 ** 7) * 100, 1, 100, 500000000, 999999999]) for _ in range(4)]
                k["ids"] = [r.choice([0, 1000, r.getrandbits(16), r.getrandbits(31)]) for _ in "ug"]
                k["mode"] = r.choice([0o755, 0o644, r.getrandbits(9), r.getrandbits(12)])
                k["attr"] = r.choice([0x20, 0, 1, 2, 4, r.getrandbits(6) & 0x27])
                if "data" in k and kind == "Ext" and r.random() < 0.15:
                    k["special"] = r.choice([0x1000, 0x2000, 0x6000, 0xC000])
                    k["data"], k["views"] = b"", {}
            return k

        def directory(level):
            return dressed(directory_of(level))

        def directory_of(level):
            kids, used = [], set()

            def name(n):
                if n.upper() in used:
                    return False
                used.add(n.upper())
                return True
            for _ in range(r.choice([0, 1, 3, 5]) if level else r.choice([2, 4, 6])):
                if left[0] <= 0:
                    break
                left[0] -= 1
                x = r.random()
                n = r.choice(names)
                if x < 0.25 and level < 3:
                    if name(n):
                        kids.append(dict(directory(level + 1), name=n, times=times()))
                elif x < 0.4 and kind != "Fat":
                    if name(n):
                        t = r.choice(["a.txt", "../b", "/x/y", "sub/dir/file", "/", "a" * 70, "\u00fcber"]) if kind == "Ext" else r.choice(
                            [("C:\\a\\b", "\\??\\C:\\a\\b", 0), ("..\\b", "..\\b", 1), ("sub\\x\\y", "sub\\x\\y", 1), ("name", "name", 1), ("\\x\\y", "\\x\\y", 1)])
                        k = {"name": n, "target": t, "times": times()}
                        if kind == "Ntfs":
                            k.update(target=t[0], sub=t[1], flags=t[2])
                        kids.append(k)
                elif x < 0.6 and depth < self.depth + 1:
                    fs = self.store(r.choice(NAMES).partition(".")[0] or "z", depth + 1, "fs")
                    if sum(len(f["bytes"]) for f in fs) < 3 << 20 and all(f["name"].upper() not in used for f in fs):
                        for f in fs:
                            name(f["name"])
                            kids.append({"name": f["name"], "data": f["bytes"], "views": f["views"], "times": times()})
                elif name(n):
                    d = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 60, 700, 5000])))
                    k = {"name": n, "data": d, "views": {}, "times": times()}
                    if kind == "Ntfs" and r.random() < 0.5:
                        k["streams"] = [(s, bytes(r.randrange(256) for _ in range(r.choice([0, 3, 900])))) for s in r.sample(["ads", "Zone.Identifier", "\u00e9"], r.choice([1, 2]))]
                    kids.append(k)
            for k in kids:
                if "kids" not in k:
                    dressed(k)
            return {"kids": kids, "times": times()}
        tree = directory(0)
        data = {"Ext": ext_volume, "Fat": fat_volume, "Ntfs": ntfs_volume}[kind](r, tree)
        es = []

        def shown(t, tree):
            m, a, c, b = t
            if self.tools:
                return ["", "", "", ""]
            if kind == "Ext":
                f = ".000000000" if tree.get("_b") else ""
                return [iso(m, f), iso(a, f), iso(c, f), iso(b, f) if tree.get("_b") else ""]
            if kind == "Fat":
                return [iso(m), iso(a)[:10], "", iso(b, ".00")]
            return [iso(x, ".0000000") for x in t]

        def walk(t, path):
            if self.tools:
                here = {"node": t, "fs": kind}
            else:
                here = {}
            if "kids" in t:
                es.append(self.entry(path, "dir", **here, times=shown(t["times"], t) if not (kind == "Fat" and len(path) == 1) else ["", "", "", ""]))
                for k in t["kids"]:
                    walk(k, path + [k["name"]])
            elif "target" in t:
                es.append(self.entry(path, "link", **here, times=shown(t["times"], t), target=t["target"]))
            elif "special" in t:
                es.append(self.entry(path, "other", **here, times=shown(t["times"], t)))
            else:
                es.append(self.entry(path, "file", t["data"], t["views"], **here, times=shown(t["times"], t), streams=t.get("streams", [])))
        walk(tree, [""])
        if kind == "Ntfs":
            for x in ("$MFT", "$Volume", "$UpCase"):
                es.append(self.entry(["", x], "own", fs=kind))
        return data, {kind: self.add(kind, es)}

    def store(self, stem, depth, place):
        """Files of a disk: itself or as images; the last one is the one to open.  place: True for files of the operating system, "fs" for others, False if alone."""
        r = self.rng
        data, views = self.disk(depth + 1) if depth < self.depth + 1 else (self.blob(), {})
        kinds = ["raw", "vhd", "qcow", "sparse", "udif"] + (["vhdx", "ewf", "vhd", "qcow"] if place is True else ["ewf"] if place else [])
        kind = r.choice(kinds)
        if len(data) > (1000 << 20) or kind == "raw" and place is not False:
            return [{"name": stem + r.choice([".raw", ".dd", ""]), "bytes": data, "views": views}]
        if kind == "raw":
            kind = "qcow"

        def layers(prefix, contents, t):
            return self.add(t, [self.entry([""], "dir")] + [self.entry(["", "%s%d" % (prefix, i + 1)], "file", b, views=v) for i, (b, v) in enumerate(contents)])

        def file(name, b, t, v):
            return {"name": name, "bytes": b, "views": {t: v}}
        data += bytes(-len(data) % 512)
        if kind in ("vhd", "vhdx", "qcow"):
            n = r.choice([1, 1, 2, 3]) if place is not False else 1
            olds = []
            for _ in range(n - 1):
                b = bytearray(data)
                for _ in range(r.choice([1, 4])):
                    at = r.randrange(len(b) // 512) * 512
                    m = 512 * r.choice([1, 3, 20])
                    m = min(m, len(b) - at)
                    b[at:at + m] = bytes([r.randrange(1, 250)]) * m
                olds.append((bytes(b), {}))
            chain = olds + [(data, views)]
            res, parent = [], None
            for i, (b, v) in enumerate(chain):
                name = "%s%s.%s" % (stem, "-%d" % i if i + 1 < n else "", {"vhd": "vhd", "vhdx": "vhdx", "qcow": "qcow2"}[kind])
                if kind == "qcow":
                    f = qcow(r, b, backing=parent and (parent[0], parent[2]))
                    parent = (b, None, name)
                else:
                    ident = uuid.UUID(int=r.getrandbits(128))
                    f = (vhd(r, b, "diff" if parent else None, parent, ident) if kind == "vhd" else vhdx(r, b, parent, ident))
                    parent = (b, ident, name)
                res.append(file(name, f, kind.capitalize(), layers(kind, chain[:i + 1], kind.capitalize())))
            return res
        if kind == "sparse":
            return [file(stem + ".sparseimage", sparseimage(r, data), "SparseImage", layers("sparseimage", [(data, views)], "SparseImage"))]
        if kind == "udif":
            return [file(stem + ".dmg", udif(r, data), "Udif", layers("udif", [(data, views)], "Udif"))]
        fs = ewf(r, data, stem)
        v = layers("ewf", [(data, views)], "Ewf")
        return [{"name": n, "bytes": b, "views": {}} for n, b in fs[1:]] + [file(fs[0][0], fs[0][1], "Ewf", v)]

    def write(self, d):
        for n, b in self.files:
            with open(os.path.join(d, n), "wb") as f:
                f.write(b)
            m, a = self.times[n]
            os.utime(os.path.join(d, n), (a, m))
