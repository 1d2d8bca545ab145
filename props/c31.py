"""C31: keramicsinfo reports what an image, a volume system or a file of a file system holds."""
import datetime, os, random, re, struct, subprocess, uuid, zlib
from concurrent.futures import ThreadPoolExecutor
from kv import Check
from images import new_dir, drop
from streams import big
import stack
from stack import World
from tracing import record

stack.WILD, stack.WILDER = [], []        # names that are shown as they are
SIZES = [0, 1, 2, 3, 7, 21, 100, 2047, 2048, 2049, 2099, 2100, 3072, 4096]


def blob(rng, sectors):
    return (bytes(rng.randrange(1, 120) for _ in range(64)) * (sectors * 8)) if rng.random() < 0.5 else bytes(512 * sectors)


def sectors(rng):
    """Sizes at the steps of the shortened text."""
    return rng.choice([1, 2, 3, 5, 8, 16, 21, 100, 333, 1000, 2047, 2048, 2049, 2100, rng.randrange(1, 4000)])


def huge(rng, least=1):
    """Numbers of sectors."""
    return max(least, rng.choice([rng.getrandbits(10), rng.getrandbits(20), rng.getrandbits(32), 1 << rng.randrange(1, 32), (1 << rng.randrange(8, 32)) - 1]))


def mbr(rng):
    n = rng.randrange(1, 5)
    b = bytearray(512 * rng.choice([8, 64, 300]))
    disk = rng.choice([0, 1, rng.getrandbits(16), rng.getrandbits(32)])
    struct.pack_into("<I", b, 440, disk)
    parts, at = [], rng.choice([1, 63, 2048, rng.getrandbits(20), rng.getrandbits(30)])
    for k in range(n):
        t, flags = rng.choice([1, 4, 6, 7, 11, 12, 14, 130, 131, 142, 165, 175, 239, 253]), rng.choice([0, 0x80])
        size = max(1, min(huge(rng), rng.choice([(1 << 31) - at, (1 << 32) - 1])))
        if at >= 1 << 32:
            break
        struct.pack_into("<B3sB3sII", b, 446 + 16 * k, flags, bytes(3), t, bytes(3), at, size)
        parts.append({"type": t, "flags": flags, "offset": big(at * 512), "size": big(size * 512)})
        at += size
    b[510:512] = b"\x55\xaa"
    # the source ends where the last partition does, which leaves no doubt about the size of sectors
    return (bytes(b), at * 512), {"kind": "mbr", "disk": big(disk), "bps": big(512), "parts": parts}


def gpt(rng):
    bps = 512
    parts, body, at = [], b"", 34
    for k in range(rng.randrange(0, 5)):
        size = max(1, rng.choice([sectors(rng), rng.getrandbits(10) + 1, rng.getrandbits(33) + 1, 1 << rng.randrange(34, 53), rng.getrandbits(52)]))
        i, t = (uuid.UUID(int=rng.getrandbits(128) | 1) for _ in "it")
        body += struct.pack("<16s16sQQQ72s", t.bytes_le, i.bytes_le, at, at + size - 1, rng.getrandbits(64), "p".encode("utf-16-le"))
        parts.append({"id": str(i), "type": str(t), "offset": big(at * bps), "size": big(size * bps)})
        at += size + rng.choice([0, 3, 2048])
    body = body.ljust(16384, b"\0")
    disk = uuid.UUID(int=rng.getrandbits(128))
    last = at + 40
    h = struct.pack("<8sIII4xQQQQ16sQIII", b"EFI PART", 0x10000, 92, 0, 1, last, 34, max(34, at), disk.bytes_le, 2, 128, 128, zlib.crc32(body))
    h = h[:16] + struct.pack("<I", zlib.crc32(h)) + h[20:]
    b = bytearray(512 * 40)
    struct.pack_into("<B3sB3sII", b, 446, 0, bytes(3), 0xEE, bytes(3), 1, min(last, 0xFFFFFFFF))
    b[510:512] = b"\x55\xaa"
    b[512:604] = h
    b[1024:1024 + 16384] = body
    return bytes(b), {"kind": "gpt", "disk": str(disk), "bps": big(bps), "parts": parts}


def apm(rng):
    n = rng.randrange(1, 5)
    rows, at = [("Apple", "Apple_partition_map", 1, n + 1, 0x33)], n + 2
    for k in range(n):
        size = min(huge(rng), (1 << 32) - 1 - at)
        if size < 1:
            break
        rows.append((rng.choice(["", "disk", "Macintosh HD", "a" * 31]), rng.choice(["Apple_HFS", "Apple_Free", "Apple_UNIX_SVR2"]), at, size, rng.choice([0, 0x33, 0x7F, rng.getrandbits(32)])))
        at = min(at + size + rng.choice([0, 5]), (1 << 32) - 1)
    b = bytearray(512 * (len(rows) + 3))
    b[0:8] = struct.pack(">2sHI", b"ER", 512, at)
    for k, (name, t, s, m, flags) in enumerate(rows):
        b[512 * (k + 1):512 * (k + 1) + 92] = struct.pack(">2sHIII32s32sIII", b"PM", 0, len(rows), s, m, name.encode(), t.encode(), 0, m, flags)
    return bytes(b), {"kind": "apm", "bps": big(512), "parts": [{"name": r[0], "type": r[1], "offset": big(r[2] * 512), "size": big(r[3] * 512), "flags": big(r[4])} for r in rows[1:]]}


def qcow(rng):
    data = blob(rng, sectors(rng))
    name = rng.choice(["", "", "base.qcow2", "dir/other file.img"])
    ver = rng.choice([1, 2, 3])
    b = bytearray(stack.qcow(rng, data, backing=(bytes(len(data)), name) if name else None, version=ver))
    size = len(data)
    enc = 0
    return bytes(b), {"kind": "qcow", "version": ver, "size": big(size), "encryption": enc, "backing": name}


def sparse(rng):
    n = rng.choice([0, 1, 2, rng.getrandbits(9), rng.getrandbits(30), (1 << 32) - 1, rng.getrandbits(20)]) or 1
    spb = rng.choice([1, 2, 3, 8, 64, 2048, 1 << 12, 4095])
    while -(-n // spb) > 1008:
        spb *= 2
    if spb > 1 << 22:        # bands of 4 GiB and above are not taken
        n, spb = n >> 12 or 1, spb >> 12
    b = struct.pack(">4sIIII12xI28x", b"sprs", 3, spb, 1, n, 0) + bytes(4032)
    return b.ljust(4096, b"\0")[:4096] + bytes(512), {"kind": "sparse", "size": big(n * 512), "bps": big(512), "band": big(spb * 512)}


def udif(rng):
    data = blob(rng, sectors(rng))
    k = rng.getrandbits(64)
    b = stack.udif(random.Random(k), data)
    t = random.Random(k).choice([1, 0x80000005, 0x80000005, 0x80000006])
    used = any(data)
    return b, {"kind": "udif", "size": big(len(data)), "bps": big(512), "method": {1: "raw", 0x80000005: "zlib", 0x80000006: "bzip2"}[t] if used else "raw"}


def vhd(rng):
    data = blob(rng, sectors(rng))
    kind = rng.choice(["fixed", "dynamic", "diff"])
    ident, old = uuid.UUID(int=rng.getrandbits(128)), uuid.UUID(int=rng.getrandbits(128))
    name = rng.choice(["base.vhd", "Über disk.vhd", "x" * 200])
    parent = (bytes(len(data)), old, name) if kind == "diff" else None
    return stack.vhd(rng, data, kind, parent, ident), {"kind": "vhd", "type": kind, "size": big(len(data)), "bps": big(512), "id": str(ident),
                                                       "parent": str(old) if parent else "", "names": [name] if parent else []}


def vhdx(rng):
    data = blob(rng, rng.choice([1, 3, 2048, 2049, 5000]))
    ident, old = uuid.UUID(int=rng.getrandbits(128)), uuid.UUID(int=rng.getrandbits(128))
    name = rng.choice(["base.vhdx", "other disk.vhdx"])
    parent = (bytes(len(data)), old, name) if rng.random() < 0.5 else None
    return stack.vhdx(rng, data, parent, ident), {"kind": "vhdx", "type": "diff" if parent else "dynamic", "size": big(len(data)), "bps": big(512), "id": str(ident),
                                                  "parent": str(old) if parent else "", "names": [".\\" + name, ".\\\\" + name] if parent else []}


VALUES = {"c": "Case number", "n": "Evidence number", "a": "Description", "e": "Examiner name", "t": "Notes", "av": "Software version used", "ov": "Operating system used",
          "md": "Model", "sn": "Serial number", "l": "Device label", "pid": "Process identifier", "r": "Compression level"}


def ewf(rng):
    data = blob(rng, sectors(rng))
    keys = rng.sample(sorted(VALUES), rng.randrange(0, 9)) or ["c"]
    vals = {k: rng.choice(["f", "n", "b"]) if k == "r" else rng.choice(["", "1", "some text", "A: B", "x" * 60]) for k in keys}
    header = "1\nmain\n%s\n%s\n\n" % ("\t".join(keys), "\t".join(vals[k] for k in keys))
    md5, sha1 = rng.randbytes(16), rng.randbytes(20)
    digests = rng.choice([[], [("hash", md5)], [("digest", md5 + sha1)], [("hash", md5), ("digest", md5 + sha1)]])
    media, gran, ident = rng.choice([0, 1, 3, 14, 16]), rng.choice([0, 1, 64, rng.getrandbits(31)]), uuid.UUID(int=rng.choice([0, rng.getrandbits(128)]))
    files = stack.ewf(rng, data, "x", media=media, granularity=gran, ident=ident, header=header.encode(), digests=digests)
    spc = struct.unpack("<I", zlib_volume(files[0][1])[8:12])[0]
    names = [t for t, _ in digests]
    return files, {"kind": "ewf", "id": "" if not ident.int else str(ident), "spc": big(spc), "granularity": big(gran), "media": media, "bps": big(512), "sectors": big(len(data) // 512),
                   "size": big(len(data)), "md5": md5.hex() if names else "", "sha1": sha1.hex() if "digest" in names else "", "values": {VALUES[k]: v for k, v in vals.items()} or {"-": ""}}


def zlib_volume(b):
    at = 13
    while b[at:at + 6] != b"volume":
        at = struct.unpack_from("<Q", b, at + 16)[0]
    return b[at + 76:]


KINDS = {"mbr": mbr, "gpt": gpt, "apm": apm, "qcow": qcow, "sparse": sparse, "udif": udif, "vhd": vhd, "vhdx": vhdx, "ewf": ewf}


class Volume(World):
    """One file system."""

    def __init__(self, rng):
        self.rng, self.tools, self.fss, self.depth = rng, True, [None], 0
        self.nodes = []
        name = rng.choice(["kv", "disk", "Ünï 中", "x" * 32])
        self.facts_ = ([ord(c) for c in name], rng.choice([(3, 1), (3, 0), (1, 2)]), rng.choice([0, 1, 0x8000, rng.getrandbits(16)]))
        stack.NTFS_FACTS = lambda _: self.facts_
        self.data, views = self.volume(1)
        self.fs = next(iter(views))
        self.entries = self.fss[views[self.fs] - 1]["entries"]

    def entry(self, path, kind, *more, node=None, **named):
        e = super().entry(path, kind, *more, node=node, **named)
        self.nodes.append((e, node))
        return e


def iso(t, frac):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime("%Y-%m-%dT%H:%M:%S").rjust(19, "0") + frac


def patched(w):
    """What a file system says of itself: the facts are put into the superblock of ext, those of the others are read."""
    r, b = w.rng, bytearray(w.data)
    if w.fs == "Ext":
        label, path = r.choice(["", "root", "boot disk", "é" * 8, "x" * 16]), r.choice(["", "/", "/mnt/some where", "/" + "p" * 63])
        compat = struct.unpack_from("<I", b, 1116)[0] | r.choice([0, r.getrandbits(6), r.getrandbits(13) & 0x1E3F])
        ro = struct.unpack_from("<I", b, 1124)[0] | r.choice([0, r.getrandbits(3), r.choice([8, 16, 32, 64, 128, 256, 0x1000, 0x2000, 0x4000, 0x8000])])
        times = [r.choice([0, 1, r.getrandbits(31), 1500000000]) for _ in "mw"]
        struct.pack_into("<I", b, 1116, compat)
        struct.pack_into("<I", b, 1124, ro)
        struct.pack_into("<II", b, 1068, *times)
        b[1144:1160] = label.encode().ljust(16, b"\0")
        b[1160:1224] = path.encode().ljust(64, b"\0")
        src = {"compat": big(compat), "incompat": big(struct.unpack_from("<I", b, 1120)[0]), "rocompat": big(ro), "label": label, "mounted": path, "inodes": big(struct.unpack_from("<I", b, 1024)[0]),
               "times": [iso(t, "") if t else "Not set (0)" for t in times]}
    elif w.fs == "Fat":
        src = {"version": int(b[57:59]), "label": b[43:54].decode().rstrip(" ") if b[38] == 0x29 else ""}
    else:
        label, version, flags = w.facts_
        k = struct.unpack_from("<b", b, 68)[0]
        cs = 512 * (b[13] if b[13] <= 128 else 1 << 256 - b[13])
        src = {"version": "%d.%d" % version, "label": bytes(struct.pack("<%dH" % len(label), *label)).decode("utf-16-le"), "flags": big(flags), "serial": big(struct.unpack_from("<Q", b, 72)[0]),
               "sizes": [big(x) for x in (512, cs, 1024, k * cs if k > 0 else 1 << -k)]}
    w.data = bytes(b)
    return dict(src, fs=w.fs)


def file_of(fs, e, node):
    m, a, c, b = node["times"]
    nm, na, nc, nb = node.get("nanos", [0] * 4)
    if fs == "Ext":
        f = (lambda n: ".%09d" % n) if node["_b"] else (lambda n: "")
        times = [iso(m, f(nm)), iso(a, f(na)), iso(c, f(nc)), iso(b, f(nb)) if node["_b"] else ""]
    elif fs == "Fat":
        times = [iso(m, ""), iso(a, "")[:10], "", iso(b + nb // 10 ** 9, ".%02d" % (nb // 10 ** 7 % 100))] if e["name"] else [""] * 4
    else:
        times = [iso(x, ".%07d" % (n // 100)) for x, n in ((m, nm), (a, na), (c, nc), (b, nb))]
    size = e["length"] if fs == "Ext" and e["kind"] == "link" else len(node.get("data", b""))
    return {"name": e["name"], "kind": e["kind"], "size": big(size), "times": times, "id": str(e["id"]), "uid": e["uid"], "gid": e["gid"], "mode": e["mode"],
            "flags": node.get("_attr", e["flags"]) if fs == "Fat" else e["flags"], "target": e["target"]}


def parse(line):
    s = line.strip(" ")
    if m := re.fullmatch(r"([^\t]+)\t+: ?(.*)", s, re.S):
        return [m[1], m[2]]
    if m := re.match(r"(0x[0-9a-f]+): ", s):
        return [m[1], ""]
    if m := re.fullmatch(r"(Partition|Attribute): (.*)", s):
        return [m[1], m[2]]
    return [s[:-1] if s.endswith(":") else s, ""]


def run(tool, args, cwd):
    try:
        p = subprocess.run([tool] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=cwd)
    except subprocess.TimeoutExpired:
        return {"k": "hang"}
    if p.returncode < 0 or p.returncode == 101:
        return {"k": "panic", "text": p.stderr.decode("utf-8", "replace")[-300:]}
    text = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0:
        return {"k": "failed", "text": text[-300:]}
    raw = [l for l in text.split("\n") if l.strip()]
    return {"k": "ok", "raw": raw, "lines": [parse(l) for l in raw]}


def tidy(case, e):
    o = e["out"]
    if isinstance(o, str):
        e["out"] = {"k": "panic", "text": o}
    else:
        o.pop("raw" if e["op"] != "hierarchy" else "lines", None)


def main():
    c = Check("C31")
    rng = c.rng
    tool = os.path.join(c.build_tools(), "keramicsinfo")
    c.tlc("MC_Info", "MC_Info_deep.cfg" if c.tier == "thorough" else None)
    cases, res, jobs = [], [], []

    def flush():
        with ThreadPoolExecutor(8) as pool:
            outs = list(pool.map(lambda j: run(tool, *j), [x for _, js in jobs for x in js]))
        for case, js in jobs:
            res.append({"out": [outs.pop(0) for _ in js]})
            cases.append(case)
        drop(c)
        jobs.clear()

    def source(k, data):
        """The source and where in it the data starts."""
        d = new_dir(c, k)
        at = rng.choice([0, 0, 0, 1, 512, 4096, 65536 + 7])
        data, size = data if isinstance(data, tuple) else (data, 0)
        files = data if isinstance(data, list) else [("source.bin", data)]
        if isinstance(data, list):
            at = 0
        for n, b in files:
            with open(os.path.join(d, n), "wb") as f:
                f.write(bytes(rng.randrange(1, 100) for _ in range(16)) * (at // 16) + b"x" * (at % 16) if at else b"")
                f.write(b)
                f.truncate(at + max(size, len(b)))
        where = [] if not at else ["--offset", str(at)] if rng.random() < 0.5 else ["-o", hex(at)]
        return d, where + [os.path.join(d, files[0][0])]

    n = c.scale(900, 6000)
    for i in range(n):
        kind = sorted(KINDS)[i % len(KINDS)]
        data, src = KINDS[kind](random.Random(rng.getrandbits(64)))
        if kind == "mbr" and not src["parts"]:
            continue
        d, args = source(len(jobs), data)
        jobs.append(({"t": "info", "ops": [{"op": "image", "src": src}]}, [(args, d)]))
        if len(jobs) >= 90:
            flush()
    flush()
    for i in range(c.scale(200, 1500)):
        try:
            w = Volume(random.Random(rng.getrandbits(64)))
        except (MemoryError, AssertionError):
            continue
        src = patched(w)
        d, args = source(len(jobs), w.data)
        shown = [(e, n) for e, n in w.nodes if e["path"][0] == "" and (e["kind"] != "own")]
        paths = [["/" + "/".join(e["path"][1:]), "/" + "/".join(e["path"][1:-1]) if len(e["path"]) > 1 else ""] for e, _ in w.nodes]
        if w.fs == "Ntfs":
            for e, _ in w.nodes:
                paths += [["/" + "/".join(e["path"][1:]) + ":" + s[0], ""] for s in e["streams"]]
        ops, js = [{"op": "hierarchy", "fs": w.fs, "paths": paths}, {"op": "system", "src": src}], [(args + ["hierarchy"], d), (args, d)]
        for e, node in rng.sample(shown, min(4, len(shown))):
            ops.append({"op": "file", "fs": w.fs, "file": file_of(w.fs, e, node)})
            js.append((args + ["path", "/" + "/".join(e["path"][1:])], d))
            if w.fs == "Ext":
                ops.append({"op": "file", "fs": w.fs, "file": dict(file_of(w.fs, e, node), name="")})
                js.append((args + ["entry", rng.choice([str, hex])(int(e["id"]))], d))
        ops.append({"op": "missing"})
        js.append((args + ["path", "/no such/file"], d))
        jobs.append(({"t": "info", "ops": ops}, js))
        if len(jobs) >= 20:
            flush()
    flush()
    record(c, None, cases, "Trace_Info", lambda t, e: "info %s" % (e["src"]["kind"] if e["op"] == "image" else e["op"] + " " + (e["src"] if "src" in e else e).get("fs", "")), fix=tidy, per_event=True, results=res)
    return c.finish()
