"""Writes UDIF files from the images of Udif.tla."""
import base64, bz2, struct, zlib
from images import Image, pattern
import lz

TYPES = {"zero": (0, 2), "raw": (1,), "adc": (0x80000004,), "zlib": (0x80000005,), "bzip2": (0x80000006,), "lzfse": (0x80000007,), "lzma": (0x80000008,),
         "comment": (0x7ffffffe,), "end": (0xffffffff,), "huh": (3, 0x80000003, 0x80000009, 0x7fffffff, 0xfffffffe, 0x80000001)}


def compress(rng, t, data):
    if t == "zlib":
        return zlib.compress(data, rng.choice([1, 6, 9]))
    if t == "bzip2":
        return bz2.compress(data, rng.choice([1, 9]))
    if t == "adc":
        return lz.adc_encode(rng, data)
    if t == "lzfse":
        return lz.lzfse_encode(rng, data)
    return bytes(rng.randrange(256) for _ in range(40))


def plist(rng, tables):
    nl = rng.choice(["\n", "\n", "\r\n"])
    o = ['<?xml version="1.0" encoding="UTF-8"?>', '<!DOCTYPE plist PUBLIC "-//Apple//DTD PLIST 1.0//EN" "http://www.apple.com/DTDs/PropertyList-1.0.dtd">', '<plist version="1.0">',
         "<dict>", "\t<key>resource-fork</key>", "\t<dict>", "\t\t<key>blkx</key>", "\t\t<array>"]

    def data(d):
        b = base64.b64encode(d).decode()
        w = rng.choice([44, 52, 76, 100000000])
        return [("\t\t\t\t" if rng.random() < 0.9 else "") + b[i:i + w] for i in range(0, len(b), w)]
    for k, d in enumerate(tables):
        items = [("Attributes", ["<string>0x0050</string>"]), ("CFName", ["<string>part %d (Apple_HFS : %d)</string>" % (k, k)]), ("Data", ["<data>"] + data(d) + ["\t\t\t\t</data>"]),
                 ("ID", ["<string>%d</string>" % (k - 1)]), ("Name", ["<string>part</string>"])]
        if rng.random() < 0.3:
            rng.shuffle(items)
        o.append("\t\t\t<dict>")
        for key, v in items:
            o.append("\t\t\t\t<key>%s</key>" % key)
            o += ["\t\t\t\t" + v[0]] + v[1:]
        o.append("\t\t\t</dict>")
    o.append("\t\t</array>")
    if rng.random() < 0.5:
        o += ["\t\t<key>plst</key>", "\t\t<array>", "\t\t\t<dict>", "\t\t\t\t<key>Data</key>", "\t\t\t\t<data>"] + data(bytes(rng.randrange(60))) + ["\t\t\t\t</data>", "\t\t\t</dict>", "\t\t</array>"]
    o += ["\t</dict>", "</dict>", "</plist>", ""]
    return nl.join(o).encode()


def write(path, l, o):
    rng = o["rng"]
    img = Image(path)
    foot = bytearray(512)
    at = o.get("fork", 0)
    img.put(0, bytes([0xEE]) * at)
    start = at
    if l["kind"] == "raw":
        d = pattern(l["file"], l["h"], l["sectors"] + 1)[:l["bytes"]]
        img.put(at, d)
        at += len(d)
        size, plan = len(d), b""
    else:
        tables, shared = [], {}
        for T in l["tables"]:
            b = struct.pack(">4sIQQQII24xII128sI", b"mish", 1, T["start"], sum(e["n"] for e in T["entries"]), 0, rng.randrange(3000), rng.randrange(9), 2, 32, bytes(rng.randrange(256) for _ in range(4)) + bytes(124), len(T["entries"]) + o.get("count", 0))
            for e in T["entries"]:
                t = rng.choice(TYPES[e["t"]])
                off = n = 0
                if e["t"] == "raw" or t & 0x80000000 and e["t"] in ("adc", "zlib", "bzip2", "lzfse", "lzma"):
                    data = pattern(l["file"], e["h"], e["n"])
                    key = e.get("share")
                    if key is not None and key in shared:
                        off, n = shared[key]
                    else:
                        if e["t"] != "raw":
                            if e.get("fault") == "short":
                                data = data[:-512 if rng.random() < 0.5 else -1]
                            if e.get("fault") == "long":
                                data += pattern(l["file"], e["h"] + e["n"], 1)
                            data = compress(rng, e["t"], data)
                        if e.get("fault") == "flip":
                            b2 = bytearray(data)
                            b2[rng.randrange(len(b2) - 4, len(b2)) if e["t"] == "zlib" else rng.randrange(4, 14)] ^= 1 << rng.randrange(8)
                            data = bytes(b2)
                        if e.get("fault") == "cut":
                            data = data[:rng.choice([0, 1, 2, len(data) // 2])]
                        if e.get("fault") == "rawcut":
                            data = data[:-rng.choice([1, 512, len(data)])]
                        off, n = at, len(data)
                        if not o.get("nogap") and rng.random() < 0.3:
                            data += bytes([0xCC]) * rng.randrange(600)
                        img.put(at, data)
                        at += len(data)
                        if key is not None:
                            shared[key] = (off, n)
                    if e.get("fault") == "past":
                        o.setdefault("late", []).append((len(tables), len(b), n))
                elif e["t"] == "zero":
                    off = rng.choice([0, at, at, 1 << 40])
                elif e["t"] in ("end", "comment"):
                    off = at
                b += struct.pack(">I4sQQQQ", t, rng.choice([bytes(4), b"+beg"]), e["start"] % (1 << 64), e["n"], off, n)
            tables.append(b + bytes(o.get("more", 0)))
        size = at - start
        for k, pos, n in o.pop("late", []):           # a data offset that is just too far
            t = bytearray(tables[k])
            struct.pack_into(">Q", t, pos + 24, at - rng.choice([0, n - 1]))
            tables[k] = bytes(t)
        plan = plist(rng, tables)
    img.put(at, plan)
    struct.pack_into(">4sIIIQQQ", foot, 0, o.get("sig", b"koly"), o.get("version", 4), 512, 1, 0, start, o.get("grow", size))
    if plan:
        struct.pack_into(">QQ", foot, 216, at, len(plan) - o.get("cutplist", 0))
    struct.pack_into(">II", foot, 56, 1, 1)
    struct.pack_into(">IQ", foot, 488, rng.choice([1, 2]), l["sectors"])
    img.put(at + len(plan), bytes(foot))
    img.close()
