"""Writes EWF segment files from the images of Ewf.tla.  Fields whose names begin with _ tell how, and are no part of the model."""
import os, random, struct, uuid, zlib
from images import Image, pattern


def adler(b):
    return struct.pack("<I", zlib.adler32(bytes(b)))


def extension(schema, k):
    first = schema[0]
    if k < 100:
        return "%s%02d" % (first, k)
    base = ord("A" if first.isupper() else "a")
    k -= 100
    return chr(ord(first) + k // 676) + chr(base + k // 26 % 26) + chr(base + k % 26)


def model(l):
    """The image without how it is stored."""
    if isinstance(l, dict):
        return {k: model(v) for k, v in l.items() if not k.startswith("_")}
    return [model(x) for x in l] if isinstance(l, list) else l


def volume(rng, s, style):
    if style == "s01":
        b = struct.pack("<IIIII", 1, s["count"], s["spc"], s["bps"], s["_n"]) + bytes(20) + bytes([0xA5]) * 45 + b"SMART"
    else:
        b = struct.pack("<B3xIIIQ", s["_media"], s["count"], s["spc"], s["bps"], s["_n"])
        b += struct.pack("<IIIB3xIII", 3, 4, 5, rng.choice([0, 1, 3]), 7, 8, 9) + struct.pack("<B3xII", rng.choice([0, 1, 2]), s["gran"], 11)
        b += uuid.UUID(s["id"]).bytes_le + bytes([0x5A]) * 963 + b"abcde"
    return bytearray(b + adler(b))


def header(rng, s):
    keys, values = [r[0] for r in s["rows"]], [r[1] for r in s["rows"]]
    nl = s.get("_nl", "\n")
    lines = [[ord(x) for x in s.get("_cat", "1")], [ord(x) for x in "main"]]
    lines.append([ord(x) for x in "\t".join(keys)])
    v = []
    for i, x in enumerate(values):
        v += ([9] if i else []) + x
    lines.append(v)
    if s.get("_cat") == "3":
        lines += [[ord(x) for x in t] for t in ["", "srce", "0\t1", "p\tn", "0\t0", "\t", "", "sub", "0\t1", "p\tn\tt", "0\t0", "\t\t1", ""]]
    else:
        lines += [[], []] if rng.random() < 0.8 else [[]]
    units = []
    for x in lines:
        units += x + [ord(y) for y in nl]
    if s["kind"] == 1:
        b = bytes(units)
    else:
        enc = s.get("_enc", "bom")
        b = struct.pack((">" if enc == "be" else "<") + "%dH" % len(units), *units)
        b = {"bom": b"\xff\xfe", "be": b"\xfe\xff", "le": b""}[enc] + b
    return bytearray(zlib.compress(b, s.get("_level", 6)))


def chunk(rng, c, data, full):
    """What is stored of a chunk: its bytes and whether they are compressed."""
    data = data[:full]
    how = c.get("_how")
    if c.get("_pad"):
        data = data + bytes(c["_pad"])
    if how == "short":
        data = data[:-rng.choice([1, 512, len(data) // 2])]
    if c.get("_comp"):
        b = zlib.compress(data, c.get("_level", 6))
        if how == "flip":
            while True:
                x = bytearray(b)
                x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
                try:
                    zlib.decompress(bytes(x))
                except zlib.error:
                    b = bytes(x)
                    break
        if how == "cut":
            b = b[:-rng.randrange(1, min(len(b) - 1, 40))]
        return b
    b = bytearray(data + adler(data))
    if how == "flip":
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    if how == "cut":
        b = b[:rng.choice([1, 4, len(b) // 2])] if rng.random() < 0.3 else b[:-rng.randrange(1, 5)]
    return bytes(b) + bytes([0xE1]) * c.get("_gap", 0)


def write(d, name, schema, l, o):
    rng = random.Random(o["seed"])
    style = l["_style"]
    vol = next((s for g in l["segs"] for s in g["secs"] if s["t"] in ("volume", "disk")), l.get("_vol"))
    size = vol["spc"] * vol["bps"]
    left = l.get("_bytes", 0)
    for k, g in enumerate(l["segs"] + l.get("_more", []), 1):
        img = Image(os.path.join(d, name + "." + extension(schema, k)))
        img.put(0, o.get("sig", b"EVF\x09\x0d\x0a\xff\x00") + struct.pack("<BHH", 1, g["num"], 0))
        at = 13
        ends = []

        def section(t, body, ok=True, own=None, tail=0):
            nonlocal at
            n = 76 + len(body) + tail
            last = t in ("next", "done")
            h = struct.pack("<16sQQ40x", t.encode(), at if last else at + n, 0 if rng.random() < 0.25 else n)
            h = bytearray(h + adler(h))
            if not ok:
                h[rng.randrange(16, 76) if own is None else own] ^= 1 << rng.randrange(8)
            img.put(at, bytes(h))
            if body:
                img.put(at + 76, bytes(body))
            at += n

        for s in g["secs"]:
            t = s["t"]
            inbody = not s["ok"] and rng.random() < 0.7
            body = None
            if t in ("volume", "disk"):
                body = volume(rng, s, style)
            elif t == "header":
                body = header(rng, s)
                t = "header" if s["kind"] == 1 else "header2"
            elif t == "hash":
                b = bytes.fromhex(s["md5"]) + bytes(rng.randrange(256) for _ in range(16))
                body = bytearray(b + adler(b))
            elif t == "digest":
                b = bytes.fromhex(s["md5"]) + bytes.fromhex(s["sha1"]) + bytes(40)
                body = bytearray(b + adler(b))
            elif t == "data":
                v = dict(vol, id=s["id"])
                body = volume(rng, v, "e01")
            elif t == "error2":
                n = rng.choice([0, 1, 3])
                h = struct.pack("<I", n) + bytes(512)
                e = bytes(rng.randrange(256) for _ in range(8 * n))
                body = bytearray(h + adler(h) + e + adler(e))
            elif t == "other":
                section(s["_name"], bytes(s.get("_len", 0)), s["ok"], tail=s.get("_hole", 0))
                continue
            elif t in ("next", "done"):
                section(t, b"", s["ok"])
                continue
            if body is not None:
                if inbody:
                    # zlib data: the checksum at its end; else any byte
                    i = rng.randrange(len(body) - 4, len(body)) if s["t"] == "header" else rng.randrange(len(body))
                    body[i] ^= 1 << rng.randrange(8)
                section(t, body, s["ok"] or inbody)
                continue
            # tables
            if t == "table":
                datas = []
                for c in s["chunks"]:
                    data = pattern(1, c["h"], size // 512)
                    datas.append(chunk(rng, c, data, min(size, left) if left > 0 else size))
                    left -= size
                first = rng.choice([0, 0, 0, 30])
                total = first + sum(map(len, datas))
                n = len(datas)
                foot = 0 if style == "s01" else 4
                inside = s.get("_inside", style == "encase1")
                start = at + 76 + first if not inside else at + 76 + 24 + 4 * n + foot + first
                base = rng.choice([0, 0, 0, start, rng.randrange(start + 1)]) if "_base" not in s else s["_base"]
                entries, p = [], start
                over = False
                for c, b in zip(s["chunks"], datas):
                    v = p - base
                    entries.append(v | (1 << 31 if c.get("_comp") and not over else 0))
                    over = over or v + len(b) > 0x7fffffff
                    p += len(b)
                if s.get("_swap"):
                    i, j = s["_swap"]
                    entries[i], entries[j] = entries[j], entries[i]
                if not inside:
                    section("sectors", bytes([0xD7]) * first + b"".join(datas))
            head = struct.pack("<I4xQ4x", len(entries) + s.get("_count", 0), base)
            b = bytearray(head + adler(head))
            e = struct.pack("<%dI" % len(entries), *entries)
            b += e + (adler(e) if foot else b"")
            if inbody:
                b[rng.randrange(len(b) if foot else 24)] ^= 1 << rng.randrange(8)
            if t == "table2" and rng.random() < 0.1:
                b += bytes(rng.choice([4, 16]))
            section(t, bytes(b) + (bytes([0xD7]) * first + b"".join(datas) if t == "table" and inside else b""), s["ok"] or inbody)
        img.put(at, bytes(o.get("trail", 0)))
        img.close(at - o["cut"] if "cut" in o and k == len(l["segs"]) else None)
