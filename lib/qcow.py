"""Writes QCOW files from the layers of Qcow.tla."""
import struct, zlib
from images import Image, pattern


def plan(l):
    """The first sector for clusters of the disk: header, level 1 and level 2 tables come first."""
    spc, need = l["spc"], -(-l["sectors"] // (l["spc"] * l["cpt"]))
    l1 = -(-need * 8 // (spc * 512))
    l2 = -(-l["cpt"] * 8 // (spc * 512))
    head = max(1, -(-2 // spc))
    return need, head, l1, l2, (head + l1 + l2 * len(l["tables"])) * spc


def write(path, l, opt):
    img = Image(path)
    rng, spc, ver = opt["rng"], l["spc"], l["ver"]
    cs = spc * 512
    cbits = cs.bit_length() - 1
    lbits = l["cpt"].bit_length() - 1
    need, head, l1c, l2c, first = plan(l)
    l1at = head * cs
    name = l["pname"].encode()
    copied = 1 << 63 if ver > 1 else 0
    l1n = need + (opt["extra"] if ver > 1 else 0)
    ext = b""
    if ver == 3 and opt["ext"]:
        kind = rng.choice([(0xE2792ACA, b"qcow2"), (0x6803F857, bytes(48)), (0x12345678, b"kv")])
        ext = struct.pack(">II", kind[0], len(kind[1])) + kind[1] + bytes(-len(kind[1]) % 8) + bytes(8)
    size = l["bytes"]
    if ver == 1:
        h = struct.pack(">4sIQIIQBBHIQ", b"QFI\xfb", 1, 0, len(name), rng.getrandbits(31), size, cbits, lbits, 0, opt["enc"], l1at)
        name_at = 48
    else:
        h = struct.pack(">4sIQIIQIIQQIIQ", b"QFI\xfb", ver, 0, len(name), cbits, size, opt["enc"], l1n, l1at, 0, 0, 0, 0)
        if ver == 3:
            h += struct.pack(">QQQII", opt["dirty"], opt["lazy"], rng.choice([0, 1]), 4, opt["hsize"])
            if opt["hsize"] == 112:
                h += bytes([opt["method"]]) + bytes(7)
            h += ext
        name_at = len(h)
    if name:
        h = h[:8] + struct.pack(">Q", name_at) + h[16:]
    h = bytearray(h + name)
    if opt.get("sig"):
        h[0:4] = opt["sig"]
    if opt.get("badver"):
        h[4:8] = struct.pack(">I", opt["badver"])
    assert len(h) <= head * cs
    img.put(0, bytes(h))
    img.put(1024, b"\0")
    l1 = bytearray(8 * l1n)
    comp_at = opt["comp"]
    at = l1at + l1c * cs
    for x in l["tables"]:
        struct.pack_into(">Q", l1, 8 * x["t"], at | (copied if rng.random() < 0.8 else 0))
        l2 = bytearray(8 * l["cpt"])
        for e in x["entries"]:
            if e["kind"] == "raw":
                v = e["h"] * 512 | (copied if rng.random() < 0.8 else 0)
                img.put(e["h"] * 512, pattern(l["file"], e["h"], spc))
            elif e["kind"] == "zero":
                v = e["h"] * 512 | 1 | (copied if e["h"] else 0)
                if e["h"]:
                    img.put(e["h"] * 512, pattern(99, e["h"], spc))
            else:
                z = zlib.compressobj(rng.choice([1, 6, 9]), zlib.DEFLATED, -12)
                data = z.compress(pattern(l["file"], e["h"], spc)) + z.flush()
                assert len(data) < cs, (len(data), cs)
                if ver == 1:
                    v = 1 << 63 | len(data) << (63 - cbits) | comp_at
                else:
                    n = (comp_at % 512 + len(data) - 1) // 512
                    v = 1 << 62 | n << (62 - (cbits - 8)) | comp_at
                img.put(comp_at, data)
                comp_at += len(data) + rng.choice([0, 0, 1, 300])
            struct.pack_into(">Q", l2, 8 * e["i"], v)
        img.put(at, bytes(l2))
        at += l2c * cs
    img.put(l1at, bytes(l1))
    img.close(max(img.end, first * 512))
