"""Writes volume systems."""
import struct, uuid, zlib
from images import Image, pattern


def fill(img, l):
    for r in l["runs"]:
        img.put(r["s"] * 512, pattern(1, r["h"], r["n"]))


def write_mbr(path, l, o):
    rng = o["rng"]
    img = Image(path)
    fill(img, l)
    for k, r in enumerate(l["records"]):
        b = bytearray(rng.randrange(256) if rng.random() < 0.3 and k == 0 else 0 for _ in range(446))
        if k == 0:
            struct.pack_into("<I", b, 440, l["id"])
        for e in r["entries"]:
            chs = bytes(rng.randrange(256) for _ in range(6)) if e["t"] and rng.random() < 0.5 else bytes(6)
            b += struct.pack("<B3sB3sII", e["flags"], chs[:3], e["t"], chs[3:], e["start"], e["n"])
        b += b"\x55\xaa" if r["sig"] else rng.choice([b"\xaa\x55", bytes(2), b"\x55\x00", b"\x00\xaa"])
        img.put(r["at"] * 512, bytes(b))
    img.close(l["sectors"] * 512 - o.get("cut", 0))


def gpt_header(h):
    b = struct.pack("<8sIII4xQQQQ16sQIII", h["sig"], h["version"], h["hsize"], 0, h["at"], h["other"], h["first"], h["last"], uuid.UUID(h["id"]).bytes_le,
                    h["entries_at"], h["count"], h["esize"], h["ecrc"])
    crc = zlib.crc32(b) ^ h["crcflip"]
    return b[:16] + struct.pack("<I", crc) + b[20:]


def write_gpt(path, l, o):
    rng = o["rng"]
    img = Image(path)
    fill(img, l)
    u = l["bps"]
    img.put(446, struct.pack("<B3sB3sII", 0, bytes(3), 0xEE, bytes(3), 1, min(0xFFFFFFFF, l["sectors"] * 512 // u - 1)) + bytes(48) + b"\x55\xaa")
    for h in o["headers"]:
        if not h:
            continue
        body = b""
        for e in h["table"]:
            if e is None:
                body += bytes(h["esize"])
                continue
            name = e["name"].encode("utf-16-le")[:72]
            b = struct.pack("<16s16sQQQ", uuid.UUID(e["type"]).bytes_le, uuid.UUID(e["id"]).bytes_le, e["start"], e["end"], e["attr"]) + name + bytes(72 - len(name))
            body += b + bytes(h["esize"] - 128)
        h.setdefault("ecrc", zlib.crc32(body))
        h["ecrc"] ^= h.get("ecrcflip", 0)
        if h.get("eflip"):
            i = rng.randrange(len(body))
            body = body[:i] + bytes([body[i] ^ 1 << rng.randrange(8)]) + body[i + 1:]
        if body:
            img.put(h["entries_at"] * u, body)
        b = gpt_header(dict(h, **dict([h["said"]])) if "said" in h else h)
        if h.get("hflip"):
            i = rng.choice([0, 7, 9, 13, 17, 24, 33, 41, 50, 60, 73, 81, 85, 90])
            b = b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:]
        img.put(h["at"] * u, b)
    img.close(l["sectors"] * 512)


def write_apm(path, l, o):
    rng = o["rng"]
    img = Image(path)
    fill(img, l)
    img.put(0, struct.pack(">2sHI", b"ER", 512, l["sectors"]))
    for k, e in enumerate(l["entries"]):
        b = struct.pack(">2sHIII32s32sIII", e["sig"].encode(), rng.randrange(3), e["count"], e["start"], e["n"], e["name"].encode() + o["junk"], e["type"].encode() + o["junk"],
                        rng.randrange(9), rng.randrange(9), e["flags"])
        img.put(512 * (k + 1), b + bytes(512 - len(b)))
    img.close(l["sectors"] * 512)
