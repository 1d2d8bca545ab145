"""Writes VHDX files from the layers of Vhdx.tla."""
import functools, struct, uuid
from images import Image, pattern

GARBAGE = 99
MIB = 1 << 20
_T = []
for i in range(256):
    x = i
    for _ in range(8):
        x = (x >> 1) ^ (0x82F63B78 if x & 1 else 0)
    _T.append(x)


@functools.lru_cache(maxsize=500)
def crc32c(b):
    c = 0xFFFFFFFF
    for x in b:
        c = _T[(c ^ x) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


def guid(s):
    return uuid.UUID(s).bytes_le


def summed(b, damage):
    """Fills in the checksum at 4, then damages what was summed."""
    b = bytearray(b)
    struct.pack_into("<I", b, 4, crc32c(bytes(b)))
    if damage == "sum":
        b[4] ^= 0x10
    elif damage == "data":
        b[60] ^= 0x01
    elif damage == "sig":
        b[0] ^= 0x20
    elif damage == "zero":
        b = bytearray(len(b))
    return bytes(b)


def write(path, l, opt):
    img = Image(path)
    img.put(0, opt.get("sig", b"vhdxfile") + "kv".encode("utf-16-le"))
    for k, h in enumerate(l["heads"]):
        head = bytearray(4096)
        seq = (h["seq"][0] << 48) + (h["seq"][1] << 24) + h["seq"][2]
        head[0:4] = b"head"
        struct.pack_into("<Q", head, 8, seq)
        head[16:32] = guid(opt["any"])
        head[32:48] = guid(h["id"])
        struct.pack_into("<HHIQ", head, 64, 0, 1, MIB, MIB)
        img.put((k + 1) * 65536, summed(head, opt["heads"][k]))
    meta, bat = opt["meta"] * MIB, opt["bat"] * MIB
    chunk = (1 << 23) * l["bps"] // (l["spb"] * 512)
    n = opt["entries"]
    size = -(-n * 8 // MIB) * MIB
    regs = [(guid("2dc27766-f623-4200-9d64-115e9bfd4a08"), bat, size), (guid("8b7ca206-4790-4b9a-b8fe-575f050f886e"), meta, MIB)]
    if opt.get("order"):
        regs.reverse()
    for k in (0, 1):
        reg = bytearray(65536)
        reg[0:4] = b"regi"
        struct.pack_into("<I", reg, 8, 2)
        for j, (g, o, s) in enumerate(regs):
            reg[16 + 32 * j:32 + 32 * j] = g
            struct.pack_into("<QII", reg, 32 + 32 * j, o, s, 1)
        img.put((3 + k) * 65536, summed(reg, opt["regions"][k]))
    items = [("caa16737-fa36-4d43-b3b6-33f0aa44e76b", struct.pack("<II", l["spb"] * 512, {"fixed": 1, "dynamic": 0, "diff": 2}[l["kind"]]), 4),
             ("2fa54224-cd1b-4876-b211-5dbed83bf4b8", struct.pack("<Q", l["bytes"]), 6),
             ("8141bf1d-a96f-4709-ba47-f233a8faab5f", struct.pack("<I", l["bps"]), 6),
             ("cda348c7-445d-4471-9cc9-e9885251c556", struct.pack("<I", opt["phys"]), 6),
             ("beca12ab-b2e6-4523-93ef-c309e000c746", guid(opt["disk"]), 6)]
    if l["pid"]:
        pairs = []
        for key, value in opt["locator"]:
            pairs.append((key.encode("utf-16-le"), value.encode("utf-16-le")))
        loc = bytearray(20 + 12 * len(pairs))
        loc[0:16] = guid("b04aefb7-d19e-4a81-b789-25b8e9445913")
        struct.pack_into("<H", loc, 18, len(pairs))
        for j, (key, value) in enumerate(pairs):
            struct.pack_into("<IIHH", loc, 20 + 12 * j, len(loc), len(loc) + len(key), len(key), len(value))
            loc += key + value
        items.append(("a8d35f2d-b30b-454d-abf7-d3d84834ab0c", bytes(loc), 4))
    opt["rng"].shuffle(items)
    table = bytearray(65536)
    table[0:8] = b"metadata"
    struct.pack_into("<H", table, 10, len(items))
    at = 65536
    for j, (g, data, flags) in enumerate(items):
        table[32 + 32 * j:48 + 32 * j] = guid(g)
        struct.pack_into("<III", table, 48 + 32 * j, at, len(data), flags)
        img.put(meta + at, data)
        at += len(data) + opt["gap"]
    img.put(meta, bytes(table))
    lss = l["bps"] // 512
    maps = {}
    for x in l["blocks"]:
        b = x["b"]
        stored = x["state"] in (6, 7)
        img.put(bat + 8 * (b + b // chunk), struct.pack("<Q", x["state"] | (x["h"] // 2048) << 20 if stored or opt.get("stale") else x["state"]))
        if stored:
            img.put(x["h"] * 512, pattern(l["file"] if x["state"] == 6 else GARBAGE, x["h"], l["spb"]))
        if x["state"] == 7:
            for first, k in x["runs"]:
                img.put((x["h"] + first) * 512, pattern(l["file"], x["h"] + first, k))
            bits = maps.setdefault(b // chunk, {})
            first = (b % chunk) * (l["spb"] // lss)
            for f, k in x["runs"]:
                for i in range(f // lss, (f + k) // lss):
                    bits[(first + i) // 8] = bits.get((first + i) // 8, 0) | 1 << ((first + i) % 8)
        elif x["state"] == 6 and l["kind"] == "diff" and opt.get("full"):
            bits = maps.setdefault(b // chunk, {})
    for c, bits in maps.items():
        at = (opt["maps"] + opt["mapstep"] * c) * MIB
        img.put(bat + 8 * ((c + 1) * (chunk + 1) - 1), struct.pack("<Q", 6 | at))
        for k in sorted(bits):
            img.put(at + k, bytes([bits[k]]))
        img.put(at + MIB - 1, b"\0") if MIB - 1 not in bits else None
    img.put(bat + size - 1, b"\0") if n * 8 < size else None
    end = -(-img.end // MIB) * MIB
    img.close(max(end, (opt["meta"] + 1) * MIB, bat + size))
