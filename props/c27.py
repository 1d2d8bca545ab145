"""C27: detection of formats by their signatures."""
import os
from kv import Check
from images import Image, record_images
from streams import big

SIGS = [("Apm", 560, b"Apple_partition_map" + bytes(13)), ("Ext", 1080, b"\x53\xef"), ("Ewf", 0, b"EVF\x09\x0d\x0a\xff\0"), ("Fat", 54, b"FAT12   "),
        ("Fat", 54, b"FAT16   "), ("Fat", 82, b"FAT32   "), ("Ntfs", 3, b"NTFS    "), ("Qcow", 0, b"QFI\xfb\0\0\0\1"), ("Qcow", 0, b"QFI\xfb\0\0\0\2"),
        ("Qcow", 0, b"QFI\xfb\0\0\0\3"), ("SparseImage", 0, b"sprs"), ("Vhdx", 0, b"vhdxfile"), ("Udif", -512, b"koly"), ("Vhd", -512, b"conectix")]
SIGS += [("Gpt", n, b"EFI PART") for n in (512, 1024, 2048, 4096)] + [("Mbr", n - 2, b"\x55\xaa") for n in (512, 1024, 2048, 4096)]
FORMATS = sorted({s[0] for s in SIGS})


def size_of(rng):
    x = rng.random()
    if x < 0.35:
        s = rng.choice(SIGS)
        return max(0, (s[1] if s[1] >= 0 else 512) + rng.choice([0, 1, 2, 3, len(s[2]) - 1, len(s[2]), len(s[2]) + 1, len(s[2]) + rng.randrange(40)]))
    if x < 0.5:
        return rng.randrange(0, 700)
    if x < 0.65:   # short ones whose start is at a place of a signature when counted from 512 before the end
        return max(0, rng.choice([512, 516, 520]) - rng.choice([0, 3, 54, 82, 510, 511, 509]) + rng.choice([0, 0, 1, -1]))
    if x < 0.9:
        return rng.choice([4095, 4096, 4103, 4104, 4105, 4608, 4616, 4615, 8192, rng.randrange(5000)])
    return rng.choice([1 << 20, (1 << 32) + rng.randrange(2000), (1 << 31) + 512, 1 << 33, (1 << 24) + rng.randrange(1000)])


def main():
    c = Check("C27")
    rng = c.rng
    drv = c.build("fmt")
    c.tlc("MC_Detect")
    cases, writers = [], []
    for _ in range(c.scale(1200, 20000)):
        size = size_of(rng)
        pieces = []
        if rng.random() < 0.2:
            n = min(size, 4200)
            pieces.append((0, bytes(rng.randrange(256) for _ in range(n))))
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9])):
            _, at, pat = rng.choice(SIGS)
            at = at if at >= 0 else size + at
            x = rng.random()
            if x < 0.15:
                at += rng.choice([-1, 1, 2, 512, -512])
            elif x < 0.4 and size < 520:   # what would be at the place if the data were aligned to its end
                at -= max(0, rng.choice([512, 516, 520]) - size)
            elif x < 0.25:
                at = rng.choice([0, size - len(pat), size - 512, 512, size - 1024, size - 510])
            if x > 0.85:
                k = rng.randrange(len(pat))
                pat = pat[:k] + bytes([pat[k] ^ 1 << rng.randrange(8)]) + pat[k + 1:]
            elif x > 0.75:
                pat = pat[:rng.randrange(1, len(pat) + 1)]
            if at < 0:
                at, pat = 0, pat[-at:]
            pat = pat[:max(0, size - at)]
            if pat:
                pieces.append((at, pat))
        ops = [{"op": "detect", "formats": FORMATS}]
        for _ in range(rng.choice([0, 1, 2])):
            ops.append({"op": "detect", "formats": rng.sample(FORMATS, rng.choice([1, 2, 3, len(FORMATS)]))})

        def write(d, size=size, pieces=pieces):
            img = Image(os.path.join(d, "a.raw"))
            for at, b in pieces:
                img.put(at, b)
            img.close(size)
        cases.append({"t": "detect", "file": "a.raw", "memory": size < 10000 and rng.random() < 0.5, "size": big(size),
                      "pieces": [{"off": big(at), "data": list(b)} for at, b in pieces], "ops": ops})
        writers.append(write)
    record_images(c, drv, cases, writers, "Trace_Detect", lambda t, e: "detect", batch=200)
    return c.finish()
