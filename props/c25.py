"""C25: deflate, zlib and bzip2."""
import bz2, os, zlib
from kv import Check
from tracing import record
import flate

LEVELS = [1, 1, 6, 9, 0]


def damage(rng, data):
    k = rng.randrange(5)
    if k == 0:
        return data[:rng.randrange(len(data))]
    if k == 1:
        return data[:len(data) - rng.randrange(1, min(len(data), 9))]
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 5])):
        i = rng.randrange(len(b))
        b[i] ^= 1 << rng.randrange(8) if k < 4 else rng.randrange(1, 256)
    return bytes(b)


def main():
    c = Check("C25")
    rng = c.rng
    drv = c.build("fmt")
    for k in ("tokens", "bytes", "codes"):
        c.tlc("MC_Inflate", cfg="MC_Inflate_%s.cfg" % k)
    c.tlc("MC_Bunzip")
    ops = []

    def add(method, data, size):
        cap = rng.choice([size] * 4 + [size + 1, size + 100, max(0, size - 1)])
        ops.append({"op": "bytes", "method": method, "data": list(data), "cap": cap})

    def both(method, data, size, p=0.6):
        add(method, data, size)
        while rng.random() < p:
            add(method, damage(rng, data), size)

    for i in range(c.scale(450, 6000)):
        o = {}
        if rng.random() < 0.08:
            o["endless"] = True
        elif rng.random() < 0.1:
            def lens(l, d, which=rng.randrange(5)):
                x = l if which < 3 else d
                j = [k for k, v in enumerate(x) if v]
                if j and which in (0, 3):
                    x[rng.choice(j)] -= 1          # one shorter: too many codes
                elif j and which in (1, 4):
                    k = rng.choice(j)
                    x[k] = min(15, x[k] + 1)       # one longer: a code is left over
                elif which == 2:
                    l[256] = 0
            o["lens"] = lens
        try:
            raw, out = flate.deflate(rng, rng.choice([1, 1, 2, 3]), 700, o)
        except KeyError:
            continue
        if rng.random() < 0.5:
            both("deflate", raw + bytes(rng.choice([0, 0, 0, 3])), len(out))
        else:
            z = rng.choice([{}] * 6 + [{"cmf": rng.choice([0x08, 0x18, 0x48, 0x68, 0x88, 0x77, 0x79])}, {"flg": rng.randrange(1, 32)}, {"sum": 1 << rng.randrange(32)}])
            both("zlib", flate.zwrap(rng, raw, out, z) + bytes(rng.choice([0, 0, 0, 1, 5])), len(out))
    for i in range(c.scale(60, 600)):
        data = flate.text(rng, rng.choice([0, 1, 2, 50, 300, 1000]))
        z = zlib.compressobj(rng.choice(LEVELS), zlib.DEFLATED, rng.choice([-15, 15, 9]), 8, rng.choice([0, 0, 2, 3, 4]))
        comp = z.compress(data) + z.flush()
        both("deflate" if comp[:1] not in (b"\x78", b"\x18") or comp[0] * 256 + comp[1] & 0 else "zlib", comp, len(data), 0.4)
    for i in range(c.scale(150, 2500)):
        chunks = [flate.text(rng, rng.choice([1, 2, 3, 4, 5, 10, 60, 60, 150])) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        o = {}
        if rng.random() < 0.35:
            o = rng.choice([{"endless": 1}, {"crc": 1 << rng.randrange(32)}, {"sum": 1 << rng.randrange(32)}, {"random": 1}, {"orig": lambda k, m: m}, {"orig": lambda k, m: m + 1},
                            {"orig": lambda k, m: 99999}, {"nsel": 0}, {"more": range(256)}, {"more": [0, 255]}, {"ntrees": rng.choice([0, 1, 7])}, {"level": rng.choice([0, 10])},
                            {"lens": lambda l: [max(1, l[0] - 1)] + l[1:]}, {"lens": lambda l: [20] * len(l)}, {"lens": lambda l: [1] * len(l)}])
        both("bzip2", flate.bzip2(rng, chunks, o), sum(map(len, chunks)), 0.35)
    for i in range(c.scale(20, 200)):
        data = flate.text(rng, rng.choice([0, 1, 50, 300, 600]))
        both("bzip2", bz2.compress(data, rng.randrange(1, 10)), len(data), 0.35)
    # whole streams of an independent compressor
    for i in range(c.scale(40, 300)):
        m = rng.choice(["deflate", "zlib", "bzip2", "bzip2"])
        data = b"".join(flate.text(rng, rng.choice([1, 1000, 5000, 33000, 70000, 100001, 250000])) for _ in range(rng.choice([1, 2, 5])))
        if m == "bzip2":
            comp = bz2.compress(data, rng.randrange(1, 10))
        else:
            z = zlib.compressobj(rng.choice(LEVELS), zlib.DEFLATED, -15 if m == "deflate" else rng.choice([15, 9, 12]), rng.choice([1, 9]), rng.choice([0, 0, 2, 3, 4]))
            comp = z.compress(data) + z.flush()
        path = os.path.join(c.dir, "whole%d" % i)
        open(path, "wb").write(comp)
        crc = zlib.crc32(data)
        good = {"k": "ok", "n": len(data), "crc": [crc >> 16, crc & 0xFFFF]}
        ops.append({"op": "whole", "method": m, "data": path, "cap": len(data) + rng.choice([0, 0, 1, 1000]), "want": good})
        if m != "deflate":
            # any damage shows in the checksums or before them
            b = bytearray(comp)
            b[rng.randrange(3 if m == "zlib" else 4, len(b) - (1 if m == "bzip2" else 0))] ^= 1 << rng.randrange(8)
            try:
                same = (zlib if m == "zlib" else bz2).decompress(bytes(b)) == data
            except Exception:
                same = False
            if same:                    # padding
                continue
            open(path + "d", "wb").write(b)
            ops.append({"op": "whole", "method": m, "data": path + "d", "cap": len(data), "want": {"k": "err"}})
        short = comp[:rng.choice([len(comp) - 1, rng.randrange(len(comp))])]
        open(path + "s", "wb").write(short)
        ops.append({"op": "whole", "method": m, "data": path + "s", "cap": len(data), "want": {"k": "err"}})
    rng.shuffle(ops)
    cases = [{"t": "inflate", "ops": ops[i:i + 8]} for i in range(0, len(ops), 8)]
    def fix(case, e):
        if isinstance(e["out"], str):
            e["out"] = {"k": "panic", "text": e["out"]}
    record(c, drv, cases, "Trace_Flate", lambda t, e: "%s %s" % (e["method"], e["op"]), fix=fix, per_event=True)
    c.assumptions = ["preset dictionaries are not known", "randomised bzip2 blocks are refused"]
    return c.finish()
