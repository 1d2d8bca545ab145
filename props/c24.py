"""C24: ADC, LZNT1, LZVN, LZFSE and LZX."""
import os, zlib
from kv import Check
from tracing import record
import lz


def damage(rng, data, head=0):
    k = rng.randrange(5)
    if k == 0:
        return data[:rng.randrange(len(data))]
    if k == 1:
        return data[:len(data) - rng.randrange(1, min(len(data), 9) + 1)]
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 5])):
        i = rng.randrange(min(len(b), head) if head and rng.random() < 0.6 else len(b))
        b[i] ^= 1 << rng.randrange(8) if k < 4 else rng.randrange(1, 256)
    return bytes(b)


def short(rng):
    return rng.choice([0, 1, 2, 5, 20, 100, 300, 600])


def main():
    c = Check("C24")
    rng = c.rng
    drv = c.build("fmt")
    for k in ("adc", "lzvn", "lznt1", "elements", "coders"):
        c.tlc("MC_Lz", cfg="MC_Lz_%s.cfg" % k)
    c.tlc("MC_Lzx", cfg="MC_Lzx_calls.cfg")
    c.tlc("MC_Lzx", cfg="MC_Lzx_deep.cfg" if c.tier == "thorough" else "MC_Lzx_blocks.cfg")
    ops = []

    def add(method, data, size):
        cap = rng.choice([size] * 4 + [size + 1, size + 100, max(0, size - 1), rng.randint(0, size)])
        ops.append({"op": "bytes", "method": method, "data": list(data), "cap": cap})

    def both(method, data, size, p=0.6, head=0):
        add(method, data, size)
        while data and rng.random() < p:
            add(method, damage(rng, data, head), size)

    for i in range(c.scale(120, 1500)):
        both("adc", *[(x, len(y)) for x, y in [lz.adc(rng, short(rng))]][0])
    for i in range(c.scale(60, 800)):            # any bytes
        n = rng.choice([1, 2, 3, 5, 10, 30])
        m = rng.choice(["adc", "lzvn", "lzvn", "lznt1"])
        data = bytes(rng.choice([rng.randrange(256), 0, 1, 2]) for _ in range(n))
        if m == "lzvn":
            data = b"\xe4abcd" + data + b"\x06" + bytes(7)
        if m == "lznt1":
            data = b"\x04\x30abcde" + (len(data) - 1 | 0xb000).to_bytes(2, "little") + data
        add(m, data, 300)
    for i in range(c.scale(200, 2500)):
        data, out = lz.lzvn(rng, short(rng), bad=rng.choice([0, 0, 0, 0.1]), end=rng.random() < 0.9)
        both("lzvn", data, len(out), 0.5)
    for i in range(c.scale(120, 1500)):
        sizes = rng.choice([[], [4096] * rng.randrange(2)]) + [rng.choice([1, 2, 17, 40, 300, 700, 4095, 4096, rng.randint(1, 1200)])]
        data, out = lz.lznt1(rng, sizes, rng.choice([{}, {}, {}, {"far": 1}, {"loose": 1}]))
        both("lznt1", data, len(out), 0.4)

    def freqs(f, k=rng):
        t = rng.choice(f)
        i = rng.randrange(len(t))
        t[i] = rng.choice([0, t[i] + 1, 1023 if len(t) < 256 else 1023 + 24, max(0, t[i] - 1)])
        if rng.random() < 0.1:
            for j in range(len(t)):
                t[j] = 0

    for i in range(c.scale(260, 4000)):
        o = {"skew": rng.random()}
        if rng.random() < 0.25:
            o["final"] = 1
        if rng.random() < 0.3:
            o.update(rng.choice([{"freqs": freqs}, {"raw": rng.choice([-1, 1])}, {"fard": 1}, {"badn": 0.2}, {"nofreq": 1}, {"cutfreq": 1}, {"nlit": rng.choice([4, -4])}, {"nlmd": rng.choice([1, -1])},
                                 {"lsize": rng.choice([-1, 1, 5])}, {"msize": rng.choice([-1, 1, 5])}, {"more": 1}, {"end": b""}, {"end": rng.choice([b"bvx", b"bvx%", b"\0\0\0\0", b"bvx$bvx-"])}]))
        sizes = [rng.choice([0, 1, 5, 30, 100, 300]) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
        try:
            data, out = lz.lzfse(rng, sizes, o, rng.choice(["-n12", "2", "2", "12", "n", "n2"]))
        except (KeyError, ZeroDivisionError, OverflowError):
            continue
        except Exception as e:
            if type(e).__name__ != "error":
                raise
            continue
        both("lzfse", data, len(out), 0.5, 60)
    for i in range(c.scale(220, 3000)):
        sizes = [rng.choice([1, 2, 5, 6, 20, 100, 300]) for _ in range(rng.choice([1, 1, 2, 3]))]
        o = {"shortonly": rng.random() < 0.3}
        if rng.random() < 0.2:
            o.update(rng.choice([{"size": 1}, {"size": -1}, {"zero": 1}, {"calls": 1}, {"calls": 1}, {"calls": 1}, {"kinds": [1, 2, 4]}]))
        data, out = lz.lzx(rng, sizes, o)
        both("lzx", data, len(out), 0.4, rng.choice([0, 0, 40]))
    # whole streams
    kinds = [(m, n) for n in (5000, 33000, 70000, 100000) for m in ("adc", "adc", "lzvn", "lzvn", "lznt1", "lzfse", "lzfse", "lzfse", "lzx", "lzx", "lzx")]
    for i in range(c.scale(1, 8) * len(kinds)):
        m, n = kinds[i % len(kinds)]
        if m == "adc":
            comp, data = lz.adc(rng, n)
        elif m == "lzvn":
            comp, data = lz.lzvn(rng, n)
        elif m == "lzx":
            comp, data = lz.lzx(rng, [rng.choice([n // 3, 32768, 30000, 100, 7]) for _ in range(4)], rng.choice([{}, {"calls": 1}]))
        elif m == "lznt1":
            comp, data = lz.lznt1(rng, [4096] * (n // 4096) + [rng.randint(1, 4096)])
        else:
            try:
                comp, data = lz.lzfse(rng, [rng.choice([n // 3, 20000, 100]) for _ in range(4)], {}, rng.choice(["2", "12", "n2", "-n12"]))
            except KeyError:
                continue
        path = os.path.join(c.dir, "whole%d" % i)
        open(path, "wb").write(comp)
        crc = zlib.crc32(data)
        good = {"k": "ok", "n": len(data), "crc": [crc >> 16, crc & 0xFFFF]}
        ops.append({"op": "whole", "method": m, "data": path, "cap": len(data) + rng.choice([0, 0, 1, 1000]), "want": good})
        ops.append({"op": "whole", "method": m, "data": path, "cap": len(data) - 1, "want": {"k": "err"}})
    rng.shuffle(ops)
    cases = [{"t": "inflate", "ops": ops[i:i + 8]} for i in range(0, len(ops), 8)]

    def fix(case, e):
        if isinstance(e["out"], str):
            e["out"] = {"k": "panic", "text": e["out"]}
    record(c, drv, cases, "Trace_Lz", lambda t, e: "%s %s" % (e["method"], e["op"]), fix=fix, per_event=True)
    c.assumptions = ["a decompressor may stop once the output buffer is full", "LZNT1 chunks before the last hold 4096 bytes",
                     "LZFSE version 1 headers are not padded (770 bytes)"]
    return c.finish()
