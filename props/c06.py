"""C06: UTF-8 and Base64."""
import base64
from kv import Check
from tracing import record
from c05 import fix as fix5

EDGE = [0, 1, 0x20, 0x7E, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE,
        0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFC, 0xFE, 0xFF]


def main():
    c = Check("C06")
    rng = c.rng
    drv = c.build("core")
    c.tlc("MC_Utf8")
    ops = [{"op": "decode", "data": []}]
    for a in range(256):
        ops.append({"op": "decode", "data": [a]})
        for b in (range(256) if a >= 0xC0 else EDGE):
            ops.append({"op": "decode", "data": [a, b]})
    for a in EDGE:
        if a >= 0xE0 or c.thorough:
            for b in EDGE:
                for x in EDGE:
                    ops.append({"op": "decode", "data": [a, b, x]})
                    if a >= 0xF0 and (c.thorough or (x in (0x7F, 0x80, 0xBF, 0xC0) or rng.random() < 0.1)):
                        for y in EDGE:
                            ops.append({"op": "decode", "data": [a, b, x, y]})
    scal = list(range(0, 0xD800, 7 if not c.thorough else 1)) + list(range(0xE000, 0x110000, 331 if not c.thorough else 17))
    edges = [0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF,
             0x40000, 0xFFFFF, 0x100000, 0x10FFFF]
    for k in range(0, len(scal), 50):
        ops.append({"op": "decode", "data": list("".join(map(chr, scal[k:k + 50])).encode())})
    for _ in range(c.scale(1500, 20000)):
        s = "".join(chr(rng.choice(edges + [0x41, rng.randrange(0xD800), rng.randrange(0xE000, 0x110000)]))
                    for _ in range(rng.randrange(1, 12))).encode()
        r = rng.randrange(4)
        if r == 1:
            s = s[:rng.randrange(len(s) + 1)]
        elif r == 2:
            i = rng.randrange(len(s))
            s = s[:i] + bytes([rng.choice(EDGE)]) + s[i + rng.randrange(2):]
        elif r == 3:
            i = rng.randrange(len(s))
            s = s[:i] + s[i + 1:]
        ops.append({"op": "decode", "data": list(s)})
    cases = [{"t": "codec", "enc": "utf8", "ops": ops[k:k + 300]} for k in range(0, len(ops), 300)]
    b64 = []

    def text(t):
        t = list(t)
        n = len(t) * 3 // 4
        b64.append({"op": "stream", "data": t, "white": rng.random() < 0.5})
        b64.append({"op": "context", "data": t, "size": rng.choice([n + 3, n, max(0, n - 1), max(0, n - 2), max(0, n - 3), 0, n + 9])})
        b64.append({"op": "context", "data": t, "size": n + 8})

    for x in range(256):
        text([x])
        text([0x54, x])
        text([0x54, 0x57, x])
        text([0x54, 0x57, 0x46, x])
        text([0x54, 0x57, x, 0x3D])
        text([0x41, 0x41, 0x41, 0x41, 0x54, x, 0x3D, 0x3D])
    for t in (b"", b"=", b"==", b"===", b"====", b"A=", b"A==", b"A===", b"AA=", b"AA==", b"AA===", b"AAA=", b"AAA==", b"AA=A",
              b"AAAA=", b"AAAA==", b"AAAA====", b"AA==AA==", b"AA=", b"A A=", b" AAAA", b"AA\nAA", b"AAA", b"AA", b"A", b"AB==",
              b"AAB=", b"TWFuTQ==", b"TWFuTWE="):
        text(t)
        text(b"QUJD" + t)
    for _ in range(c.scale(2500, 30000)):
        data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, rng.randrange(70)])))
        t = bytearray(base64.b64encode(data))
        r = rng.randrange(6)
        if r == 1 and t:
            t = t[:rng.randrange(len(t))]
        elif r == 2 and t:
            t[rng.randrange(len(t))] = rng.choice([0x2D, 0x5F, 0x3D, 0x20, 0x0A, 0x40, 0x5B, 0x60, 0x7B, 0x2F, 0x3A, 0x2C, rng.randrange(256)])
        elif r == 3:
            t.insert(rng.randrange(len(t) + 1), rng.choice(b" \n\r\t\x0b=A"))
        elif r == 4:
            for _ in range(3):
                t.insert(rng.randrange(len(t) + 1), rng.choice(b" \n\r\t"))
        text(t)
    for o in b64:
        if o["op"] == "stream" and rng.random() < 0.3:
            o["lead"] = [rng.choice([0x41, 0x3d, 0x20, 0, rng.randrange(256)]) for _ in range(rng.choice([1, 2, 3, 4, 5, 8, 13]))]
    cases += [{"t": "base64", "ops": b64[k:k + 300]} for k in range(0, len(b64), 300)]
    # long inputs, in pieces that are texts of their own
    for total in (300, 5000, 70000, c.scale(140000, 2000000)):
        ps, n = [], 0
        while n < total:
            t = "".join(chr(rng.choice([0x41, 0x41, rng.randrange(0x80), rng.choice(edges), rng.randrange(0xE000, 0x110000)]))
                        for _ in range(rng.randrange(1, 400)))
            ps.append({"op": "decode", "data": list(t.encode()), "n": len(t)})
            n += len(ps[-1]["data"])
        ps[-1]["n"] += 2
        cases.append({"t": "codec", "enc": "utf8", "pieces": True, "ops": ps})
        for op in ("stream", "context"):
            ps, n = [], 0
            while n < total:
                d = bytes(rng.randrange(256) for _ in range(3 * rng.randrange(1, 150)))
                t = list(base64.b64encode(d))
                m = len(d)
                if op == "stream":
                    for _ in range(rng.randrange(4)):
                        t.insert(rng.randrange(len(t) + 1), rng.choice(b" \n\r\t"))
                ps.append({"op": op, "data": t, "n": m, "white": True, "size": len(t)})
                n += len(t)
            if rng.random() < 0.5:
                ps.append({"op": op, "data": list(b"QQ=="), "n": 1, "white": True, "size": 4})
            cases.append({"t": "base64", "pieces": True, "ops": ps})
    record(c, drv, cases, "Trace_Utf8", key, fix=fix, per_event=True)
    return c.finish()


def fix(case, e):
    if e["op"] == "decode":
        fix5(case, e)
    elif not isinstance(e["out"], dict) or "end" not in e["out"]:
        e["panic"] = e["out"]
        e["out"] = {"data": [], "end": "panic"}


def key(t, e):
    return "%s %s" % (e["op"], " ".join("%02x" % x for x in e["data"][:12]))
