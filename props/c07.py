"""C07: UUIDs and string value types."""
import json, os
import kv
from kv import Check
from tracing import record

ENCS = ["utf8", "ascii", "iso8859_1", "iso8859_5", "iso8859_15", "windows1252", "windows932", "koi8_r", "mac_cyrillic"]
UNITS = [0, 0x41, 0x5a, 0x61, 0x7a, 0x5c, 0x7b, 0x7d, 0xff, 0x100, 0x101, 0x3b1, 0x3c2, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00,
         0xdfff, 0xe000, 0xfffd, 0xffff]
CPS = [0x41, 0x61, 0x5c, 0x7f, 0x80, 0xa4, 0xff, 0x100, 0x20ac, 0x416, 0x436, 0x3042, 0xff71, 0xd7ff, 0xfffd, 0x10000, 0x1f600, 0x10ffff]


def main():
    c = Check("C07")
    rng = c.rng
    drv = c.build("core")
    c.tlc("MC_Types")
    up = json.load(open(os.path.join(kv.SPECS, "tables", "ucs2_upcase.json")))
    tabs = json.load(open(os.path.join(kv.SPECS, "tables", "codepages.json")))
    cases = []
    # the whole case table: every code unit
    step = 256
    for k in range(0, 65536, step):
        us = [x for x in range(max(k, 1), k + step)]
        cases.append({"t": "types", "kind": "ucs2", "ops": [
            {"op": "from_units", "r": 1, "o": 2, "how": 0, "data": us}, {"op": "fold", "r": 2, "o": 1}, {"op": "text", "r": 2, "o": 1}]})
    for _ in range(c.scale(700, 8000)):
        cases.append(byte_case(rng, tabs))
        cases.append(wide_case(rng, "ucs2", up))
        cases.append(wide_case(rng, "utf16", up))
        cases.append(uuid_case(rng))
    record(c, drv, cases, "Trace_Types", key, fix=fix)
    return c.finish()


def regs(rng):
    return (1, 2) if rng.random() < 0.5 else (2, 1)


def byte_case(rng, tabs):
    encs = ["utf8", "utf8"]
    ops = []
    target = rng.choice(ENCS)

    def data(enc):
        n = rng.choice([0, 1, 2, 3, 5, 9]) if rng.random() < 0.97 else rng.choice([64, 255, 256, 257, 700])
        if enc == "utf8":
            s = "".join(chr(rng.choice(CPS + [rng.randrange(0xd800)])) for _ in range(n)).encode()
        elif enc == "windows932":
            s = b""
            for _ in range(n):
                lead, row = rng.choice(tabs["leads"])
                t = rng.randrange(256)
                s += bytes([lead, t]) if row[t] != -1 and rng.random() < 0.7 else bytes([rng.randrange(0x80)])
        else:
            s = bytes(rng.choice([rng.randrange(128), rng.randrange(128), rng.randrange(256)]) for _ in range(n))
        s = bytearray(s)
        if s and rng.random() < 0.25:
            s[rng.randrange(len(s))] = rng.choice([0, 0x5c, 0x80, 0xff, 0xc3])
        if rng.random() < 0.2:
            s.insert(rng.randrange(len(s) + 1), 0)
        if rng.random() < 0.2:
            s.insert(rng.randrange(len(s) + 1), 0x5c)
        return list(s)
    last = []
    for _ in range(rng.randrange(3, 10)):
        r, o = regs(rng)
        x = rng.choice(["new", "from", "read", "read", "extend", "extend", "codepoints", "eqslice", "cmp", "len"])
        e = {"op": x, "r": r, "o": o}
        if x == "new":
            encs[r - 1] = e["enc"] = rng.choice(["utf8", target, target, rng.choice(ENCS)])
        elif x == "from":
            e["data"] = data("utf8")
            try:
                bytes(e["data"]).decode()
                e["how"] = rng.randrange(4)
            except UnicodeDecodeError:
                e["how"] = rng.randrange(2)
            encs[r - 1] = "utf8"
            last = e["data"]
        elif x == "read":
            e["data"] = last = data(encs[r - 1])
        elif x == "extend" and encs[r - 1] == "utf8" and encs[o - 1] != "utf8":
            continue  # encoding to UTF-8 is not offered
        elif x == "codepoints":
            if encs[r - 1] == "utf8":
                continue
            e["data"] = [rng.choice(CPS + [rng.randrange(0x41, 0x5b)] * 12) for _ in range(rng.randrange(6))]
            if encs[r - 1] not in ("ascii", "windows932") and rng.random() < 0.6:
                row = [q for q in tabs["single"][encs[r - 1]] if q > 0]
                e["data"] = [rng.choice(row) for _ in range(rng.randrange(6))]
        elif x == "eqslice":
            e["data"] = [q for q in last if q] if rng.random() < 0.7 else data("utf8")
        ops.append(e)
        if rng.random() < 0.6:
            ops.append({"op": "text", "r": r, "o": o})
    return {"t": "types", "kind": "bytes", "ops": ops or [{"op": "len", "r": 1, "o": 2}]}


def wide_case(rng, kind, up):
    ops = []
    last = []

    def us():
        n = rng.choice([0, 1, 2, 3, 4, 8, 20]) if rng.random() < 0.97 else rng.choice([64, 127, 128, 255, 256, 257, 700])
        r = rng.random()
        if last and r < 0.35:
            v = list(last)
            i = rng.randrange(len(v) + 1)
            v = v[:i] + [rng.choice(UNITS)] * rng.randrange(2) + v[i + rng.randrange(2):]
        else:
            v = [rng.choice(UNITS[1:] if r < 0.8 else UNITS + rng.choice(up)) for _ in range(n)]
        last[:] = v
        return v

    names = ["from_be", "from_le", "cmp", "cmp", "from_le"] + (
        ["from_units", "from_str", "fold", "read_le", "read_le", "len", "new"] if kind == "ucs2" else ["new"])
    for _ in range(rng.randrange(2, 9)):
        r, o = regs(rng)
        x = rng.choice(names)
        e = {"op": x, "r": r, "o": o}
        if x in ("from_be", "from_le", "read_le"):
            v = us()
            b = b"".join(q.to_bytes(2, "big" if x == "from_be" else "little") for q in v)
            if rng.random() < 0.15:
                b = b + bytes([rng.choice([0, 0x41, 0xd8])])
            e["data"] = list(b)
        elif x == "from_units":
            e["data"] = us()
            e["how"] = rng.randrange(2)
        elif x == "from_str":
            e["data"] = [rng.choice(CPS + [0x41, 0]) for _ in range(rng.choice([0, 1, 3, 8, 8, 8, 40, 300]))]
            e["how"] = rng.randrange(2)
        ops.append(e)
        if rng.random() < 0.6:
            ops.append({"op": "text", "r": r, "o": o})
    return {"t": "types", "kind": kind, "ops": ops}


def uuid_case(rng):
    ops = []
    for _ in range(rng.randrange(2, 7)):
        r, o = regs(rng)
        k = rng.randrange(6)
        b = [[rng.randrange(256) for _ in range(16)], [0] * 16, [255] * 16, list(range(16)),
             [rng.choice([0, 0, 1, 0x0a, 0xa0]) for _ in range(16)], [255] * 16][k]
        if k in (1, 2, 5) and rng.random() < 0.7:
            b = list(b)
            b[rng.randrange(16)] ^= rng.choice([1, 0x80, 0x10])
        if rng.random() < 0.2:
            b += [9, 9]
        x = rng.choice(["from_be", "from_le", "from_string", "from_string", "cmp"])
        e = {"op": x, "r": r, "o": o}
        if x in ("from_be", "from_le"):
            e["data"] = b
        elif x == "from_string":
            h = bytes(b[:16]).hex()
            t = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
            q = rng.random()
            if q < 0.2:
                t = t.upper()
            elif q < 0.3:
                t = "".join(rng.choice([y, y.upper()]) for y in t)
            if rng.random() < 0.3:
                t = "{" + t + "}"
            if rng.random() < 0.45:
                i = rng.randrange(len(t))
                m = rng.randrange(8)
                odd = rng.choice(list("+-gG{} _/:@`") + ["\u00e9", "\u20ac", "\U0001f600", "\0", "\uff11"])
                if m == 0:
                    t = t[:i] + t[i + 1:]
                elif m == 1:
                    t = t[:i] + odd + t[i:]
                elif m == 2:
                    t = t[:i] + odd + t[i + 1:]
                elif m == 3:  # a longer character in place of as many bytes
                    t = t[:i] + odd + t[i + len(odd.encode()):]
                elif m == 4:
                    t = rng.choice([t[1:], t[:-1], "{" + t, t + "}", "", "{}", "{", "}"])
                elif m == 5:
                    j = rng.choice([0, 9, 14, 19, 24])
                    t = t[:j] + rng.choice("+- ") + t[j + 1:]
                elif m == 6:
                    t = t.replace("-", rng.choice(["", "_", "+", "--"]), rng.randrange(1, 5))
                else:
                    j = rng.choice([8, 13, 18, 23])
                    t = t[:j] + t[j + 1:j + 2] + "-" + t[j + 2:]
            e["data"] = [ord(y) for y in t]
        ops.append(e)
        ops.append({"op": rng.choice(["text", "nil", "max", "cmp", "text"]), "r": r, "o": o})
    return {"t": "types", "kind": "uuid", "ops": ops}


def fix(case, e):
    if not (isinstance(e["out"], dict) and "el" in e["out"]):
        e["panic"] = e["out"]
        e["out"] = {"k": "panic", "el": []}


def key(t, e):
    return "%s %s" % (t["kind"], e["op"])
