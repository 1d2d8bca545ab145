"""C08: structure layouts.  Layouts are generated, declared to the real macro, compiled and
run on data; what the generated code reads is judged by the specification of layouts."""
import re
import layouts as L
from kv import Check, ToolError
from tracing import record

LETTERS = [c for c in range(0x61, 0x7b)] + [c for c in range(0x41, 0x5b)]


def main():
    c = Check("C08")
    rng = c.rng
    g = L.Gen(rng)
    # one field of every kind first, then random ones
    ls = [g.layout() for _ in range(c.scale(220, 600))]
    L.write(ls, rng)
    try:
        drv = c.build("layout")
    except ToolError as e:
        # when it is the layouts that do not compile, these are violations
        L.write([], rng)
        c.build("layout")
        text = str(e)
        for k in sorted({int(x) for x in re.findall(r"l(\d+)::S", text)} | L.located(text))[:5] or [-1]:
            c.violation("a layout does not compile|%d" % k, {"layout": ls[k] if k >= 0 else None, "compiler": text[:3000]})
        return c.finish()
    c.tlc("MC_Layout")
    cases = [case(rng, l, k, c) for k, l in enumerate(ls)]
    ints = []
    for _ in range(c.scale(800, 5000)):
        w = rng.choice([2, 4, 8])
        o = rng.randrange(6)
        d = [rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)]) for _ in range(o + w + rng.randrange(3))]
        ints.append({"op": "int", "w": w, "off": o, "order": rng.choice(["be", "le"]), "signed": rng.random() < 0.5, "data": d})
    cases.append({"id": 0, "layout": ls[0], "types": [], "ops": ints})
    record(c, drv, cases, "Trace_Layout", key, fix=fix, per_event=True)
    return c.finish()


def case(rng, l, k, c):
    ms = l["members"]
    total = sum(map(L.size, ms))
    plain = any(f["fmt"] == "char" or f["k"] == "str" for m in ms for f in [m] + m["fields"])

    def data(n):
        if plain:
            return [rng.choice(LETTERS) if rng.random() < 0.97 else 0 for _ in range(n)] if not any(
                f["fmt"] == "char" for m in ms for f in [m] + m["fields"]) else [rng.choice(LETTERS) for _ in range(n)]
        r = rng.random()
        if r < 0.1:
            return [rng.choice([0, 255])] * n
        return [rng.choice([rng.randrange(256), rng.randrange(256), 0, 0x80, 0xff, 1]) for _ in range(n)]
    # sizes for which everything that is read is there
    good = []
    for n in sorted({total, total + 1, total + 5} | {sum(map(L.size, ms[:i])) for i in range(len(ms) + 1)}):
        off, ok = 0, True
        for m in ms:
            there = m["k"] != "group" or holds(m["cond"], n)
            off += L.size(m)
            ok = ok and (not there or off <= n)
        if ok and n:
            good.append(n)
    ops = []
    for _ in range(c.scale(3, 8)):
        if good:
            ops.append({"op": "debug", "data": data(rng.choice(good))})
    for _ in range(c.scale(3, 8)):
        n = total + rng.choice([0, 0, 1, 7, -1, 20])
        pos = max(0, rng.choice([0, 0, n - total, n - total + 1, rng.randrange(0, 5), n]))
        frm = rng.choice(["start", "end", "current"])
        cur = rng.randrange(0, max(1, n))
        ops.append({"op": "read", "data": data(max(0, n)), "pos": pos, "from": frm, "cur": cur, "verbose": total in good and rng.random() < 0.4,
                    "seek": pos if frm == "start" else pos - max(0, n) if frm == "end" else pos - cur})
    return {"id": k, "layout": {"order": l["order"], "members": ms, "mode": l["mode"]}, "types": L.types(l), "ops": ops}


def holds(c, n):
    return {">": n > c["n"], ">=": n >= c["n"], "==": n == c["n"], "<": n < c["n"], "!=": n != c["n"]}[c["op"]]


def fix(case, e):
    o = e["out"]
    bad = {"k": "other", "data": [], "entries": []}
    if not isinstance(o, dict):
        e["panic"] = o
        e["out"] = bad
    elif e["op"] == "debug":
        x = L.entries(o["text"], case["layout"], o["at"])
        e["out"] = {"k": "shown", "data": [], "entries": x} if x is not None else bad
        if x is None:
            e["panic"] = o["text"][:2000]
    elif e["op"] == "int":
        v = int(o["value"], 16)
        w = 8 * e["w"]
        # the value is that of the bytes when it is sign or zero extended from them
        ext = v >> w
        neg = e["signed"] and (v >> (w - 1)) & 1
        right = ext == ((1 << (64 - w)) - 1 if neg else 0)
        e["out"] = {"k": "int", "data": [(v >> i) & 1 for i in range(w)], "entries": []} if right else bad
    else:
        o.setdefault("entries", [])


def key(t, e):
    if e["op"] == "debug":
        kinds = sorted({m["k"] + ":" + m["type"] for m in t["layout"]["members"]})
        return "debug %s" % ",".join(kinds)
    return e["op"] + (" %d %s" % (e["w"], e["order"]) if e["op"] == "int" else "")
