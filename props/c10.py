"""C10: debug formatters."""
from kv import Check
from tracing import record


def main():
    c = Check("C10")
    rng = c.rng
    drv = c.build("core")
    c.tlc("MC_Format")
    ops = []
    # every length up to five lines, all bytes, and runs of identical lines in every arrangement
    for n in range(0, 83):
        ops.append({"op": "dump", "data": [(7 * i + n) % 256 for i in range(n)], "group": n % 2 == 0})
        ops.append({"op": "dump", "data": [rng.randrange(256) for _ in range(n)], "group": False})
        ops.append({"op": "dump", "data": [65] * n, "group": True})
        ops.append({"op": "string", "data": [rng.randrange(256) for _ in range(n)]})
    ops.append({"op": "dump", "data": list(range(256)), "group": True})
    for k in range(c.scale(3 ** 5, 3 ** 7)):
        rows, v = [], k
        for _ in range(c.scale(5, 7)):
            rows.append(v % 3)
            v //= 3
        d = [x for r in rows for x in ([r * 40] * 16 if r < 2 else [rng.randrange(256) for _ in range(16)])]
        d += [rng.choice([0, 40, 9])] * rng.choice([0, 0, 1, 8, 15, rng.randrange(16)])
        ops.append({"op": "dump", "data": d, "group": True})
    for _ in range(c.scale(60, 500)):
        rows = []
        for _ in range(rng.randrange(1, 12)):
            row = [rng.choice([0, 255, rng.randrange(256)])] * 16
            if rng.random() < 0.4:
                row[rng.randrange(16)] = rng.randrange(256)
            rows += [row] * rng.choice([1, 1, 1, 2, 3, 4])
        d = [x for r in rows for x in r] + [rng.randrange(256) for _ in range(rng.randrange(16))]
        ops.append({"op": "dump", "data": d, "group": rng.random() < 0.8})
    d = [0] * (16 * 300) + [1] * 16 + [2]   # one long collapsed run
    ops.append({"op": "dump", "data": d, "group": True})
    for n in (1000, 4096 + 5, 65536 + 40) + ((1 << 20,) if c.thorough else ()):
        d = bytearray()
        while len(d) < n:
            d += rng.choice([bytes([rng.randrange(256)]) * 16 * rng.choice([1, 2, 3, 100, 1000]),
                             bytes(rng.randrange(256) for _ in range(16))])
        d = list(d[:n])
        ops.append({"op": "dump", "data": d, "group": True})
        ops.append({"op": "dump", "data": d, "group": False})
        ops.append({"op": "string", "data": d})

    def enc(s):
        return [ord(x) for x in s]
    for n in range(0, 70):
        ops.append({"op": "array", "data": [enc(str(i)) for i in range(n)]})
        ops.append({"op": "array", "data": [enc("0x%02x" % (n % 3))] * n})
        if n:
            one = [enc("7")] * n
            one[rng.randrange(n)] = enc("8")
            ops.append({"op": "array", "data": one})
            last = [enc("7")] * n
            last[-1] = enc("8")
            ops.append({"op": "array", "data": last})
    for n in (255, 256, 257, 1000, 4100, 70000):
        ops.append({"op": "array", "data": [enc("%d" % rng.randrange(300)) for _ in range(min(n, 4100))]})
        ops.append({"op": "array", "data": [enc("0x00")] * n})
        ops.append({"op": "array", "data": [enc("0")] * (n - 1) + [enc("1")]} if n < 4000 else {"op": "array", "data": [enc("0")] * n})
    cases = [{"t": "format", "ops": ops[k:k + 20]} for k in range(0, len(ops), 20)]
    record(c, drv, cases, "Trace_Format", key, fix=fix, per_event=True)
    return c.finish()


def fix(case, e):
    if not isinstance(e["out"], list):
        e["panic"] = e["out"]
        e["out"] = [-1]


def key(t, e):
    return "%s %d" % (e["op"], len(e["data"]))
