"""C01: data streams are cursors over one fixed byte sequence."""
import json
from kv import Check
from streams import big, fix, history
from tracing import record

EDGES = [4096, 8192, 32768, 65535, 65536, 131072, 1 << 20, 1 << 22, 1 << 24]


def long_case(rng):
    """Contents of many kilobytes up to megabytes, made of runs, with reads as long."""
    ats = {0}
    top = rng.choice(EDGES)
    for _ in range(rng.randrange(1, 40)):
        ats.add(max(0, rng.choice([rng.choice(EDGES), rng.randrange(top + 1), rng.randrange(top + 1)]) + rng.choice([0, 0, -1, 1])))
    ats = sorted(ats)
    runs, v = [], 0
    for a in ats:
        v = rng.choice([x for x in (1, 2, 0x41, 0xfe, 0xff) if x != v])
        runs.append({"at": big(a), "v": v})
    stored = ats[-1] + rng.choice([1, 2, 100, 4096, 65536, 100000])
    kind = rng.choice(["fake", "fake", "open_fake", "file"])
    size = stored if kind == "open_fake" else stored + rng.choice([0, 1, 65535, 65536, 65537, 1 << 20, 3 << 24, 1 << 33])
    if size > stored:
        runs.append({"at": big(stored), "v": 0})
    ops = history(rng, size, rng.randrange(2, 9), [0, stored, size, rng.choice(ats), rng.choice(ats), rng.choice(EDGES)],
                  maxread=rng.choice([5000, 70000, 1 << 20, 40 << 20]))
    for o in ops:
        if "n" in o and o["n"] and rng.random() < 0.4:
            o["n"] = rng.choice(EDGES) + rng.choice([0, 1, -1])
        o["runs"] = True
    return {"t": "stream", "kind": kind, "runs": runs, "stored": big(stored), "size": big(size), "ops": ops}


def main():
    c = Check("C01")
    rng = c.rng
    drv = c.build("core")
    out, _, _ = c.tlc("MC_Stream")
    # behaviours of the specification, replayed on both kinds of stream
    cases = []
    hists = []
    for line in out.splitlines():
        if '"HIST ' in line:
            h = json.loads(json.loads(line.strip())[5:])
            for o in h:
                if "off" in o:
                    o["off"] = big(o["off"])
            hists.append(h)
    assert len(hists) > 5000
    hists.sort(key=str)
    if not c.thorough:
        hists = rng.sample(hists, 4000)
    for i, h in enumerate(hists):
        ops = []
        for o in h:
            ops.append(o)
            if o["op"] in ("exact", "exact_at"):
                ops.append({"op": "tell"})
        ops.append({"op": "tell"})
        kind = ("fake", "file", "fake", "fake")[i % 4]
        data = [[11, 12, 13], [11, 12, 13], [11, 12], []][i % 4]
        cases.append({"t": "stream", "kind": kind, "data": data, "size": big(3), "ops": ops})
    # random histories with sizes around the stored data, tails of zeros, and sizes beyond 32 bits
    for k in range(c.scale(700, 6000)):
        n = rng.choice([0, 1, 2, 16, 17, 100, rng.randrange(1, 700)])
        data = [rng.randrange(1, 256) for _ in range(n)]
        kind = rng.choice(["fake", "fake", "fake", "open_fake", "file"])
        if kind == "open_fake":
            size = n
        elif kind == "file":
            size = n + rng.choice([0, 0, 1, 100, 5000, 1 << 33])
        else:
            size = rng.choice([n, n, n + 1, max(0, n - 1), n // 2, n + rng.randrange(600), n + 5000, (1 << 32) + n, 1 << 40,
                               (1 << 63) - 1, (1 << 64) - 1])
        ops = history(rng, size, rng.randrange(1, 14), [0, n, size, size // 2, min(n, size), n + 8, size + 40] +
                      ([(1 << 63) - 1, 1 << 63, (1 << 64) - 30] if rng.random() < 0.1 else []),
                      maxread=rng.choice([20, 700, 3000]))
        # seeks by more than a signed 64-bit offset, or to more than an unsigned one, cannot be expressed
        ok = []
        for o in ops:
            if "from" in o:
                v = (o["off"][0] << 48) + (o["off"][1] << 24) + o["off"][2]
                if o["from"] == "start" and v >= 1 << 64 or o["from"] != "start" and not -(1 << 63) <= v < 1 << 63:
                    continue
            ok.append(o)
        cases.append({"t": "stream", "kind": kind, "data": data, "size": big(size), "ops": ok})
    label = lambda t, e: "%s %s" % (t["kind"], e["op"])
    record(c, drv, cases, "Trace_Stream", label, fix=fix)
    record(c, drv, [long_case(rng) for _ in range(c.scale(60, 500))], "Trace_StreamRuns", label, fix=fix, timeout=60)
    return c.finish()
