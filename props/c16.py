"""C16: UDIF images present the disk their block tables describe."""
import json, os
from kv import Check
from images import bulk, image_ops, near, record_images
from streams import big
import udif

METHODS = ["adc", "zlib", "bzip2", "lzfse"]


def main():
    c = Check("C16")
    rng = c.rng
    drv = c.build("fmt")
    out, _, _ = c.tlc("MC_Udif")
    got = sorted({line for line in out.splitlines() if line.startswith('"IMAGE ')})
    assert len(got) > 1000
    images = [json.loads(json.loads(x.strip())[6:]) for x in rng.sample(got, c.scale(250, 5000))]
    cases, writers = [], []

    def add(l, nops, marks, maxread=900, more=(), **wrong):
        o = {"rng": rng, "fork": rng.choice([0, 0, 0, 0, 512, 1000])}
        l["wrong"] = wrong.pop("verdict", "err") if wrong else "no"
        for k in ("sectors", "h", "size"):
            l.setdefault(k, 0)
        if l["kind"] == "raw":
            l["size"] = big(l["bytes"])
        else:
            l["size"] = [0, 0, 0]
            n = 0
            for T in l["tables"]:
                for e in T["entries"]:
                    if e["t"] == "end":
                        break
                    if e["t"] != "comment":
                        n = max(n, T["start"] + e["start"] + e["n"])
            l["bytes"] = n * 512
        for k in list(wrong):
            if k in ("sig", "version", "count", "cutplist", "grow", "fork"):
                o[k] = wrong[k]
        full = json.loads(json.dumps(l))
        writers.append(lambda d: udif.write(os.path.join(d, "a.dmg"), full, o))
        for T in l.get("tables", []):
            for e in T["entries"]:
                e.pop("fault", None)
                e.pop("share", None)
        l.setdefault("tables", [])
        ops = image_ops(rng, [l["bytes"]], nops, marks, maxread=maxread) + list(more)
        if any(e["bad"] != "no" for T in l["tables"] for e in T["entries"]):
            # where the cursor is after a read that failed is open, so always ask
            ops = [o for op in ops for o in ([op, {"op": "tell", "layer": op["layer"]}] if op["op"] in ("read", "read_at") else [op])]
        cases.append({"t": "image", "fmt": "udif", "file": "a.dmg", "disk": {k: v for k, v in l.items() if k != "bytes"},
                      "ops": ops})

    for l in images:
        m = rng.choice(METHODS)
        u = rng.choice([1, 1, 2, 5])
        for T in l["tables"]:
            T["start"] *= u
            for e in T["entries"]:
                e["t"] = m if e["t"] == "zlib" else e["t"]
                e["start"] *= u
                e["n"] *= u
                e["h"] *= u
                if e["t"] in METHODS and rng.random() < 0.06:
                    e["fault"] = rng.choice(["short", "cut"])
                    e["bad"] = "read" if e["fault"] == "short" else "open"
                elif e["t"] == "raw" and rng.random() < 0.03:
                    e["fault"], e["bad"] = "rawcut", "open"
        add(l, 7, [k * u * 512 for k in range(6)], maxread=1500)
    for i in range(c.scale(150, 2500)):
        m = rng.choice(METHODS)
        tables, s, h, marks = [], 0, rng.randrange(10 ** 6), []
        big_n = i % 10 == 0
        shared = {}
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            T = {"start": s, "entries": []}
            tables.append(T)
            for _ in range(rng.choice([0, 1, 2, 4, 8]) if not big_n else rng.choice([70, 30, 3])):
                t = rng.choice([m, m, m, "zero", "raw", "comment"]) if rng.random() < 0.98 else rng.choice(["lzma"] + METHODS)
                n = rng.choice([1, 1, 2, 3, 8, 16, 60 if not big_n else 1]) if t != "zero" else rng.choice([1, 8, 2048, 100000, rng.randrange(1, 1 << 22)])
                if t in ("zlib", "bzip2") and rng.random() < 0.03:
                    n = rng.choice([512, 2048, 2049])
                if t == "raw" and rng.random() < 0.1:
                    n = rng.choice([3000, 512])
                e = {"t": t, "start": s - T["start"] if t != "comment" else 0, "n": n if t != "comment" else 0, "h": h if t not in ("zero", "comment") else 0, "bad": "no"}
                if t in METHODS and rng.random() < 0.15:
                    # data that is used before
                    if shared and rng.random() < 0.7:
                        key = rng.choice(sorted(shared))
                        tt, n0, h0 = shared[key]
                        e.update(t=tt, h=h0, share=key)
                        if rng.random() < 0.7:
                            e["n"] = n0
                        elif e["n"] != n0:
                            e["bad"] = "read"
                            if e["n"] < n0 and tt in ("zlib", "adc", "bzip2", "lzfse"):
                                e["bad"] = "some"
                    else:
                        e["share"] = len(shared)
                        shared[e["share"]] = (t, n, h)
                elif t in METHODS and rng.random() < 0.04:
                    e["fault"] = rng.choice(["short", "cut", "cut", "flip" if t in ("zlib", "bzip2") else "cut"])
                    e["bad"] = "read" if e["fault"] != "cut" else "open"
                elif t == "raw" and rng.random() < 0.03:
                    e["fault"], e["bad"] = "rawcut", "open"
                elif t == "lzma":
                    e["bad"] = "read"
                if e["bad"] == "some":      # whether data that goes on is refused is open
                    e["bad"], e["n"] = "no", n0
                marks += [s * 512, (s + e["n"]) * 512]
                s += e["n"]
                h += e["n"] + rng.choice([0, 3])
                T["entries"].append(e)
            if rng.random() < 0.7:
                T["entries"].append({"t": "end", "start": s - T["start"], "n": 0, "h": 0, "bad": "no"})
                if rng.random() < 0.1:
                    T["entries"].append({"t": "raw", "start": s - T["start"], "n": 1, "h": 5, "bad": "no"})
        if rng.random() < 0.06:
            rng.shuffle(tables)
        if rng.random() < 0.06:
            rng.shuffle(rng.choice(tables)["entries"])
        if rng.random() < 0.05:
            es = [e for T in tables for e in T["entries"] if e["t"] in METHODS + ["raw"] and "share" not in e and "fault" not in e]
            if es:
                e = rng.choice(es)
                e["fault"], e["bad"] = "past", "open"
        l = {"kind": "tables", "file": 1, "tables": tables}
        add(l, rng.randrange(3, 14) + (20 if big_n else 0), near(rng, marks, s * 512), maxread=rng.choice([100, 700, 700, 3000]))
    # a long table
    for n in (1200, 2500):
        es = [{"t": "zlib" if k % 7 == 0 else "zero", "start": k, "n": 1, "h": k if k % 7 == 0 else 0, "bad": "no"} for k in range(n)]
        add({"kind": "tables", "file": 1, "tables": [{"start": 0, "entries": es}]}, 12, [0, n * 512, n * 256])
    # runs, stored and zero, beyond 4 GiB; runs and reads of more than 64 KiB
    for i in range(c.scale(12, 60)):
        es, s, marks = [], 0, []
        for t in rng.choice([["zero", "raw", "zero"], ["zlib", "zero", "zlib", "raw"], ["raw", "zlib", "zero", "zlib"], ["zero", "zero", "bzip2"]]):
            n = rng.choice([9 << 20, 1 << 24, (1 << 23) + 1]) if t == "zero" else rng.choice([130, 200, 257, 400])
            es.append({"t": t, "start": s, "n": n, "h": s if t != "zero" else 0, "bad": "no"})
            marks += [s * 512, (s + n) * 512] + ([(s + (1 << 23)) * 512] if t == "zero" else [])
            s += n
        add({"kind": "tables", "file": 1, "tables": [{"start": 0, "entries": es}]}, rng.randrange(4, 12), near(rng, marks, s * 512), more=bulk(rng, s * 512, marks))
    for i in range(c.scale(25, 200)):
        n = rng.choice([1, 2, 100, 3000])
        cut = rng.choice([0, 0, 1, 511])
        add({"kind": "raw", "file": 2, "h": rng.randrange(10 ** 6), "sectors": n, "bytes": n * 512 - cut}, 7, [0, n * 512, n * 256])
    for i in range(30):
        es = [{"t": "zlib", "start": 0, "n": 4, "h": 0, "bad": "no"}]
        wrong = rng.choice([{"sig": b"kolx"}, {"version": 3}, {"count": 1}, {"cutplist": rng.choice([9, 200])}, {"sig": bytes(4)}, {"grow": (1 << 64) - 1, "fork": 1000, "verdict": "may"}, {"grow": 100000, "verdict": "may"}])
        add({"kind": "tables", "file": 1, "tables": [{"start": 0, "entries": es}]}, 2, [0, 512], **wrong)
    record_images(c, drv, cases, writers, "Trace_Udif", lambda t, e: "udif %s" % e["op"])
    c.assumptions = ["disks of less than 1 TiB", "data forks at offset 0 or, with data offsets relative to the file, after it", "LZMA chunks are refused"]
    return c.finish()
