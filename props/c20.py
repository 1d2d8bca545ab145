"""C20: Apple partition maps list exactly the partitions, as exact sub-ranges."""
import json, os
from kv import Check
from images import image_ops, near, record_images
import volumes

TYPES = ["Apple_HFS", "Apple_HFSX", "Apple_Free", "Apple_Driver43", "Apple_UNIX_SVR2", "Windows_NTFS", "", "x" * 31, "y" * 32, "Apple_partition_map"]


def main():
    c = Check("C20")
    rng = c.rng
    drv = c.build("fmt")
    out, _, _ = c.tlc("MC_Apm")
    got = sorted({line for line in out.splitlines() if line.startswith('"IMAGE ')})
    assert len(got) > 200
    images = [json.loads(json.loads(x.strip())[6:]) for x in rng.sample(got, c.scale(200, 1400))]
    cases, writers = [], []

    def add(l, nops, junk=b""):
        parts = [(e["start"], e["n"]) for e in l["entries"][1:l["entries"][0]["count"]]]
        runs, h = [], rng.randrange(10 ** 6)
        for off, n in sorted(parts):
            for s, k in [(off, min(n, 4)), (off + n - 4, 4)] if n > 8 else [(off, n)]:
                if k and s > len(l["entries"]) and all(s >= r["s"] + r["n"] or s + k <= r["s"] for r in runs) and s + k <= l["sectors"]:
                    runs.append({"s": s, "n": k, "h": h})
                    h += k + rng.choice([0, 5])
        l["runs"] = runs
        full, o = json.loads(json.dumps(l)), {"rng": rng, "junk": junk}
        writers.append(lambda d: volumes.write_apm(os.path.join(d, "a.raw"), full, o))
        ops = [{"op": "open"}]
        for _ in range(nops if parts else 0):
            i = rng.randrange(len(parts))
            n = parts[i][1] * 512
            for op in image_ops(rng, [n], rng.randrange(1, 4), near(rng, [512, 4096], n))[1:]:
                ops.append(dict(op, layer=i))
        cases.append({"t": "image", "fmt": "apm", "file": "a.raw", "disk": l, "ops": ops})

    for l in images:
        add(l, 3)
    for i in range(c.scale(250, 5000)):
        count = rng.choice([1, 2, 3, 5, 16, 63, 200])
        at = count + 1 + rng.choice([0, 1, 63])
        es = [{"sig": "PM", "count": count, "start": 1, "n": at - 1, "name": "Apple", "type": "Apple_partition_map", "flags": rng.choice([0, 3])}]
        big = rng.random() < 0.25
        for k in range(count - 1):
            n = rng.choice([1, 2, 9, rng.randrange(1, 3000), rng.randrange(1, 1 << 27) if big and count < 10 else 5])
            es.append({"sig": "PM", "count": count, "start": at, "n": n, "name": rng.choice(["", "disk image", "a", "N" * 31, "M" * 32, "eXFAT 1"]), "type": rng.choice(TYPES),
                       "flags": rng.choice([0, 0x33, 0x40000033, 1, rng.randrange(1 << 31)])})
            at += n + rng.choice([0, 0, 0, 1])
        if rng.random() < 0.2:      # in any order
            rest = es[1:]
            rng.shuffle(rest)
            es[1:] = rest
        l = {"sectors": at + rng.choice([0, 0, 1000]), "entries": es, "loose": False}
        r = rng.random()
        if r < 0.04:
            rng.choice(es)["sig"] = rng.choice(["TS", "PN", "\0\0", "pm"])
        elif r < 0.08:
            rng.choice(es)["count"] = rng.choice([count + 1, count - 1, count + 200])
        elif r < 0.11:
            es[0]["type"] = rng.choice(["Apple_partition_ma", "Apple_partition_mapp", "Apple_HFS", "apple_partition_map"])
        elif r < 0.13:
            l["sectors"] = rng.choice([1, count // 2 + 1, count])
            del es[l["sectors"] - 1:]
            if not es:
                continue
        add(l, rng.randrange(0, 5))
    # a map that says how many entries there are but not once
    add({"sectors": 9, "entries": [{"sig": "PM", "count": 0, "start": 1, "n": 4, "name": "Apple", "type": "Apple_partition_map", "flags": 0}], "loose": True}, 0)
    record_images(c, drv, cases, writers, "Trace_Apm", lambda t, e: "apm %s" % e["op"])
    c.assumptions = ["disks of less than 1 TiB", "sectors of 512 bytes"]
    return c.finish()
