"""C18: MBR partition tables list exactly the partitions, as exact sub-ranges."""
import json, os
from kv import Check
from images import image_ops, near, record_images
import volumes

NONE = {"t": 0, "start": 0, "n": 0, "flags": 0}
MBR_TYPES = [1, 4, 6, 7, 0xb, 0xc, 0xe, 0x82, 0x83, 0x8e, 0xa5, 0xaf, 0xee, 0xfd, 0xff, 0x14, 0x85]


def main():
    c = Check("C18")
    rng = c.rng
    drv = c.build("fmt")
    out, _, _ = c.tlc("MC_Mbr")
    got = sorted({line for line in out.splitlines() if line.startswith('"IMAGE ')})
    assert len(got) > 1000
    images = [json.loads(json.loads(x.strip())[6:]) for x in rng.sample(got, c.scale(400, 4000))]
    cases, writers = [], []

    def add(l, u, nops, **o):
        """The partitions get contents near their edges."""
        o["rng"] = rng
        parts = []                  # where partitions are, for choosing where to read
        first = None
        for r in l["records"]:
            if r["at"] and first is None:
                first = r["at"]
            for e in r["entries"]:
                if e["t"] not in (0, 5) and not (e["t"] == 15 and r["at"] == 0):
                    parts.append((r["at"] + e["start"] * u, e["n"] * u))
        runs, h = [], rng.randrange(10 ** 6)
        for off, n in sorted(parts):
            for s, k in [(off, min(n, 4)), (off + n - 4, 4)] if n > 8 else [(off, n)]:
                if k and all(s >= r["s"] + r["n"] or s + k <= r["s"] for r in runs) and not any(s <= r["at"] < s + k for r in l["records"]) and s + k <= l["sectors"]:
                    runs.append({"s": s, "n": k, "h": h})
                    h += k + rng.choice([0, 5])
        l["runs"] = runs
        full = json.loads(json.dumps(l))
        writers.append(lambda d: volumes.write_mbr(os.path.join(d, "a.raw"), full, o))
        ops = [{"op": "open"}]
        order = parts_order(l, u)
        for _ in range(nops if order else 0):
            i = rng.randrange(len(order))
            n = order[i][1] * 512
            for op in image_ops(rng, [n], rng.randrange(1, 4), near(rng, [512, 4096], n))[1:]:
                ops.append(dict(op, layer=i))
        l["records"] = [dict(r) for r in l["records"]]
        cases.append({"t": "image", "fmt": "mbr", "file": "a.raw", "disk": l, "ops": ops})

    def parts_order(l, u):
        """Only to aim reads: the list the table should give, if it can be walked simply."""
        rs = {r["at"]: r for r in l["records"]}
        m = l["records"][0]
        res = [(e["start"] * u, e["n"] * u) for e in m["entries"] if e["t"] not in (0, 5, 15)]
        ext = [e for e in m["entries"] if e["t"] in (5, 15)]
        if len(ext) != 1:
            return [] if ext else res
        at = first = ext[0]["start"] * u
        for _ in range(300):
            r = rs.get(at)
            if r is None or not r["sig"]:
                return []
            res += [(at + e["start"] * u, e["n"] * u) for e in r["entries"] if e["t"] not in (0, 5)]
            nxt = [e for e in r["entries"] if e["t"] == 5]
            if not nxt:
                return res
            if len(nxt) > 1:
                return []
            at = first + nxt[0]["start"] * u
        return []

    for l in images:
        u = rng.choice([1, 1, 2, 4, 8])
        l["sectors"] *= u
        if l["records"][0]["at"] == 0 and len(l["records"]) == 1 or rng.random() < 0.2:
            l["given"] = 512 * u
        for r in l["records"]:
            r["at"] *= u
        l["id"] = rng.randrange(1 << 31)
        add(l, u, 3)
    for i in range(c.scale(250, 4000)):
        u = rng.choice([1, 1, 1, 2, 4, 8])
        at = rng.choice([1, 63, 2048, rng.randrange(1, 5000)])
        slots = [dict(NONE) for _ in range(4)]
        records = [{"at": 0, "sig": True, "entries": slots}]
        big = rng.random() < 0.3
        limit = ((1 << 31) - 1) // u - 1

        def size():
            return rng.choice([1, 2, 8, 9, rng.randrange(1, 5000), rng.randrange(1, 1 << 25) if big else 7])
        n_log = rng.choice([0, 0, 1, 2, 3, 6, 20]) if rng.random() < 0.97 else rng.choice([100, 254, 255, 256])
        kinds = rng.sample([0, 1, 2, 3], rng.randrange(0, 5))
        ext_slot = rng.randrange(4) if n_log else -1
        if n_log:
            kinds = [k for k in kinds if k != ext_slot]
        for k in rng.sample(range(4), 4):
            if k == ext_slot:
                first = at
                slots[k].update(t=rng.choice([5, 15]), start=first, flags=0)
                cur = first
                rel = 0
                chain = []
                for j in range(n_log):
                    gap = rng.choice([1, 1, 63, 2048]) if n_log < 50 else 1
                    n = size() if n_log < 50 else rng.choice([1, 2])
                    es = [dict(t=rng.choice(MBR_TYPES), start=gap, n=n, flags=rng.choice([0, 0, 0x80])), dict(NONE), dict(NONE), dict(NONE)]
                    if rng.random() < 0.05:
                        es[0] = dict(NONE)
                    if rng.random() < 0.03:
                        es[2] = dict(t=rng.choice(MBR_TYPES), start=gap + n + 1, n=1, flags=0)
                        n += 2
                    chain.append({"at": cur, "sig": True, "entries": es})
                    cur += gap + n + rng.choice([0, 0, 1, 7])
                order = list(range(n_log))
                if rng.random() < 0.2:          # the chain need not go forwards
                    rest = order[1:]
                    rng.shuffle(rest)
                    order = order[:1] + rest
                for a, b in zip(order, order[1:]):
                    es = chain[a]["entries"]
                    es[1] = dict(t=5, start=chain[b]["at"] - first, n=7, flags=0)
                    if rng.random() < 0.1:
                        es[0], es[1] = es[1], es[0]
                slots[k]["n"] = cur - first
                records += [dict(r, at=r["at"] * u) for r in chain]
                at = cur
            elif k in kinds:
                n = size()
                slots[k].update(t=rng.choice(MBR_TYPES), start=at, n=n, flags=rng.choice([0, 0x80, 1]))
                at += n
            at += rng.choice([0, 0, 1, 2048])
        if at > limit:
            continue
        l = {"given": rng.choice([0, 512 * u]), "sectors": at * u + rng.choice([0, 0, 1, 5000]), "id": rng.randrange(1 << 31), "records": records, "loose": False}
        o = {}
        r = rng.random()
        if r < 0.04:
            # a chain that loops, or leads to where there is no boot record
            rec = rng.choice(records[1:] or records)
            if len(records) > 2 and rec["at"]:
                e = [e for e in rec["entries"] if e["t"] == 5] or [rec["entries"][1]]
                e[0].update(t=5, n=9, start=rng.choice([(x["at"] - records[1]["at"]) // u for x in records[1:]] + [7777777 if at * u > 10 ** 7 else 3]))
                e[0]["start"] = max(0, e[0]["start"])
        elif r < 0.08:
            rec = rng.choice(records)
            rec["sig"] = False
        elif r < 0.11:
            rec = rng.choice(records)
            for k in rng.sample(range(4), 2):
                if not rec["entries"][k]["t"] or rec["entries"][k]["t"] == 5:
                    rec["entries"][k].update(t=5, start=rec["entries"][k]["start"] or 5, n=5)
        elif r < 0.13 and not n_log:
            # partitions that the disk is too small for
            l["sectors"] = max(1, l["sectors"] - rng.choice([1, 8, 100000]))
            l["loose"] = True
        add(l, u, 0 if l["loose"] else rng.randrange(0, 5), **o)
    # The size of sectors is not stored: in most cases it is 512.
    es = [dict(t=7, start=2048, n=20000, flags=0x80)] + [dict(NONE)] * 3
    l = {"given": 0, "sectors": 400000, "id": 5, "records": [{"at": 0, "sig": True, "entries": es}], "loose": False}
    add(l, 1, 0)
    l["bps512"] = True
    for x in cases:
        x["disk"].setdefault("bps512", False)
    record_images(c, drv, cases, writers, "Trace_Mbr", lambda t, e: "mbr without extended partition on 200 MB with a partition of 10 MB at 1 MB: sectors of %s" % e["out"].get("meta", {}).get("bps") if t["disk"]["bps512"] else "mbr %s" % e["op"])
    c.assumptions = ["disks of less than 1 TiB", "partitions do not contain boot records"]
    return c.finish()
