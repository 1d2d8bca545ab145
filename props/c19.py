"""C19: GPT lists exactly the partitions, as exact sub-ranges, surviving one bad table."""
import json, os, uuid
from kv import Check
from images import image_ops, near, record_images
import volumes

TYPES = ["c12a7328-f81f-11d2-ba4b-00a0c93ec93b", "ebd0a0a2-b9e5-4433-87c0-68b6b72699c7", "0fc63daf-8483-4772-8e79-3d69d8477de4", "21686148-6449-6e6f-744e-656564454649"]


def main():
    c = Check("C19")
    rng = c.rng
    drv = c.build("fmt")
    images = []
    for cfg in ("MC_Gpt.cfg", "MC_Gpt_4k.cfg"):
        out, _, _ = c.tlc("MC_Gpt", cfg=cfg)
        got = sorted({line for line in out.splitlines() if line.startswith('"IMAGE ')})
        assert len(got) > 20
        images += [json.loads(json.loads(x.strip())[6:]) for x in rng.sample(got, min(len(got), c.scale(60, 1000)))]
    cases, writers = [], []

    def uid():
        return str(uuid.UUID(bytes=bytes(rng.randrange(256) for _ in range(16))))

    def add(l, u, headers, nops, given=None, loose=False):
        """headers: what is written (lib/volumes.py); l.tables: what of it the model knows."""
        l["given"] = (512 * u if rng.random() < 0.3 else 0) if given is None else given
        l["loose"] = loose
        tables = []
        for h in headers:
            if h:
                tables.append({"at": h["at"] * u, "ok": not h.get("bad"), "arr": not h.get("badarr"), "other": h["other"] if h["other"] * u < 1 << 31 else 0, "id": h["id"],
                               "entries": [{"i": i, "type": e["type"], "id": e["id"], "start": e["start"], "end": e["end"]} for i, e in enumerate(h["table"])
                                           if e is not None and e["type"] != str(uuid.UUID(int=0))] if not h.get("badarr") else []})
        l["tables"] = tables
        l["bps"] = 512 * u
        runs, h0 = [], rng.randrange(10 ** 6)
        best = next((t for t in tables if t["ok"] and t["arr"]), None)
        parts = [(e["start"] * u, (e["end"] - e["start"] + 1) * u) for e in best["entries"]] if best and not loose else []
        for off, n in sorted(parts):
            for s, k in [(off, min(n, 4)), (off + n - 4, 4)] if n > 8 else [(off, n)]:
                if all(s >= r["s"] + r["n"] or s + k <= r["s"] for r in runs):
                    runs.append({"s": s, "n": k, "h": h0})
                    h0 += k + rng.choice([0, 5])
        l["runs"] = runs
        full, o = dict(l), {"rng": rng, "headers": headers}
        writers.append(lambda d: volumes.write_gpt(os.path.join(d, "a.raw"), full, o))
        ops = [{"op": "open"}]
        for _ in range(nops if parts and given is None else 0):
            i = rng.randrange(len(parts))
            n = parts[i][1] * 512
            for op in image_ops(rng, [n], rng.randrange(1, 4), near(rng, [512, 4096], n))[1:]:
                ops.append(dict(op, layer=i))
        cases.append({"t": "image", "fmt": "gpt", "file": "a.raw", "disk": {k: v for k, v in l.items() if k != "bps"}, "ops": ops})

    def header(at, other, entries_at, table, first, last, did, count=None):
        return {"sig": b"EFI PART", "version": 0x10000, "hsize": 92, "at": at, "other": other, "first": first, "last": last, "id": did, "entries_at": entries_at,
                "count": len(table) if count is None else count, "esize": 128, "crcflip": 0, "table": table}

    def name():
        return "".join(rng.choice("abc XYZ é漢") for _ in range(rng.randrange(0, 36)))

    for l in images:
        u = l["tables"][1]["at"] // 199
        ids, hs = {}, []
        for k, t in enumerate(l["tables"]):
            version = int(t["id"])
            ids.setdefault(version, uid())
            table = [None] * 9
            for e in t["entries"]:
                ids.setdefault(e["id"], uid())
                table[e["i"]] = {"type": TYPES[int(e["type"]) % 4], "id": ids[e["id"]], "start": e["start"], "end": e["end"], "attr": 0, "name": name()}
            h = header(t["at"] // u, t["other"], 2 if k == 0 else 180, table, 20, 170, ids[version])
            if not t["ok"]:
                h["bad"] = h["hflip"] = True
            elif not t["arr"]:
                h["badarr"] = h["eflip"] = True
            hs.append(h)
        add(l, u, hs, 3)
    for i in range(c.scale(250, 5000)):
        u = rng.choice([1, 1, 8])
        count = rng.choice([128, 128, 4, 1, 0, 56, rng.randrange(1, 129)] + ([1024, 600] if u == 8 else []))
        eb = max(1, -(-count * 128 // (512 * u)))
        first = 2 + eb + rng.choice([0, 0, 7])
        at = first
        table = [None] * count
        k_used = rng.choice([0, 1, 2, 3, 8, count])
        big = rng.random() < 0.25
        for k in sorted(rng.sample(range(count), min(count, k_used))):
            n = rng.choice([1, 2, 9, rng.randrange(1, 3000), rng.randrange(1, 1 << (26 - (3 if u == 8 else 0))) if big and k_used < 9 else 5])
            at += rng.choice([0, 0, 1, 2048])
            table[k] = {"type": rng.choice(TYPES + [uid()]), "id": uid(), "start": at, "end": at + n - 1, "attr": rng.randrange(1 << 63), "name": name()}
            at += n
        if rng.random() < 0.3:
            some = [k for k in range(count) if table[k]]       # entries in any order
            rest = [table[k] for k in some]
            rng.shuffle(rest)
            for k, e in zip(some, rest):
                table[k] = e
        if count and rng.random() < 0.1:
            k = rng.randrange(count)
            if table[k] is None:
                table[k] = {"type": str(uuid.UUID(int=0)), "id": uid(), "start": 1, "end": 0, "attr": 5, "name": "x"}
        # the backup header is at none of the places where a header is looked for
        last = max(40, at + rng.choice([0, 0, 100]))
        blocks = last + 1 + eb + 1
        did = uid() if rng.random() < 0.97 else str(uuid.UUID(int=0))
        p = header(1, blocks - 1, 2, table, first, last, did)
        b = header(blocks - 1, 1, blocks - 1 - eb, [dict(e) if e else None for e in table], first, last, did)
        extra = 0
        r = rng.random()
        wrong = []
        if r < 0.35:
            wrong = rng.sample([p, b], rng.choice([1, 1, 1, 2]))
        elif r < 0.42:
            extra = rng.choice([1, 100])          # the disk became larger
            if rng.random() < 0.5:
                p["badarr"] = p["eflip"] = count > 0
                if not count:
                    p.pop("badarr"), p.pop("eflip")
        for h in wrong:
            x = rng.choice(["flip", "sig", "gone", "crc", "arr", "arrcrc", "version", "cut"])
            if x == "flip":
                h["bad"] = h["hflip"] = True
            elif x == "sig":
                h["sig"], h["bad"] = rng.choice([b"EFI PARS", bytes(8), b"efi part"]), True
            elif x == "crc":
                h["crcflip"], h["bad"] = 1 << rng.randrange(32), True
            elif x == "version":
                h["version"], h["bad"] = 0x10001, True
            elif x == "arr" and count:
                h["badarr"] = h["eflip"] = True
            elif x in ("arrcrc", "arr"):
                h["ecrcflip"], h["badarr"] = 1 << rng.randrange(32), True
            elif x == "cut":
                h["entries_at"], h["badarr"], h["table"] = blocks + 1000, count > 0, [None] * count
                h["ecrc"] = 0x12345678
                if not count:
                    h["ecrcflip"], h["badarr"] = 1, True
            elif x == "gone":
                h["bad"], h["sig"] = True, bytes(8)
        l = {"sectors": (blocks + extra) * u}
        if any(h["entries_at"] > blocks for h in (p, b)):
            # written where the disk is not: nothing is there
            hs = [dict(h, table=[]) if h["entries_at"] > blocks else h for h in (p, b)]
        else:
            hs = [p, b]
        add(l, u, hs, rng.randrange(0, 5), given=None if rng.random() < 0.95 else 512 * (9 - u))
    for i in range(c.scale(30, 300)):
        # entries or places that cannot be
        u = rng.choice([1, 8])
        e = {"type": TYPES[0], "id": uid(), "start": 40, "end": 50, "attr": 0, "name": ""}
        p = header(1, 999, 2, [e], 34, 900, uid())
        x = rng.choice(["end", "all", "before", "other", "entries", "esize", "count", "hsize", "huge"])
        if x == "end":
            e["end"] = 39
        elif x == "all":
            e["start"], e["end"] = rng.choice([(0, (1 << 64) - 1), (34, (1 << 64) - 1), ((1 << 64) - 1, (1 << 64) - 1), (1 << 60, 1 << 61), (1 << 55, (1 << 55) + 5)])
        elif x == "before":
            e["start"] = 33
        elif x == "other":
            p["other"] = rng.choice([(1 << 64) - 1, 1 << 62, 1 << 55])
        elif x == "huge":
            p["first"], p["last"] = (1 << 64) - 1, 0
        if x in ("entries", "esize", "count", "hsize"):
            v = rng.choice([0, 1, 127, 129, 256, (1 << 32) - 1])
            q = dict(p)
            hs = [dict(p, **({"esize": 128})), None]
            h = hs[0]
            body = h["table"]
            # the header says what is not so, with right checksums
            h["said"] = {"entries": ("entries_at", rng.choice([(1 << 64) - 1, 1 << 60, 1 << 55])), "esize": ("esize", v), "count": ("count", v), "hsize": ("hsize", rng.choice([91, 93, 512, 0, (1 << 32) - 1]))}[x]
        else:
            hs = [p, None]
        l = {"sectors": 1000 * u}
        add(l, u, hs, 0, loose=True)
        cases[-1]["disk"]["tables"] = []
        cases[-1]["any"] = True
    for x in cases:
        x["disk"]["any"] = x.pop("any", False)
    record_images(c, drv, cases, writers, "Trace_Gpt", lambda t, e: "gpt %s" % e["op"])
    c.assumptions = ["disks of less than 1 TiB", "entries of 128 bytes, at most 128 (blocks of 512 bytes) or 1024 (4096 bytes) of them: others may be refused"]
    return c.finish()
