"""C17: EWF images present the media their segment files describe."""
import json, uuid
from kv import Check
from images import bulk, image_ops, near, record_images
from streams import big
import ewf

NIL = "00000000-0000-0000-0000-000000000000"
KEYS = ["a", "av", "c", "e", "l", "m", "md", "n", "ov", "p", "pid", "r", "sn", "t", "u"]
OTHER = ["ltree", "ltypes", "session", "xhash", "xheader", "incomplete", "sectors2", "z"]


def main():
    c = Check("C17")
    rng = c.rng
    drv = c.build("fmt")
    out, _, _ = c.tlc("MC_Ewf")
    got = sorted({line for line in out.splitlines() if line.startswith('"IMAGE ')})
    assert len(got) > 10000
    images = [json.loads(json.loads(x.strip())[6:]) for x in rng.sample(got, c.scale(220, 1800))]
    cases, writers = [], []

    def hexa(n):
        return "".join("%02x" % rng.randrange(256) for _ in range(n))

    def text(kind):
        n = rng.choice([0, 0, 1, 3, 10, 10, 200])
        if kind == 1:
            return [rng.choice([32, 48, 65, 97, 126, 35, 92, rng.randrange(32, 127)]) for _ in range(n)]
        r = []
        for _ in range(n):
            u = rng.choice([48, 65, 97, 0xE9, 0x20AC, 0x4E00, 0xFEFF, rng.randrange(32, 0xD800), rng.randrange(0xE000, 0xFFFE), -1])
            r += [u] if u >= 0 else [rng.randrange(0xD800, 0xDC00), rng.randrange(0xDC00, 0xE000)]
        return r

    def row(kind, key):
        if kind == 2 and key in ("m", "u"):
            return [key, [ord(x) for x in rng.choice(["0", "1142163845", "2147483647", "2147483648", "007", str(rng.randrange(1 << 31)), str(rng.randrange(1 << 31)), "", "12 ", "-1", "99999999999999", "12a"])]]
        if kind == 1 and key in ("m", "u"):
            return [key, [ord(x) for x in "2006 3 12 11 44 5"]]
        return [key, text(kind)]

    def head(kind, nkeys=None):
        # notes of header2 sections are elsewhere
        ks = [k for k in KEYS if kind == 1 or k != "t"] + ["zz", "dc", "ext", "ma"]
        rng.shuffle(ks)
        ks = ks[:nkeys if nkeys is not None else rng.choice([1, 4, 9, 11, 19])]
        if rng.random() < 0.1:
            ks.append(ks[0])
        return {"t": "header", "ok": True, "kind": kind, "rows": [row(kind, k) for k in ks], "_nl": rng.choice(["\n", "\r\n"]), "_cat": rng.choice("13"),
                "_enc": rng.choice(["bom", "be", "le"]), "_level": rng.choice([0, 1, 6, 9])}

    def vol(style, spc, bps, n, count):
        media = rng.choice([0, 1, 3, 14, 16, 2, 255])
        s01 = style == "s01"
        return {"t": rng.choice(["volume", "disk"]), "ok": True, "spc": spc, "bps": bps, "size": big(n * bps), "count": count,
                "media": 255 if s01 or media == 2 else media, "_media": media, "gran": 0 if s01 else rng.choice([0, spc, 64]),
                "id": NIL if s01 else str(uuid.UUID(int=rng.getrandbits(128))), "_n": n}

    def other(hole=0):
        return {"t": "other", "ok": True, "_name": rng.choice(OTHER), "_len": rng.choice([0, 1, 100]), "_hole": hole}

    def add(l, nops, marks, maxread=900, ops=None, label="ewf", **o):
        l.setdefault("wrong", "no")
        o["seed"] = rng.getrandbits(40)
        schema = rng.choice(["E01", "E01", "e01", "S01", "s01"]) if l["_style"] != "s01" else rng.choice(["S01", "s01"])
        stem = o.pop("stem", rng.choice(["a", "image", "some.more", "caf\u00e9", "\u4e00 \U0001f600", "E01"]))
        writers.append(lambda d: ewf.write(d, stem, schema, l, o))
        if ops is None:
            ops = image_ops(rng, [l["_bytes"]], nops, marks, maxread=maxread)
        if any(ch["bad"] for g in l["segs"] for s in g["secs"] if s["t"] == "table" for ch in s["chunks"]):
            # where the cursor is after a read that failed is open, so always ask
            ops = [p for op in ops for p in ([op, {"op": "tell", "layer": op["layer"]}] if op["op"] in ("read", "read_at") else [op])]
        cases.append({"t": "image", "fmt": "ewf", "file": stem + "." + schema, "disk": ewf.model(l), "label": label, "ops": ops})

    def dress(l, style, spc, bps):
        """How the chunks of an image are stored."""
        chunks = [ch for g in l["segs"] for s in g["secs"] if s["t"] == "table" for ch in s["chunks"]]
        mode = rng.choice(["mixed", "mixed", "stored", "zlib"])
        size = spc * bps
        for i, ch in enumerate(chunks):
            ch["_comp"] = mode == "zlib" or mode == "mixed" and rng.random() < 0.5
            ch["_level"] = rng.choice([0, 1, 6, 9])
            need = min(size, l["_bytes"] - i * size)
            if i == len(chunks) - 1 and need < size and rng.random() < 0.5 and not ch["bad"]:
                ch["_pad"] = size - need
            if ch["bad"]:
                ch["_how"] = rng.choice(["flip", "flip", "short", "cut"])
            elif not ch["_comp"] and (need == size or ch.get("_pad")) and rng.random() < 0.05:
                ch["_gap"] = rng.choice([1, 4, 100])
        for g in l["segs"]:
            table = None
            for s in g["secs"]:
                if s["t"] == "table":
                    table = s
                elif s["t"] == "table2" and table is not None:
                    s["chunks"] = table["chunks"]
        return l

    # images of the model, with sectors and chunks of all kinds
    for l in images:
        style = rng.choice(["e01", "e01", "encase1", "s01"])
        spc, bps = rng.choice([(2, 512), (1, 512), (1, 4096), (64, 512), (3, 2048), (2, 256)])
        v = next((s for g in l["segs"] for s in g["secs"] if s["t"] == "volume"), None)
        half = v is not None and v["size"] != [0, 0, 4096]
        n = 4 * spc - ((spc // 2) if half else 0)
        keep = None
        per = spc * bps // 512
        for g in l["segs"]:
            for i, s in enumerate(g["secs"]):
                if s["t"] == "volume":
                    w = vol(style, spc, bps, n, 4)
                    w["ok"] = s["ok"]
                    g["secs"][i] = keep = w
                elif s["t"] in ("table", "table2"):
                    for ch in s["chunks"]:
                        ch["h"] = ch["h"] // 2 * per
                elif s["t"] == "hash":
                    s["md5"] = hexa(16)
                elif s["t"] == "header":
                    g["secs"][i] = dict(head(s["kind"], 4), ok=s["ok"])
        vid = keep["id"] if keep else NIL
        for g in l["segs"]:
            for s in g["secs"]:
                if s["t"] == "data":
                    s["id"] = vid if s["id"] == "x" else str(uuid.UUID(int=77))
        if keep is None:
            keep = vol(style, spc, bps, n, 4)
        l["_style"], l["_bytes"], l["_vol"] = style, n * bps, keep
        dress(l, style, spc, bps)
        if not any(s["t"] in ("volume", "disk") for g in l["segs"] for s in g["secs"]):
            for g in l["segs"]:         # the first segment file is lost: its chunks are of that size all the same
                for s in g["secs"]:
                    for ch in s.get("chunks", []):
                        ch.pop("_pad", None)
        add(l, 8, [k * spc * bps for k in range(5)], maxread=1500)

    def build(style, spc, bps, cut, nchunks, nsegs, ntables, bad=0.0, base=0, gap=None, extra=True):
        per = spc * bps // 512
        n = nchunks * spc - cut
        v = vol(style, spc, bps, n, nchunks)
        heads = [head(2), head(2), head(1)] if rng.random() < 0.4 else [head(1)] if rng.random() < 0.6 else [head(2, 9), head(1, 19)]
        if not extra:
            heads = [head(1, 3)]
        segs = [{"num": k + 1, "secs": []} for k in range(nsegs)]
        segs[0]["secs"] = heads + [v]
        if extra and rng.random() < 0.5:
            segs[0]["secs"].append({"t": "data", "ok": True, "id": v["id"]})
        for g in segs[1:]:
            if rng.random() < 0.7:
                g["secs"].append({"t": "data", "ok": True, "id": v["id"]})
        # the chunks, in tables, in segment files
        h = rng.randrange(10 ** 6)
        cuts = sorted(rng.sample(range(1, nchunks), min(nchunks - 1, ntables - 1)))
        parts = [b - a for a, b in zip([0] + cuts, cuts + [nchunks])]
        where = sorted(rng.randrange(nsegs) for _ in parts)
        for p, k in zip(parts, where):
            chunks = []
            for _ in range(p):
                chunks.append({"h": h, "bad": rng.random() < bad})
                h += per + rng.choice([0, 0, 5])
            if extra and rng.random() < 0.1:
                segs[k]["secs"].append(other())
            t = {"t": "table", "ok": True, "chunks": chunks}
            if base is None:
                t["_base"] = 0
            segs[k]["secs"].append(t)
            if style != "encase1" and rng.random() < 0.8:
                segs[k]["secs"].append({"t": "table2", "ok": True, "chunks": chunks})
        end = []
        if rng.random() < 0.3:
            end.append({"t": "error2", "ok": True})
        r = rng.random()
        if r < 0.7:
            end.append({"t": "hash", "ok": True, "md5": hexa(16)})
        if r < 0.4:
            d = {"t": "digest", "ok": True, "md5": hexa(16), "sha1": hexa(20)}
            end.insert(rng.randrange(len(end) + 1), d)
        segs[-1]["secs"] += end
        for k, g in enumerate(segs):
            g["secs"].append({"t": "next" if k < nsegs - 1 else "done", "ok": True})
        l = {"segs": segs, "_style": style, "_bytes": n * bps, "_vol": v, "wrong": "no"}
        return dress(l, style, spc, bps), [k * spc * bps for k in range(nchunks + 1)]

    for i in range(c.scale(140, 450)):
        style = rng.choice(["e01", "e01", "e01", "encase1", "s01"])
        spc, bps = rng.choice([(64, 512), (64, 512), (16, 512), (1, 512), (2, 512), (8, 2048), (1, 4096), (7, 512)])
        n = rng.choice([1, 2, 3, 5, 9, 20] if spc < 64 else [1, 2, 4, 7])
        l, marks = build(style, spc, bps, rng.choice([0, 0, 1, spc - 1]) if spc > 1 else 0, n, rng.choice([1, 1, 1, 2, 3, 4]), rng.choice([1, 1, 2, 4]), bad=rng.choice([0, 0, 0, 0.1]))
        add(l, rng.randrange(4, 14), near(rng, marks, l["_bytes"]), maxread=rng.choice([100, 900, 900, 5000]))
    # more chunks than are kept, tables beyond 64 chunks, more segment files than are kept, more than 99
    for nchunks, nsegs, nt in [(150, 1, 1), (200, 3, 5), (40, 20, 40), (60, 30, 60)] + ([(130, 105, 130)] if c.tier == "thorough" else [(120, 104, 120)]):
        l, marks = build(rng.choice(["e01", "encase1"]), 1, 512, 0, nchunks, nsegs, nt, extra=False)
        ops = image_ops(rng, [l["_bytes"]], 30, near(rng, marks, l["_bytes"]), maxread=1500)
        ops += [{"op": "read_at", "from": "start", "layer": 0, "n": rng.randrange(1, 700), "off": big(rng.randrange(l["_bytes"]))} for _ in range(40)]
        add(l, 0, [], ops=ops)
    # chunks and reads of more than 64 KiB
    for k in range(c.scale(5, 40)):
        spc, bps = rng.choice([(256, 512), (512, 512), (300, 512), (64, 4096), (1024, 256), (33, 2048)])
        l, marks = build(rng.choice(["e01", "encase1"]), spc, bps, rng.choice([0, 1]), rng.choice([2, 3]), 1, 1, extra=False)
        add(l, 0, [], ops=image_ops(rng, [l["_bytes"]], 6, near(rng, marks, l["_bytes"])) + bulk(rng, l["_bytes"], marks + [x + 66000 for x in marks[:-1]]))
    # stored chunks at 2 GiB and beyond, where the offsets of a table need all their bits
    for k in range(c.scale(2, 6)):
        l, marks = build("e01", 64, 512, 0, 6, 1, 1, base=None)
        for g in l["segs"]:
            for j, s in enumerate(g["secs"]):
                if s["t"] == "table":
                    for ch in s["chunks"]:
                        ch["_comp"] = False
                        ch.pop("_gap", None)
                    first = j
            g["secs"].insert(first, other(hole=(1 << 31) - rng.choice([100000, 150000, 70000])))
        add(l, 10, near(rng, marks, l["_bytes"]))
    # media of 2^32 sectors and more, of which little is there
    for n in [1 << 32, (1 << 32) + 7, 1 << 33]:
        l, marks = build("e01", 64, 512, 0, 4, 1, 1)
        v = next(s for s in l["segs"][0]["secs"] if s["t"] in ("volume", "disk"))
        v["_n"], v["size"] = n, big(n * 512)
        v["count"] = n // 64 + 1
        add(l, 0, [], ops=[{"op": "open"}, {"op": "size", "layer": 0}] + [{"op": "read_at", "from": "start", "layer": 0, "n": 600, "off": big(x)} for x in (0, 32000, 40000, 100)])
    # what cannot be
    for i in range(c.scale(60, 160)):
        style = rng.choice(["e01", "encase1", "s01"])
        l, marks = build(style, 2, 512, 0, 6, rng.choice([1, 2]), 2)
        o, k = {}, rng.choice(["sig", "trail", "cut", "swap", "count", "absent", "number", "sect", "sect", "vol2", "novol", "late", "name"])
        segs = l["segs"]
        tables = [s for g in segs for s in g["secs"] if s["t"] == "table"]
        if k == "sig":
            o["sig"], l["wrong"] = b"EVF\x09\x0d\x0a\xff\x01", "err"
        elif k == "trail":
            o["trail"], l["wrong"] = rng.choice([1, 76, 500]), "may"
        elif k == "cut":
            o["cut"], l["wrong"] = rng.choice([1, 75, 76, 90]), "err"
        elif k == "swap":
            s = rng.choice([t for t in tables if len(t["chunks"]) > 1])
            s["_swap"] = (0, 1)
            s["chunks"][0]["bad"] = s["chunks"][1]["bad"] = True
            l["wrong"] = "may"
            if len(s["chunks"]) > 2:
                s["chunks"][2]["bad"] = True
        elif k == "count":
            # more entries than there is room for
            rng.choice(tables)["_count"] = rng.choice([1000000, 0x3fffffff, 0xfffffff0])
            l["wrong"] = "err"
        elif k == "absent":
            l["segs"], l["_more"] = segs[:1], []
            if len(segs) == 1:
                segs[0]["secs"][-1]["t"] = "next"
        elif k == "number":
            segs[-1]["num"] = rng.choice([0, 5, 257 * len(segs), len(segs) + 256])
        elif k == "sect":
            g = rng.choice(segs)
            rng.choice(g["secs"])["ok"] = False
        elif k == "vol2":
            rng.choice(segs)["secs"].insert(1, vol(style, 2, 512, 12, 6))
            l["wrong"] = "err"
        elif k == "novol":
            segs[0]["secs"] = [s for s in segs[0]["secs"] if s["t"] not in ("volume", "disk")]
        elif k == "late":
            segs[0]["secs"].sort(key=lambda s: 1 if s["t"] in ("volume", "disk") else 2 if s["t"] in ("next", "done") else 0)
        elif k == "name":
            l["wrong"] = "err"
            o["stem"] = "x"
        add(l, 3, marks, **o)
        if k == "name":
            cases[-1]["file"] = rng.choice(["x.E02", "x.L01", "x.raw", "y.E01", "x"])
    # notes of header2 sections
    l, marks = build("e01", 2, 512, 0, 2, 1, 1, extra=False)
    l["segs"][0]["secs"].insert(0, {"t": "header", "ok": True, "kind": 2, "rows": [["c", [49]], ["t", [110, 111, 116, 101]]]})
    l["segs"][0]["secs"] = [s for s in l["segs"][0]["secs"] if not (s["t"] == "header" and s["kind"] == 1)]
    add(l, 2, marks, label="ewf header2 notes")
    record_images(c, drv, cases, writers, "Trace_Ewf", lambda t, e: "%s %s" % (t["label"], e["op"]), batch=40, timeout=60)
    c.assumptions = ["EWF version 1, E01 and S01 (SMART) layouts", "what is read lies below 1 TiB", "header2 values are valid UTF-16, header values ASCII"]
    return c.finish()
