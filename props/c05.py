"""C05: code pages."""
import json, os
import kv
from kv import Check
from tracing import record


def main():
    c = Check("C05")
    rng = c.rng
    drv = c.build("core")
    c.tlc("MC_Codec", "MC_Codec_deep.cfg" if c.thorough else None)
    tabs = json.load(open(os.path.join(kv.SPECS, "tables", "codepages.json")))
    cases = []
    names = sorted(tabs["single"]) + ["windows932"]
    for enc in names:
        w = enc == "windows932"
        if w:
            mapped = {x for x in tabs["w932"][0][0]} | {x for _, row in tabs["leads"] for x in row}
        else:
            mapped = set(tabs["single"][enc])
        mapped.discard(-1)
        ops = []
        # every byte on its own; every code point of the basic plane (in blocks) and beyond
        # (ASCII: the bytes outside the character set as histories of their own)
        lim = 128 if enc == "ascii" else 256
        ops += [{"op": "decode", "data": [b]} for b in range(lim)]
        cases += [{"t": "codec", "enc": enc, "ops": [{"op": "decode", "data": [b]}]} for b in range(lim, 256)]
        ops += [{"op": "decode", "data": []}, {"op": "encode", "data": []}]
        if w:
            # every pair, valid ones in long runs, the others one by one
            for lead, row in tabs["leads"]:
                good = [t for t in range(256) if row[t] != -1]
                for k in range(0, len(good), 94):
                    ops.append({"op": "decode", "data": [x for t in good[k:k + 94] for x in (lead, t)]})
                bad = [t for t in range(256) if row[t] == -1]
                if not c.thorough:
                    edge = [t for t in bad if t in (0x3f, 0x40, 0x7e, 0x7f, 0x80, 0xfc, 0xfd)
                            or any(0 <= u < 256 and row[u] != -1 for u in (t - 1, t + 1))]
                    bad = bad if len(good) else edge + rng.sample(bad, min(16, len(bad)))
                ops += [{"op": "decode", "data": [lead, t]} for t in bad]
        allc = list(range(0x10000)) + [0x10000, 0x1F600, 0x10FFFF, 0x10041, 0x200ac]
        if not c.thorough and not w:
            # all code points that are mapped by some code page here, their neighbours, and a sample
            near = {x + d for x in mapped for d in (-1, 0, 1)} | set(range(0x0, 0x600)) | set(range(0x1e00, 0x1f00)) | \
                set(range(0x2000, 0x2900)) | set(range(0xf880, 0xf8ff)) | set(rng.sample(range(0x10000), 1500)) | \
                {x + k for x in mapped for k in (0x100, 0x10000, 0x1000)}
            allc = sorted(x for x in near if x >= 0)
        for k in range(0, len(allc), 64):
            ops.append({"op": "encode", "data": allc[k:k + 64]})
        # sequences: the codec works element by element in order
        ml = sorted(mapped)
        asc = [x for x in range(lim) if (tabs["w932"][0][0] if w else tabs["single"][enc])[x] != -1]
        for _ in range(c.scale(60, 600)):
            n = rng.choice([1, 2, 3, 7, 16, 40])
            if rng.random() < 0.5:
                ops.append({"op": "encode", "data": [rng.choice(ml) if rng.random() < 0.9 else rng.randrange(0x11000)
                                                     for _ in range(n)]})
            elif w:
                s = []
                while len(s) < n:
                    lead, row = rng.choice(tabs["leads"])
                    good = [t for t in range(256) if row[t] != -1]
                    s += [lead, rng.choice(good)] if good and rng.random() < 0.6 else [rng.choice(
                        [x for x in range(256) if tabs["w932"][0][0][x] != -1])] if rng.random() < 0.95 else [rng.randrange(256)]
                ops.append({"op": "decode", "data": s})
            else:
                ops.append({"op": "decode", "data": [rng.randrange(lim) for _ in range(n)]})
        # long inputs, in pieces that are inputs of their own
        for total in (300, 5000, c.scale(70000 if enc in ("ascii", "windows932", "windows1252") else 9000, 200000)):
            for way in ("decode", "encode"):
                ps, n = [], 0
                while n < total:
                    m = rng.randrange(1, 400)
                    if way == "encode":
                        d = [rng.choice(ml) for _ in range(m)]
                    elif w:
                        d = []
                        for _ in range(m):
                            lead, row = rng.choice(tabs["leads"])
                            good = [t for t in range(256) if row[t] != -1]
                            d += [lead, rng.choice(good)] if good and rng.random() < 0.7 else [rng.choice(asc)]
                        m = sum(1 for _ in bytes(d).decode("cp932", "replace"))
                    else:
                        d = [rng.choice(asc) for _ in range(m)]
                    ps.append({"op": way, "data": d, "n": m})
                    n += len(d)
                cases.append({"t": "codec", "enc": enc, "pieces": True, "ops": ps})
        for k in range(0, len(ops), 200):
            cases.append({"t": "codec", "enc": enc, "ops": ops[k:k + 200]})
    # one element of the input per event keeps findings apart; a panic becomes an impossible observation
    record(c, drv, cases, "Trace_Codec", key, fix=fix, per_event=True)
    return c.finish()


def fix(case, e):
    if not isinstance(e["out"], list):
        e["panic"] = e["out"]
        e["out"] = [-2] if e["op"] == "decode" else [[-2]] * max(1, len(e["data"]))


def key(t, e):
    # names the code page, the direction and the elements
    return "%s %s %s" % (t["enc"], e["op"], ",".join("%x" % x for x in e["data"][:8]))
