"""C14: QCOW images present the guest disk through tables and backing files."""
import json, os
from kv import Check
from images import image_ops, near, record_images
from streams import big
import qcow


def main():
    c = Check("C14")
    rng = c.rng
    drv = c.build("fmt")
    out, _, _ = c.tlc("MC_Qcow")
    got = sorted({line for line in out.splitlines() if line.startswith('"IMAGE ')})
    assert len(got) > 500
    images = [json.loads(json.loads(x.strip())[6:]) for x in rng.sample(got, c.scale(250, 2500))]
    cases, writers = [], []
    names = ["base.qcow2", "a b.qcow", "snap-2", "top.img"]

    def add(layers, nops, marks, maxread=700, wrong=None):
        opts = []
        for k, l in enumerate(layers):
            o = {"rng": rng, "extra": rng.choice([0, 0, 1, 3]), "ext": rng.random() < 0.6, "enc": 0, "dirty": rng.choice([0, 0, 1]), "lazy": rng.choice([0, 1]),
                 "hsize": rng.choice([104, 112]), "method": 0}
            l["bytes"] = l["sectors"] * 512 - l.pop("cut", 0)
            l["size"] = big(l["bytes"])
            l["pname"] = names[k - 1] if k else ""
            l["sound"] = True
            if wrong and k == (0 if len(layers) == 1 else rng.randrange(len(layers))):
                l["sound"] = False
                if wrong == "sig":
                    o["sig"] = rng.choice([b"QFI\xfa", b"QFI ", b"\0\0\0\0", b"fbQI"])
                elif wrong == "version":
                    o["badver"] = rng.choice([4, 7, 1 << 24])
                elif wrong == "enc":
                    o["enc"] = rng.choice([1, 2])
                elif wrong == "missing":
                    o["skip"] = True
            # places: host clusters in any order
            at = qcow.plan(l)[4] + l["spc"] * rng.choice([0, 1, 7])
            ents = [e for t in l["tables"] for e in t["entries"] if e["h"] or e["kind"] != "zero"]
            rng.shuffle(ents)
            for e in ents:
                e["h"] = at
                at += l["spc"] * rng.choice([1, 1, 1, 2, 5])
            o["comp"] = at * 512 + rng.choice([0, 1, 511, 1 << 33])
            opts.append(o)
        full = [dict(l) for l in layers]

        def write(d):
            for k, l in enumerate(full):
                if not opts[k].get("skip"):
                    qcow.write(os.path.join(d, names[k]), l, opts[k])
        writers.append(write)
        ops = image_ops(rng, [l["bytes"] for l in layers], nops, marks, maxread=maxread)
        cases.append({"t": "image", "fmt": "qcow", "file": names[len(layers) - 1],
                      "layers": [{k: v for k, v in l.items() if k != "bytes"} for l in layers], "ops": ops})

    # every image of the specification: version 1 as it is, others with the two clusters of a table apart
    for layers in images:
        kinds = {e["kind"] for l in layers for t in l["tables"] for e in t["entries"]}
        for ver in ([1] if "zero" not in kinds else []) + [rng.choice([2, 3]) if "zero" not in kinds else 3]:
            ls = json.loads(json.dumps(layers))
            if ver == 1:
                u = rng.choice([1, 4])
                for l in ls:
                    l.update(ver=1, spc=2 * u, sectors=l["sectors"] * u)
                marks = [k * u * 512 for k in range(11)]
            else:
                for l in ls:
                    l.update(ver=ver, spc=1, cpt=64, sectors={9: 129, 7: 127}[l["sectors"]])
                    for t in l["tables"]:
                        for e in t["entries"]:
                            e["i"] *= 63
                    l["tables"] = [dict(t, entries=[e for e in t["entries"] if t["t"] * 64 + e["i"] < l["sectors"]]) for t in l["tables"]]
                marks = [x * 512 for x in (0, 1, 63, 64, 65, 126, 127, 128, 129)]
            add(ls, 6, marks, maxread=1500)
    # larger images
    for i in range(c.scale(260, 2200)):
        nl = rng.choice([1, 1, 2, 2, 3, 4])
        layers, edges = [], []
        same = rng.randrange(9, 17)
        # sizes of layers differ by tables or sectors
        span = None
        for k in range(nl):
            ver = rng.choice([1, 2, 2, 3, 3])
            cbits = same if rng.random() < 0.6 else rng.randrange(9, 17)
            if i % 40 == 0:
                cbits = rng.choice([18, 20, 21])
            lbits = rng.randrange(3, 12) if ver == 1 else cbits - 3
            spc, cpt = 1 << (cbits - 9), 1 << lbits
            if span is None:
                span = rng.choice([1, 2, cpt - 1, cpt, cpt + 1, 2 * cpt, 5 * cpt + 3, rng.randrange(1, 40 * cpt)]) * spc
                span = min(span, (1 << 31) - (1 << 22))
            sectors = max(1, span - rng.choice([0, 0, 1, spc // 2, 3]) if k == 0 or rng.random() < 0.6 else
                          rng.choice([max(1, span // 2), span + 1, span + 3 * spc, span * 2 if span < 1 << 29 else span]))
            n = -(-sectors // spc)
            if -(-n // cpt) > 200000:
                sectors = 200000 * cpt * spc
                n = 200000 * cpt
            cand = [0, 1, n - 1, n - 2, cpt - 1, cpt, 2 * cpt - 1, 2 * cpt, cpt * (n // cpt), n // 2, rng.randrange(n), rng.randrange(n)]
            cand = sorted({x for x in cand if 0 <= x < n})
            cand = rng.sample(cand, min(len(cand), rng.randrange(1, 7)))
            tables = {}
            for x in cand:
                kind = rng.choice(["raw", "raw", "comp"] + (["zero", "zero"] if ver == 3 else []))
                tables.setdefault(x // cpt, []).append({"i": x % cpt, "kind": kind, "h": 1 if kind != "zero" else rng.choice([0, 1])})
                edges += [x * spc * 512, (x + 1) * spc * 512]
            edges += [t * cpt * spc * 512 for t in (1, 2)]
            ts = [{"t": t, "entries": e} for t, e in tables.items()]
            rng.shuffle(ts)
            layers.append({"file": k + 1, "ver": ver, "spc": spc, "cpt": cpt, "sectors": sectors, "tables": ts,
                           "cut": rng.choice([0, 0, 0, 1, 200, 511]) if k == nl - 1 else 0})
        edges += [l["sectors"] * 512 for l in layers]
        add(layers, rng.randrange(3, 12), near(rng, edges, layers[-1]["sectors"] * 512), maxread=rng.choice([100, 700, 700, 2500]))
    # images that cannot be opened
    for i in range(24):
        ver = rng.choice([1, 2, 3])
        n = rng.choice([1, 2, 3]) if i % 4 != 3 else 2
        add([{"file": k + 1, "ver": ver, "spc": 8, "cpt": 512, "sectors": 4096, "tables": []} for k in range(n)], 2, [0, 512],
            wrong=["sig", "version", "enc", "missing"][i % 4] if n > 1 or i % 4 != 3 else "sig")
    record_images(c, drv, cases, writers, "Trace_Qcow", lambda t, e: "qcow %s" % e["op"])
    c.assumptions = ["disks of less than 1 TiB", "backing files are QCOW files in the same directory", "no encryption, zlib compression, no external data file, no extended level 2 entries",
                     "clusters of the disk are stored completely"]
    return c.finish()
