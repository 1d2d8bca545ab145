"""C15: sparse disk images and sparse bundles present the bands they contain."""
import json, os
from kv import Check
from images import bulk, image_ops, near, record_images
from streams import big
import bands


def main():
    c = Check("C15")
    rng = c.rng
    drv = c.build("fmt")
    images = []
    for kind in ("image", "bundle"):
        out, _, _ = c.tlc("MC_Bands", cfg="MC_Bands_%s.cfg" % kind)
        got = sorted({line for line in out.splitlines() if line.startswith('"IMAGE ')})
        assert len(got) > 50
        images += [json.loads(json.loads(x.strip())[6:]) for x in rng.sample(got, min(len(got), c.scale(200, 4000)))]
    cases, writers = [], []

    def add(l, nops, marks, maxread=700, wrong=None, more=()):
        o = {"rng": rng, "stale": not more and rng.random() < 0.5}
        l["bytes"] = l["sectors"] * 512 - l.pop("cut", 0)
        l["size"] = big(l["bytes"])
        l["sound"] = not wrong
        o.update(wrong or {})
        full = dict(l)

        def write(d):
            if full["kind"] == "image":
                bands.write_image(os.path.join(d, "a.sparseimage"), full, o)
            else:
                bands.write_bundle(os.path.join(d, "a.sparsebundle"), full, o)
        writers.append(write)
        cases.append({"t": "image", "fmt": "sparse" + l["kind"], "file": "a.sparse" + l["kind"], "disk": {k: v for k, v in l.items() if k != "bytes"},
                      "ops": image_ops(rng, [l["bytes"]], nops, marks, maxread=maxread) + list(more)})

    for l in images:
        u = rng.choice([1, 1, 3, 16])
        l.update(spb=2 * u, sectors=5 * u, ends=8 + (l["ends"] - 8) * u)
        for x in l["bands"]:
            x["n"] *= u
        add(l, 7, [k * u * 512 for k in range(7)], maxread=1500)
    for i in range(c.scale(300, 3000)):
        kind = rng.choice(["image", "bundle"])
        spb = rng.choice([1, 2, 3, 8, 100, 2048, 16384, rng.randrange(1, 3000)])
        n = rng.choice([1, 2, 3, 10, 100, 1007, 1008] + ([16, 17, 255, 256, 4097, 65536 + 5] if kind == "bundle" else []))
        n = min(n, ((1 << 31) - 1) // spb)
        sectors = n * spb - rng.choice([0, 0, rng.randrange(spb)])
        cand = sorted({b for b in (0, 1, n - 1, n - 2, 9, 10, 15, 16, 255, 256, 4096, n // 2, rng.randrange(n)) if 0 <= b < n})
        cand = rng.sample(cand, min(len(cand), rng.randrange(0, 6)))
        edges = [b * spb * 512 for b in cand] + [(b + 1) * spb * 512 for b in cand]
        l = {"kind": kind, "file": 1, "spb": spb, "sectors": sectors, "array": [], "ends": 8, "bands": []}
        if kind == "image":
            arr = [b + 1 for b in cand] + [0] * rng.choice([0, 0, 1, 2])
            rng.shuffle(arr)
            l["array"] = arr[:n] if len(arr) > n else arr
            l["ends"] = 8 + len(l["array"]) * spb - rng.choice([0, 0, rng.randrange(spb)] if l["array"] else [0])
            edges += [(b - 1) * spb * 512 + (l["ends"] - 8) % spb * 512 for b in l["array"] if b]
        else:
            for b in cand:
                k = rng.choice([spb, spb, 0, 1, rng.randrange(spb + 1)])
                l["bands"].append({"b": b, "h": rng.randrange(10 ** 6), "n": k})
                edges.append((b * spb + k) * 512)
            l["cut"] = rng.choice([0, 0, 1, 100, 511])
        add(l, rng.randrange(3, 12), near(rng, edges, sectors * 512), maxread=rng.choice([100, 700, 700, 2500]))
    # bands stored beyond 4 GiB, reads of more than 64 KiB
    for i in range(c.scale(10, 80)):
        kind = ["image", "bundle"][i % 2]
        k, n = rng.randrange(1, 400), 600 + rng.randrange(400)
        if kind == "image":
            spb, at, b = rng.choice([8192, 16384, 16383]), rng.randrange(0, 3) if rng.random() < 0.3 else rng.randrange(540, n), rng.randrange(540, n)
            bands_, array, ends, short = [b], [0] * at + [b + 1], 8 + at * spb + k, []
        else:
            spb = rng.choice([16384, 1 << 20, 1 << 21, (1 << 22) - 1])
            n = min(n, 200) if spb > 16384 else n
            bands_ = [rng.choice([n - 1, rng.randrange((9 << 20) // spb, n)]), 0]
            array, ends, short = [], 8, [{"b": b, "h": rng.randrange(10 ** 6), "n": k} for b in dict.fromkeys(bands_)]
        edges = [x * 512 for b in bands_ for x in (b * spb, b * spb + k, (b + 1) * spb)]
        l = {"kind": kind, "file": 1, "spb": spb, "sectors": n * spb, "array": array, "ends": ends, "bands": short}
        add(l, rng.randrange(4, 12), near(rng, edges, l["sectors"] * 512), more=bulk(rng, l["sectors"] * 512, edges))
    for i in range(24):
        kind = ["image", "bundle"][i % 2]
        wrong = rng.choice([{"sig": b"sprt"}, {"sig": bytes(4)}, {"zero": True}]) if kind == "image" else \
            rng.choice([{"version": "7.0"}, {"type": "com.apple.diskimage.sparsebundle2"}, {"without": "size"}, {"without": "band-size"}, {"band": 0}, {"band": -512},
                        {"without": "diskimage-bundle-type"}, {"noplist": True}, {"size": -1}])
        add({"kind": kind, "file": 1, "spb": 8, "sectors": 64, "array": [1], "ends": 16, "bands": []}, 2, [0, 512], wrong=wrong)
    record_images(c, drv, cases, writers, "Trace_Bands", lambda t, e: "%s %s" % (t["fmt"], e["op"]))
    c.assumptions = ["disks of less than 1 TiB", "sparse images with a single band array (1008 bands)"]
    return c.finish()
