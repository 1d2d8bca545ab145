"""C13: VHDX images present the guest disk their block tables describe."""
import json, os, uuid
from kv import Check
from images import image_ops, near, record_images
from streams import big
import vhdx


def main():
    c = Check("C13")
    rng = c.rng
    drv = c.build("fmt")
    images = []
    for base in ("fixed", "dynamic"):
        out, _, _ = c.tlc("MC_Vhdx", cfg="MC_Vhdx_%s.cfg" % base)
        got = sorted({line for line in out.splitlines() if line.startswith('"IMAGE ')})
        assert len(got) > 500
        images += [json.loads(json.loads(x.strip())[6:]) for x in rng.sample(got, c.scale(140, 1200))]
    out, _, _ = c.tlc("MC_Vhdx", cfg="MC_Vhdx_heads.cfg")
    heads = [json.loads(json.loads(x.strip())[6:]) for x in sorted({x for x in out.splitlines() if x.startswith('"HEADS ')})]
    assert heads
    cases, writers = [], []
    anyid = lambda: str(uuid.UUID(int=rng.getrandbits(128) | 1 << 127))
    names = ["base.vhdx", "snap 1.avhdx", "snap2.vhdx", "top.vhdx"]

    def add(layers, nops, marks, maxread=700, region=None, head=None, wrong=None):
        opts = []
        for k, l in enumerate(layers):
            o = {"any": anyid(), "disk": anyid(), "phys": rng.choice([512, 4096]), "gap": rng.choice([0, 0, 8, 100]), "meta": 2, "bat": 3,
                 "maps": l.pop("maps", 4), "mapstep": l.pop("mapstep", 1), "rng": rng, "order": rng.random() < 0.5, "full": rng.random() < 0.3,
                 "stale": rng.random() < 0.3}
            if rng.random() < 0.2 and l["entries"] * 8 <= vhdx.MIB:
                o["meta"], o["bat"] = 3, 2
            o["entries"] = l.pop("entries")
            # headers: the history of updates of the specification, or any two
            if head is not None and k == len(layers) - 1:
                hs = [dict(h, id=anyid()) for h in head]
            else:
                s = rng.choice([0, 1, 7, (1 << 32) - 1, (1 << 33), (1 << 63) - 1, (1 << 64) - 2])
                hs = [{"ok": True, "seq": big(s), "id": anyid()}, {"ok": rng.random() < 0.8, "seq": big(s + 1), "id": anyid()}]
                if rng.random() < 0.5:
                    hs.reverse()
            l["heads"] = hs
            o["heads"] = [None if h["ok"] else rng.choice(["sum", "data", "sig", "zero"]) for h in hs]
            l["regions"] = [True, True]
            if region is not None and k == len(layers) - 1:
                l["regions"] = region
            o["regions"] = [None if r else rng.choice(["sum", "data", "sig", "zero"]) for r in l["regions"]]
            ok = [h for h in hs if h["ok"]]
            l["cur"] = max(ok, key=lambda h: h["seq"])["id"] if ok else ""
            l["pid"] = layers[k - 1]["cur"] if k else ""
            l["sound"] = True
            if wrong == "pid" and k:
                l["pid"] = anyid()
            if wrong == "sig" and k == 0:
                o["sig"] = rng.choice([b"vhdxfilE", b"conectix", b"\0" * 8])
                l["sound"] = False
            name = names[k - 1] if k else ""
            abs_, vol, rel = "\\\\?\\c:\\vm\\" + name, "\\\\?\\Volume{%s}\\%s" % (anyid(), name), rng.choice([".\\", "..\\x\\", ""]) + name
            keys = rng.choice([["a", "v", "r"], ["r", "v", "a"], ["a"], ["v"], ["r"], ["v", "r"], ["r", "v"]]) if k else []
            link = rng.choice(["{%s}", "%s"]) % (l["pid"] if rng.random() < 0.5 else l["pid"].upper())
            o["locator"] = [({"a": "absolute_win32_path", "v": "volume_path", "r": "relative_path"}[x], {"a": abs_, "v": vol, "r": rel}[x]) for x in keys]
            o["locator"].insert(rng.randrange(len(keys) + 1), ("parent_linkage", link))
            if rng.random() < 0.3:
                o["locator"].insert(0, ("parent_linkage2", "{%s}" % anyid()))
            l["pname"] = ((abs_ if "a" in keys else vol if "v" in keys else rel) if k else "")
            l["size"] = big(l["bytes"])
            opts.append(o)
        full = [dict(l) for l in layers]

        def write(d):
            for k, l in enumerate(full):
                vhdx.write(os.path.join(d, names[k]), l, opts[k])
        writers.append(write)
        for l in layers:
            l["pname"] = l["pname"].replace("\\", "\\\\")  # as text, strings show a backslash as two
            l["blocks"] = list(l["blocks"])
        ops = image_ops(rng, [l["bytes"] for l in layers], nops, marks, maxread=maxread)
        cases.append({"t": "image", "fmt": "vhdx", "kind": layers[-1]["kind"], "file": names[len(layers) - 1],
                      "layers": [{k: v for k, v in l.items() if k not in ("bytes", "cur")} for l in layers], "ops": ops})

    # every image of the specification, a sector of it being half a block of 1 MiB
    U = 1024
    for layers in images:
        for l in layers:
            l.update(spb=2 * U, bytes=5 * U * 512, bps=rng.choice([512, 4096]), entries=4)
            for x in l["blocks"]:
                x["h"] *= U
                x["runs"] = [[a * U, n * U] for a, n in x["runs"]]
            if l["kind"] == "diff":
                l["entries"] = (1 << 23) * l["bps"] // vhdx.MIB + 1
        add(layers, 6, [k * U * 512 for k in range(6)], maxread=1500, head=rng.choice(heads) if rng.random() < 0.5 else None)
    # larger images
    for i in range(c.scale(160, 1200)):
        nl = rng.choice([1, 1, 2, 2, 3, 4])
        bps = rng.choice([512, 512, 4096])
        lss = bps // 512
        mb = rng.choice([1, 1, 1, 2, 4, 32])
        spb = mb * 2048
        chunk = (1 << 23) * bps // (mb * vhdx.MIB)
        nb = rng.choice([1, 2, 3, 7, chunk - 1, chunk, chunk + 1, chunk + 2, 2 * chunk, 3 * chunk + 5])
        nb = min(nb, ((1 << 31) - 4096) // spb)
        sectors = max(lss, nb * spb - lss * rng.choice([0, 0, 1, 5, spb // lss // 2]))
        size = sectors * 512
        layers, edges = [], []
        for k in range(nl):
            base = rng.choice(["fixed", "dynamic", "dynamic"]) if nb < 5 else "dynamic"
            kind = "diff" if k else base
            nchunks = -(-nb // chunk)
            entries = nchunks * (chunk + 1) if kind == "diff" else nb + (nb - 1) // chunk
            maps = 3 + -(-entries * 8 // vhdx.MIB) + rng.choice([0, 1])
            h = maps + (nchunks if kind == "diff" else 0) + rng.choice([0, 1, 3])
            if rng.random() < 0.15:
                h += rng.choice([4096, 1 << 15])
            blocks = []
            cand = [0, 1, nb - 1, nb - 2, chunk - 1, chunk, chunk + 1, 2 * chunk, 2 * chunk - 1, rng.randrange(nb), rng.randrange(nb)]
            cand = sorted({b for b in cand if 0 <= b < nb})
            if kind == "fixed":
                cand = list(range(nb))
            elif len(cand) > 4:
                cand = rng.sample(cand, rng.randrange(2, 5))
            rng.shuffle(cand)
            stored = 0
            for b in cand:
                st = 6 if kind == "fixed" else rng.choice([6, 6, 6, 0, 1, 2, 3] if kind == "dynamic" else [6, 7, 7, 7, 7, 0, 2])
                if st in (6, 7):
                    stored += mb
                    if stored > 5 and kind != "fixed" and stored > mb:
                        break
                runs = []
                if st == 7:
                    at = 0
                    units = spb // lss
                    while at < units and len(runs) < 9:
                        at += rng.choice([0, 1, 7, 8, rng.randrange(units)]) if not runs else rng.choice([1, 7, 8, 9, rng.randrange(1, units)])
                        n = rng.choice([1, 2, 7, 8, 9, 16, rng.randrange(1, units)])
                        if at >= units:
                            break
                        n = min(n, units - at)
                        runs.append([at * lss, n * lss])
                        at += n
                blocks.append({"b": b, "state": st, "h": h * 2048 if st in (6, 7) else rng.choice([0, 1, 9]) * 2048, "runs": runs})
                edges += [(b * spb + x) * 512 for r in runs for x in (r[0], r[0] + r[1])]
                edges += [b * spb * 512, (b + 1) * spb * 512]
                if st in (6, 7):
                    h += mb + rng.choice([0, 0, 1])
            layers.append({"kind": kind, "file": k + 1, "spb": spb, "blocks": blocks, "bytes": size, "bps": bps, "maps": maps, "mapstep": 1,
                           "entries": entries})
        add(layers, rng.randrange(3, 12), near(rng, edges, size), maxread=rng.choice([100, 700, 700, 2500]),
            region=rng.choice([None, None, [True, False], [False, True]]), head=rng.choice(heads) if rng.random() < 0.3 else None)
    # no sound header, no sound region table, layers that do not belong together, no image at all
    for i in range(24):
        two = [{"kind": "dynamic", "file": 1, "spb": 2048, "blocks": [], "bytes": 1 << 21, "bps": 512, "entries": 2},
               {"kind": "diff", "file": 2, "spb": 2048, "blocks": [], "bytes": 1 << 21, "bps": 512, "entries": 4097}]
        bad = [{"ok": False, "seq": big(3), "id": ""}, {"ok": False, "seq": big(4), "id": ""}]
        add(two, 2, [0, 512], head=bad if i % 4 == 0 else None, region=[False, False] if i % 4 == 1 else None,
            wrong="pid" if i % 4 == 2 else "sig" if i % 4 == 3 else None)
    record_images(c, drv, cases, writers, "Trace_Vhdx", lambda t, e: "%s %s" % (t["kind"], e["op"]), batch=60)
    c.assumptions = ["disks of less than 1 TiB", "the log is empty", "both region tables agree when both are sound", "all layers present disks of the same size"]
    return c.finish()
