"""C23: NTFS volumes: listings, look-ups and contents of streams."""
import os
from kv import Check
from images import near, record_images
from streams import big, history
import ntfs


def main():
    c = Check("C23")
    rng = c.rng
    drv = c.build("fmt")
    c.tlc("MC_Ntfs", "MC_Ntfs_deep.cfg" if c.tier == "thorough" else None)
    cases, writers = [], []
    while len(cases) < c.scale(250, 2000):
        try:
            v = ntfs.Volume(rng)
            t = ntfs.Tree(rng, v, rng.choice([4, 12, 25, 50]))
        except MemoryError:
            continue
        inverse = {}
        for a, b in v.map.items():
            inverse.setdefault(b, []).append(a)
        x = rng.random()
        if x < 0.04:
            v.wrong = rng.choice(["boot", "torn"])
            if v.wrong == "torn":
                v.entries[rng.choice([0, 3, 10])]["state"] = "torn"
        # of entries that have a part of a stream alone nothing is said
        whole = [n for n, e in v.entries.items() if e["base"] == (0, 0) or not any(p["m"].get("comp") or p["m"]["first"] or p["m"]["t"] == 192 for p in e["parts"])]
        ops = [{"op": "open"}]
        dirs = [p for p in t.paths if p[1]]
        files = [(p, n, s, m) for p in t.paths if not p[4] for n, (s, m) in p[3].items()]
        for p in rng.sample(dirs, min(len(dirs), rng.choice([2, 5]))):
            ops.append({"op": "list", "path": p[0]})
        for _ in range(rng.choice([3, 8, 12])):
            p = rng.choice(t.paths)
            path = [list(u) for u in p[0]]
            x = rng.random()
            if x < 0.15 and path:
                path[-1] = rng.choice([path[-1] + [0x21], path[-1][:-1] or [0x71, 0x71], [0x6E, 0x6F]])
            elif x < 0.2:
                path.append([0x6E, 0x6F])
            elif x < 0.5:
                path = [[rng.choice(inverse.get(w, [w]) + [w]) if rng.random() < 0.6 else u for u, w in zip(y, v.upper(y))] for y in path]
            elif x < 0.6:
                path = [v.upper(y) for y in path]
            y = rng.random()
            if y > 0.95:
                ops.append({"op": "byid", "n": rng.choice([v.nents, v.nents + 1, v.nents - 1, 11, 4])})
            elif y > 0.8:
                ops.append({"op": "byid", "n": rng.choice([p[2]] + t.loose + whole)})
            else:
                ops.append({"op": "list" if p[1] and rng.random() < 0.3 or rng.random() < 0.1 else "find", "path": path})
        layer = 0
        for p, n, s, m in rng.sample(files, min(len(files), rng.choice([1, 3, 6]))):
            if list(n) == ntfs.OVERLAY:
                continue
            name = list(n) if n else [-1]
            if rng.random() < 0.1:
                name = rng.choice([[0x6E, 0x6F], [-1], [u ^ 32 if 97 <= u <= 122 else u for u in name]])
            ops.append({"op": "file", "path": p[0], "layer": layer, "name": name, "fork": rng.random() < 0.4})
            edges = [0, v.bs, v.bs * 16] + m + [x - 4 for x in (1 << 32, 1 << 31)]
            ops += [dict(o, layer=layer) for o in history(rng, s, rng.randrange(2, 9), near(rng, edges, s), maxread=rng.choice([700, 700, 3000]))]
            layer = (layer + 1) % 3
        writers.append(lambda d, v=v: v.write(os.path.join(d, "a.raw")))
        cases.append({"t": "ntfs", "file": "a.raw", "volume": v.model(), "ops": ops})
    record_images(c, drv, cases, writers, "Trace_Ntfs", lambda t, e: "ntfs %s" % e["op"], batch=40)
    c.assumptions = ["volumes of less than 1 TiB", "features the code names unsupported are not used"]
    return c.finish()
