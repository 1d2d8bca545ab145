"""C21: FAT volumes: listings, look-ups and file contents."""
import os
from kv import Check
from images import near, record_images
from streams import big, history
import fat


def twist(rng, name):
    """The same name in another case."""
    s = [chr(x) for x in name]
    k = rng.random()
    if k < 0.4:
        return list(name)
    t = []
    for x in name:
        u = fat.upper(x)
        lows = [y for y in (x + 32, x + 80) if y < 0x10000 and fat.upper(y) == x]
        t.append(rng.choice([x, u] + lows))
    return t


def main():
    c = Check("C21")
    rng = c.rng
    drv = c.build("fmt")
    c.tlc("MC_Fat")
    cases, writers = [], []
    while len(cases) < c.scale(260, 2600):
        kind = rng.choice([12, 12, 16, 32, 32])
        if kind == 12:
            n = rng.choice([4084, 4083, rng.randrange(30, 400), rng.randrange(30, 4085)])
        elif kind == 16:
            n = rng.choice([4085, 4086, 65524, rng.randrange(4085, 20000)])
        else:
            n = rng.choice([rng.randrange(50, 3000), rng.randrange(50, 3000), 65525, 65600, 140000])
        bps = rng.choice([512, 512, 512, 1024, 2048, 4096])
        spc = rng.choice([1, 1, 2, 4, 8, rng.choice([16, 32, 64, 128])])
        if n * bps * spc > (1 << 36):
            continue
        v = fat.Volume(rng, kind, n, bps, spc)
        damage = rng.choice(["file", "file", "dir"]) if rng.random() < 0.15 else None
        t = fat.Tree(rng, v, rng.choice([4, 10, 20, 40]), damage)
        if rng.random() < 0.02:
            v.sectors = rng.randrange(1, v.first)
        ops = [{"op": "open"}]
        dirs = [p for p in t.paths if p[1]]
        files = [p for p in t.paths if not p[1] and p[4] and all(x != [0xE5] for x in p[0])]
        layer = 0
        byid = 0
        for p in rng.sample(dirs, min(len(dirs), rng.choice([2, 5]))):
            if all(x != [0xE5] for x in p[0]):
                ops.append({"op": "list", "path": p[0]})
        for _ in range(rng.choice([3, 8])):
            p = rng.choice(t.paths)
            if any(x == [0xE5] for x in p[0]):
                continue
            x = rng.random()
            path = [twist(rng, u) for u in p[0]]
            if x < 0.15 and path:
                path[-1] = rng.choice([path[-1] + [0x21], path[-1][:-1] or [0x71, 0x71], [0x6E, 0x6F]])
            elif x < 0.2:
                path.append(fat.units("none"))
            # on FAT12 and FAT16 the root directory and its first slot have the same identifier
            if x > 0.85 and byid < 3 and damage != "dir" and (kind == 32 or not p[0] or p[2] != v.place(0, 0)):
                byid += 1
                ops.append({"op": "byid", "path": p[0], "id": big(p[2] if p[0] or kind == 32 else v.place(0, 0))})
            else:
                ops.append({"op": rng.choice(["find", "find", "list"]) if p[1] else "find", "path": path, "bytes": rng.random() < 0.3})
        for p in rng.sample(files, min(len(files), rng.choice([1, 3]))):
            ops.append({"op": "file", "path": [twist(rng, u) for u in p[0]], "layer": layer})
            marks = near(rng, [v.bps * v.spc * k for k in range(1, 1 + p[3] // (v.bps * v.spc))][-40:] + [512], p[3])
            if damage == "file":
                ops += [{"op": "read_at", "from": "start", "layer": layer, "n": rng.randrange(1, 300), "off": big(max(0, rng.choice(marks) - rng.randrange(300)))} for _ in range(4)]
            else:
                ops += [dict(o, layer=layer) for o in history(rng, p[3], rng.randrange(2, 7), marks, maxread=700)]
            layer = (layer + 1) % 4
        model = v.model()
        seed = rng.random()
        writers.append(lambda d, v=v: v.write(os.path.join(d, "a.raw")))
        cases.append({"t": "fat", "file": "a.raw", "volume": model, "ops": ops})
    record_images(c, drv, cases, writers, "Trace_Fat", lambda t, e: "fat %s" % e["op"], batch=40)
    c.assumptions = ["volumes of less than 1 TiB", "case folding for Latin, Greek and Cyrillic letters", "names are distinct when folded"]
    return c.finish()
