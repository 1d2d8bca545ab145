"""C22: ext volumes: listings, look-ups and file contents."""
import os
from kv import Check
from images import near, record_images
from streams import big, history
import ext


def main():
    c = Check("C22")
    rng = c.rng
    drv = c.build("fmt")
    c.tlc("MC_Ext", "MC_Ext_deep.cfg" if c.tier == "thorough" else None)
    cases, writers = [], []
    while len(cases) < c.scale(300, 2500):
        try:
            v = ext.Volume(rng)
            t = ext.Tree(rng, v, rng.choice([4, 12, 25, 40]))
        except MemoryError:
            continue
        ops = [{"op": "open"}]
        dirs = [p for p in t.paths if p[1] == "dir"]
        files = [p for p in t.paths if p[1] == "file"]
        for p in rng.sample(dirs, min(len(dirs), rng.choice([2, 5]))):
            ops.append({"op": "list", "path": p[0]})
        for _ in range(rng.choice([3, 8])):
            p = rng.choice(t.paths)
            path = [list(u) for u in p[0]]
            x = rng.random()
            if x < 0.15 and path:
                path[-1] = rng.choice([path[-1] + [0x21], path[-1][:-1] or [0x71, 0x71], [0x6E, 0x6F], [b ^ 0x20 if 65 <= b & 0xDF <= 90 else b for b in path[-1]]])
            elif x < 0.2:
                path.append([0x6E, 0x6F])
            if x > 0.95:
                ops.append({"op": "byid", "ino": rng.choice([0, v.inodes + 1, v.inodes + v.ipg])})
            elif x > 0.8:
                ops.append({"op": "byid", "ino": p[2]})
            else:
                ops.append({"op": rng.choice(["find", "find", "list"]) if p[1] == "dir" else rng.choice(["find"] * 6 + ["list", "file"]) if p[1] != "file" else "find",
                            "layer": 3, "path": path})
        layer = 0
        for p in rng.sample(files, min(len(files), rng.choice([1, 3, 6]))):
            ops.append({"op": "file", "path": p[0], "layer": layer})
            edges = [0, v.bs] + t.__dict__.get("marks", {}).get(p[2], []) + [x - 4 for x in (1 << 32, 1 << 31)]
            ops += [dict(o, layer=layer) for o in history(rng, p[3], rng.randrange(2, 8), near(rng, edges, p[3]), maxread=700)]
            layer = (layer + 1) % 3
        writers.append(lambda d, v=v: v.write(os.path.join(d, "a.raw")))
        cases.append({"t": "ext", "file": "a.raw", "volume": v.model(), "ops": ops})
    record_images(c, drv, cases, writers, "Trace_Ext", lambda t, e: "ext %s" % e["op"], batch=40)
    c.assumptions = ["volumes and files of less than 1 TiB", "features the code names unsupported are not used"]
    return c.finish()
