"""C26: the virtual file system: locations, a resolver that keeps what it opened, walks and scans."""
import os, random
from kv import Check
from images import record_images
from stack import World

SURE = ["Apm", "Ext", "Gpt", "Ntfs", "Qcow", "SparseImage", "Udif", "Vhdx", "Os"]
SEP = {"Ntfs": "\\"}


def reached(w):
    """Every file system and the layers below it."""
    out, todo = [], [(1, [])]
    while todo:
        f, below = todo.pop(0)
        out.append((f, below))
        for e in w.fss[f - 1]["entries"]:
            for t, g in sorted(e["views"].items()):
                todo.append((g, below + [[w.fss[f - 1]["type"], e["path"]]]))
    return out


def spoilt(rng, t, path):
    """A path that is not there."""
    p = list(path)
    if rng.random() < 0.5 and len(p) > 1:
        p[-1] = rng.choice(["no such name", p[-1] + "x", "q" + p[-1]])
    else:
        p.append(rng.choice(["no", "file"]))
    return p


def scannable(e):
    """Not a segment of an image that does not begin it, nor what seems to be something else."""
    seen = e["scan"]["img"] or e["scan"]["vol"] or e["scan"]["fs"]
    return not seen or seen in e["views"]


def ops_of(rng, w, n):
    places = reached(w)
    ops, slots, kept = [], {k: 0 for k in range(4)}, set()

    def pick(deep=0.8):
        some = [p for p in places if p[1]]
        return rng.choice(some if some and rng.random() < deep else places)

    def location(f, below, bad=0.12):
        t = w.fss[f - 1]["type"]
        e = rng.choice(w.fss[f - 1]["entries"])
        # the ones that lead on, or have more than one stream, are the interesting ones
        rich = [x for x in w.fss[f - 1]["entries"] if x["views"] or x["streams"]]
        if rich and rng.random() < 0.3:
            e = rng.choice(rich)
        path = e["path"]
        if t == "Os":
            path = ["", "no such file"] if rng.random() < bad else path
        elif rng.random() < bad and not (t in ("Ext", "Fat", "Ntfs") and e["kind"] == "own"):
            path = spoilt(rng, t, path)
        return below + [[t, path]], e

    def add(op, **kw):
        kw["op"] = op
        kw["form"] = rng.choice(["parts", "text"])
        ops.append(kw)
    for _ in range(n):
        x = rng.random()
        if x < 0.3:
            f, below = pick()
            s = rng.randrange(4)
            y = rng.random()
            if y < 0.15:
                # as something it is not, or over something that is not there
                g, under = pick()
                loc, e = location(g, under, 0.2)
                t = rng.choice([t for t in SURE if t not in e["views"] and t != e["scan"]["img"] and t != e["scan"]["fs"] and t != e["scan"]["vol"]])
                path = rng.choice([[""], ["", "x1"]])
                add("open", slot=s, loc=loc + [[t, path]])
                ops[-1]["form"] = "parts"
            elif y < 0.2:
                t = rng.choice([t for t in SURE if t != "Os"])
                add("open", slot=s, loc=[[t, ["", "x1"]]])
            else:
                loc, e = location(f, below)
                add("open", slot=s, loc=loc)
                slots[s] = f
        elif x < 0.36:
            s = rng.randrange(4)
            slots[s] = 0
            add("drop", slot=s)
        elif x < 0.6 and any(slots.values()):
            s = rng.choice([k for k in slots if slots[k]])
            f = slots[s]
            t = w.fss[f - 1]["type"]
            op = rng.choice(["in", "exists", "names", "names", "walk"])
            if op == "walk" or op == "names":
                if f == 1:
                    op = "exists"
            if op == "walk":
                add("walk", slot=s)
                continue
            loc, e = location(f, [], 0.2 if op != "names" else 0.1)
            if op == "names":
                dirs = [x for x in w.fss[f - 1]["entries"] if x["kind"] == "dir"]
                if rng.random() < 0.8:
                    loc = [[t, rng.choice(dirs)["path"]]]
            add(op, slot=s, type=t, path=loc[0][1], os=t == "Os")
            if op == "names" and loc[0][1] == [""] and rng.random() < 0.5:
                ops[-1]["form"] = "root"
        elif x < 0.72:
            f, below = pick()
            loc, e = location(f, below)
            add("entry", loc=loc, os=loc[-1][0] == "Os")
        elif x < 0.9:
            f, below = pick()
            loc, e = location(f, below)
            if e["kind"] == "own":
                continue
            name = ""
            if e["streams"] and rng.random() < 0.7:
                name = rng.choice(e["streams"])[0]
            elif rng.random() < 0.1 and w.fss[f - 1]["type"] == "Ntfs":
                name = "no"
            s = rng.randrange(4)
            kept.add(s)
            add("stream", slot=s, loc=loc, name=name)
        elif x < 0.94 and kept:
            add("again", slot=rng.choice(sorted(kept)))
        elif x < 0.97 and any(map(scannable, w.fss[0]["entries"][1:])):
            es = [e for e in w.fss[0]["entries"][1:] if scannable(e)]
            e = rng.choice(es)
            add("scan", loc=[["Os", e["path"]]], text=[["Os", "/" + e["name"]]])
        else:
            f, below = pick()
            loc, e = location(f, below)
            t, p = loc[-1]
            if t == "Os":
                continue
            if rng.random() < 0.4:
                add("text", loc=loc)
                continue
            k = rng.randrange(len(p) + 1)
            add("path", type=t, path=p[:max(1, k)], join=p[max(1, k):])
    return ops


def tidy(case, e):
    """What the model never allows is marked; the text of an error is set aside."""
    o = e["out"]
    if not (isinstance(o, dict) and o.get("k") in ("ok", "err", "none")):
        e["panic"] = o
        e["out"] = {"k": "panic"}
    elif o["k"] == "err":
        e["text of it"] = o.pop("text")


def main():
    c = Check("C26")
    rng = c.rng
    drv = c.build("fmt")
    c.tlc("MC_Vfs", "MC_Vfs_deep.cfg" if c.tier == "thorough" else None)
    cases, writers = [], []
    while len(cases) < c.scale(300, 2000):
        try:
            w = World(random.Random(rng.getrandbits(64)))
        except (MemoryError, AssertionError):
            continue
        if sum(len(b) for _, b in w.files) > 12 << 20:
            continue
        ops = ops_of(rng, w, rng.choice([10, 20, 40]))
        if len(cases) % 2:
            for e in filter(scannable, w.fss[0]["entries"][1:]):
                ops.insert(rng.randrange(len(ops) + 1), {"op": "scan", "form": "parts", "loc": [["Os", e["path"]]], "text": [["Os", "/" + e["name"]]]})
        writers.append(w.write)
        cases.append({"t": "vfs", "world": {"fss": w.fss}, "ops": ops})
    record_images(c, drv, cases, writers, "Trace_Vfs", lambda t, e: "vfs %s" % e["op"], batch=20, timeout=120, fix=tidy)
    c.assumptions = []
    return c.finish()
