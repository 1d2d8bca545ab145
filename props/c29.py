"""C29: paths.  Walks over paths of every kind, directly and through the virtual file system."""
from kv import Check
from tracing import record

KINDS = ["ext", "fat", "ntfs"]
STRINGS = ["apm", "ewf", "gpt", "mbr", "qcow", "sparseimage", "udif", "vhd", "vhdx"]
BMP = [0x61, 0x62, 0x41, 0x2e, 0x2e, 0x20, 0x2f, 0x5c, 0x7f, 0xe9, 0x100, 0x3b1, 0x20ac, 0x3042, 0xd7ff, 0xe000, 0xfffd]
WIDE = BMP + [0x1f600, 0x10ffff]
DOTTED = ["a", "a.b", ".a", ".a.b", "a.", "a..b", "..a", "a.b.c", ".a.", "...", "..a.b", "a. .b", "archive.tar.gz", "image.E01", ".E01"]


def main():
    c = Check("C29")
    drv = c.build("fmt")
    c.tlc("MC_Paths", "MC_Paths_deep.cfg" if c.thorough else None)
    cases = [one(c.rng) for _ in range(c.scale(900, 12000))]
    record(c, drv, cases, "Trace_Paths", lambda t, e: "%s %s %s" % (t["kind"], "vfs" if t["vfs"] else "own", e["op"]), fix=fix)
    return c.finish()


def fix(case, e):
    if isinstance(e["out"], str):
        e["panic"], e["out"] = e["out"], {"crash": True}


def one(rng):
    kind = rng.choice(KINDS + KINDS + ["string", "os"])
    vfs = kind not in KINDS or rng.random() < 0.5
    sep = 92 if kind == "ntfs" else 47

    def name():
        while True:
            if rng.random() < 0.5:
                n = [ord(x) for x in rng.choice(DOTTED)]
                if rng.random() < 0.3:
                    n.insert(rng.randrange(len(n) + 1), rng.choice(BMP))
            else:
                alphabet = BMP if kind in ("fat", "ntfs") else WIDE
                n = [rng.choice(alphabet) for _ in range(rng.choice([1, 2, 3, 5, 9, 40]))]
            n = [x for x in n if x != sep]
            if n and n not in ([46], [46, 46]):
                return n

    def names(lo):
        return [name() for _ in range(rng.choice([lo, 1, 1, 2, 4]))]

    ops = []
    for _ in range(rng.randrange(2, 9)):
        x = rng.choice(["parse", "comps", "join", "join", "join", "push", "push", "parent", "parent", "look"])
        e = {"op": x}
        if x == "parse":
            ns = names(0)
            e["text"] = [sep] if not ns else [v for n in ns for v in [sep] + n]
            if kind in KINDS and rng.random() < 0.08:
                # the path that says nothing: only looked at
                ops.append({"op": "parse", "text": [], "how": rng.randrange(2)})
                if rng.random() < 0.3:
                    ops.append({"op": "parent"})
            e["how"] = rng.randrange(2)
        elif x == "comps":
            if kind == "os":
                continue
            e["names"] = [[]] + names(0)
            e["how"] = rng.randrange(12)
        elif x == "join":
            e["names"] = names(0)
            e["form"] = rng.choice(["text", "text", "bytes", "units"])
        elif x == "push":
            if vfs:
                continue
            e["name"] = name()
            e["form"] = rng.choice(["text", "bytes", "units"])
        ops.append(e)
    if not ops:
        ops.append({"op": "look"})
    types = {"string": STRINGS}.get(kind, [kind])
    return {"t": "path", "kind": kind, "vfs": vfs, "type": rng.choice(types), "ops": ops}
