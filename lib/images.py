"""Files of storage media images whose sectors tell where they are (Disk.tla)."""
import atexit, os, shutil
from streams import big, history
from tracing import record

_PAGE = [(f + 101 * (f // 256)) % 256 for f in range(512)]
_SECTORS = [bytes((x + k) % 256 for x in _PAGE) for k in range(256)]


def sector(fid, s):
    return _SECTORS[(57 * fid + 13 * (s % 251) + 7 * ((s // 251) % 241)) % 256]


def pattern(fid, s, n):
    """n sectors of the file from sector s."""
    return b"".join(sector(fid, s + k) for k in range(n))


class Image:
    """A sparse file."""

    def __init__(self, path):
        self.f = open(path, "wb")
        self.end = 0

    def put(self, offset, data):
        self.f.seek(offset)
        self.f.write(data)
        self.end = max(self.end, offset + len(data))

    def close(self, size=None):
        if size is not None:
            self.f.truncate(size)
        self.f.close()


def new_dir(c, i):
    d = os.path.join(c.dir, "img", str(i))
    if i == 0:
        atexit.register(drop, c)
    os.makedirs(d)
    return d


def drop(c):
    shutil.rmtree(os.path.join(c.dir, "img"), ignore_errors=True)


def fix(case, e):
    """Uniform observations; what the model never allows is marked."""
    o = e["out"]
    if isinstance(o, dict) and o.get("k") == "none":
        return
    if not (isinstance(o, dict) and o.get("k") in ("ok", "err")):
        e["panic"] = o
        e["out"] = {"k": "panic"}
        return
    if "text" in o:
        e["text"] = o.pop("text")
    if o["k"] == "ok" and not {"meta", "found", "entry"} & set(o):
        o.setdefault("pos", [0, 0, 0])


def record_images(c, drv, cases, writers, module, name, batch=120, fix=fix, **kw):
    """Like record, with the files of a case written just before it runs and removed after."""
    res = []
    for base in range(0, len(cases), batch):
        part = cases[base:base + batch]
        for i, (case, w) in enumerate(zip(part, writers[base:base + batch])):
            case["dir"] = new_dir(c, i)
            w(case["dir"])
        res += c.drive(drv, part, timeout=kw.get("timeout", 20))
        drop(c)
    record(c, drv, cases, module, name, fix=fix, results=res, **kw)


def image_ops(rng, sizes, n, marks, maxread=700):
    """Opens the image, then operations on the top layer and, by absolute positions, on others."""
    top = len(sizes) - 1
    ops = [{"op": "open"}]
    for o in history(rng, sizes[top], n, marks, maxread=maxread):
        o = dict(o)
        o["layer"] = top
        ops.append(o)
        if top and rng.random() < 0.15:
            k = rng.randrange(top)
            ops.append({"op": "size", "layer": k} if rng.random() < 0.3 else
                       {"op": "read_at", "from": "start", "layer": k, "n": rng.randrange(1, 600),
                        "off": big(max(0, rng.choice(marks) - rng.randrange(0, 30)))})
    # only histories that can be expressed: 64-bit positions
    return [o for o in ops if "from" not in o or -(1 << 62) < (o["off"][0] << 48) < 1 << 62]


def bulk(rng, size, edges):
    """Reads of more than 64 KiB, from just before what is of interest."""
    return [{"op": rng.choice(["read_at", "exact_at"]), "from": "start", "layer": 0, "n": 65536 + rng.randrange(1, 5000),
             "off": big(max(0, rng.choice(edges) - rng.choice([0, 1, 100, 30000, 65536])))} for _ in range(2)]


def near(rng, edges, size):
    """Marks: byte offsets of interest within or near a disk of that size."""
    m = [e for e in edges if 0 <= e <= size + 600]
    return (rng.sample(m, 14) if len(m) > 14 else m) + [0, size, size // 2, max(0, size - 1)] + ([size - (1 << 32)] * 2 if size > 1 << 32 else [])
