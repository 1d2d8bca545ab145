"""C28: the command line tools: hashes, bodyfiles, hierarchies and exports of what is in a source."""
import os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from kv import Check
from images import new_dir, drop
from streams import big
from stack import World, crc, HASHES
from tracing import record

IMAGES = ("Ewf", "SparseImage", "Udif")


def scannable(e):
    seen = e["scan"]["img"] or e["scan"]["vol"] or e["scan"]["fs"]
    return not seen or seen in e["views"]


def ops_of(rng, w, n):
    es = [e for e in w.fss[0]["entries"][1:] if scannable(e)]
    deep = [e for e in es if e["views"]]
    ops = []
    for e in es:
        for op in ("bodyfile", "hash"):
            ops.append({"op": op, "e": e})
    for _ in range(n):
        e = rng.choice(deep or es)
        op = rng.choice(["hash", "bodyfile", "hierarchy", "hierarchy", "export", "export", "export", "image", "stdin"])
        if op == "image" and e["scan"]["img"] not in IMAGES:
            op = "hash"
        ops.append({"op": op, "e": e})
    for o in ops:
        e = o.pop("e")
        o["source"] = e["path"]
        o["by"] = rng.choice(["index", "identifier"])
        o["algo"] = rng.choice(HASHES)
        o["md5"] = rng.random() < 0.6
        if o["op"] == "export":
            fss = [f for f in w.fss[1:] if f["type"] in ("Ext", "Fat", "Ntfs")]
            x = rng.choice(rng.choice(fss)["entries"]) if fss else e
            path = x["path"] if x["kind"] != "own" else [""]
            o["name"] = ""
            if x["streams"] and rng.random() < 0.6:
                o["name"] = rng.choice(x["streams"])[0]
            if rng.random() < 0.1:
                path = path + ["no such file"]
            if any("/" in p or any(0xDC80 <= ord(c) < 0xDD00 for c in p) for p in path):
                path = ["", "none"]
            o["path"] = path
    return ops


def second(text):
    """A time without needless zeros."""
    m = re.fullmatch(r"(-?)(\d+)(?:\.(\d+))?", text)
    if not m:
        return text
    s = m[2] + ("." + m[3].rstrip("0") if m[3] and m[3].strip("0") else "")
    return ("-" if m[1] and s != "0" else "") + s


def lines_of(out):
    try:
        text = out.decode("utf-8")
    except UnicodeDecodeError:
        return None
    if text and not text.endswith("\n"):
        return None
    return text.split("\n")[:-1]


def run(bins, d, o, scratch):
    """What a tool says about a source, as an observation."""
    src = os.path.join(d, o["source"][1])
    by = ["--volume-path-type", o["by"]] if o["by"] != "index" else []
    if o["op"] == "hash":
        cmd = ["keramicshash", "-d", o["algo"]] + by + [src]
    elif o["op"] == "stdin":
        cmd = ["keramicshash", "-d", o["algo"]]
    elif o["op"] == "bodyfile":
        cmd = ["keramicsimage", src, "bodyfile"] + (["--calculate-md5"] if o["md5"] else []) + by
    elif o["op"] == "hierarchy":
        cmd = ["keramicsimage", src, "hierarchy"]
    elif o["op"] == "image":
        cmd = ["keramicsimage", src, "hash"]
    else:
        os.makedirs(scratch)
        cmd = ["keramicsexport", "-t", scratch, src, "path", "/".join(o["path"]) or "/"] + (["--name", o["name"]] if o["name"] else [])
    try:
        with open(src if o["op"] == "stdin" else "/dev/null", "rb") as i:
            p = subprocess.run([os.path.join(bins, cmd[0])] + cmd[1:], stdin=i, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=d)
    except subprocess.TimeoutExpired:
        return {"k": "hang"}
    lines = lines_of(p.stdout)
    if p.returncode < 0 or p.returncode == 101:
        return {"k": "panic", "text": p.stderr.decode("utf-8", "replace")[-300:]}
    if p.returncode != 0:
        return {"k": "failed", "text": p.stdout.decode("utf-8", "replace")[-300:]}
    if lines is None:
        return {"k": "garbled"}
    ords = lambda s: [ord(c) for c in s]
    if o["op"] in ("hash", "stdin"):
        if len(lines) == 1 and "  " in lines[0] and lines[0].split("  ", 1)[1] == ("-" if o["op"] == "stdin" else src):
            return {"k": "one", "sum": lines[0].split("  ", 1)[0]}
        if any("\t" not in l for l in lines):
            return {"k": "garbled", "text": str(lines)[:500]}
        return {"k": "lines", "lines": [dict(zip(("sum", "path"), (a, ords(b)))) for a, b in (l.split("\t", 1) for l in lines)]}
    if o["op"] == "bodyfile":
        if lines[:1] != ["# extended bodyfile 3 format"]:
            return {"k": "garbled", "text": str(lines)[:500]}
        res = []
        for l in lines[1:]:
            f = l.split("|")
            if len(f) < 11:
                return {"k": "garbled", "text": l}
            res.append({"sum": f[0], "path": ords("|".join(f[1:-9])), "id": f[-9], "mode": f[-8], "uid": f[-7], "gid": f[-6], "size": f[-5],
                        "times": [second(x) for x in f[-4:]]})
        return {"k": "lines", "lines": res}
    if o["op"] == "hierarchy":
        tree = []
        for l in lines:
            m = re.fullmatch(r"((?:    )*)([A-Z]+): path: (.*?)(?: \(alias: (.*)\))?", l)
            if not m:
                return {"k": "garbled", "text": l}
            path = m[3][len(d):] if m[3].startswith(d + "/") else m[3]
            tree.append({"depth": len(m[1]) // 4, "type": m[2], "path": path, "alias": m[4] or ""})
        return {"k": "tree", "tree": tree}
    if o["op"] == "image":
        m = [l for l in lines if l.startswith("Calculated MD5 hash\t: ")]
        return {"k": "one", "sum": m[0].split(": ", 1)[1]} if len(m) == 1 else {"k": "garbled", "text": str(lines)[:500]}
    f = os.path.join(scratch, "keramics.bin")
    if lines == ["No data streams exported"] and not os.path.exists(f):
        return {"k": "nothing"}
    if lines or not os.path.exists(f) or os.listdir(scratch) != ["keramics.bin"]:
        return {"k": "garbled", "text": str(lines)[:500]}
    with open(f, "rb") as i:
        b = i.read()
    return {"k": "ok", "size": big(len(b)), "crc": big(crc(b))}


def tidy(case, e):
    o = e["out"]
    if isinstance(o, dict) and "text" in o:
        e["text of it"] = o.pop("text")


def main():
    c = Check("C28")
    rng = c.rng
    bins = c.build_tools()
    c.tlc("MC_Tools", "MC_Tools_deep.cfg" if c.tier == "thorough" else None)
    cases, res, batch = [], [], []

    def flush():
        jobs = []
        for i, (w, case) in enumerate(batch):
            d = case["dir"] = new_dir(c, i)
            w.write(d)
            jobs += [(d, o, os.path.join(c.dir, "img", "out-%d-%d" % (i, k))) for k, o in enumerate(case["ops"])]
        with ThreadPoolExecutor(8) as pool:
            outs = list(pool.map(lambda j: run(bins, *j), jobs))
        drop(c)
        for _, case in batch:
            res.append({"out": [outs.pop(0) for _ in case["ops"]]})
            cases.append(case)
        batch.clear()
    n = c.scale(240, 1500)
    while len(cases) + len(batch) < n:
        try:
            w = World(random.Random(rng.getrandbits(64)), tools=True)
        except (MemoryError, AssertionError):
            continue
        if sum(len(b) for _, b in w.files) > 12 << 20 or not any(map(scannable, w.fss[0]["entries"][1:])):
            continue
        batch.append((w, {"t": "tools", "world": {"fss": w.fss}, "ops": ops_of(rng, w, rng.choice([4, 8]))}))
        if len(batch) == 20:
            flush()
    flush()
    record(c, None, cases, "Trace_Tools", lambda t, e: "tools %s" % e["op"], fix=tidy, per_event=True, results=res)
    return c.finish()
