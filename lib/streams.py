"""Histories of stream operations."""
M = 1 << 24


def big(n):
    return [n >> 48, (n >> 24) % M, n % M]


def fix(case, e):
    """A panic, crash or hang is an observation the model never allows."""
    o = e["out"]
    if not (isinstance(o, dict) and o.get("k") in ("ok", "err")):
        e["panic"] = o
        e["out"] = {"k": "panic"}
    else:
        if "text" in o:
            e["text"] = o.pop("text")
        if o["k"] == "ok":
            o.setdefault("pos", [0, 0, 0])


def history(rng, size, n, marks, maxread=600, tell=0.15):
    """n operations around the marks (interesting offsets)."""
    ops = [{"op": "size"}] if rng.random() < 0.3 else []
    pos = 0  # approximately

    def off():
        m = rng.choice(marks) if rng.random() < 0.7 else rng.randrange(0, size + 1) if size else 0
        return max(0, m + rng.choice([0, 0, -1, 1, -rng.randrange(1, 20), rng.randrange(1, 20)]))

    def length():
        r = rng.random()
        if r < 0.1:
            return 0
        if r < 0.3:
            return rng.randrange(1, 4)
        if r < 0.8:
            return rng.randrange(1, min(64, maxread) + 1)
        return rng.randrange(1, maxread + 1)

    def where():
        t = off()
        r = rng.random()
        if r < 0.5:
            return {"from": "start", "off": big(t)}
        if r < 0.75:
            return {"from": "end", "off": big(t - size)}
        return {"from": "current", "off": big(t - pos)}

    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            ops.append({"op": "read", "n": length()})
        elif r < 0.45:
            ops.append({"op": "exact", "n": length()})
            ops.append({"op": "tell"})
        elif r < 0.65:
            ops.append(dict(op="seek", n=0, **where()))
        elif r < 0.85:
            ops.append(dict(op="read_at", n=length(), **where()))
        else:
            ops.append(dict(op="exact_at", n=length(), **where()))
            ops.append({"op": "tell"})
        if rng.random() < tell:
            ops.append({"op": "tell"})
        last = ops[-1] if "from" in ops[-1] else ops[-2] if len(ops) > 1 else {}
        if last.get("from") == "start":
            pos = (last["off"][0] << 48) + last["off"][1] * M + last["off"][2]
    return ops
