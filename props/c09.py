"""C09: signature scanning."""
from kv import Check
from tracing import record


def main():
    c = Check("C09")
    rng = c.rng
    drv = c.build("core")
    c.tlc("MC_Scan", timeout=400)
    cases = []
    for k in range(c.scale(2500, 20000)):
        cases.append(case(rng, k))
    cases += [far_case(rng) for _ in range(c.scale(300, 3000))]
    cases += [formats_case(rng) for _ in range(c.scale(150, 1500))]
    record(c, drv, cases, "Trace_Scan", key, fix=fix)
    return c.finish()


def pieces(rng, data, base=0, maxp=None):
    """The data in parts, of one byte, of everything, or at random places."""
    n = len(data)
    r = rng.random()
    if n <= 1 or r < 0.3:
        cuts = []
    elif r < 0.4 and n < 60:
        cuts = list(range(1, n))
    else:
        cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.randrange(1, 5))))
    ops, last = [], 0
    for x in cuts + [n]:
        if x > last or not n:
            ops.append({"op": "buf", "off": base + last, "data": data[last:x]})
        last = x
    return ops


def case(rng, k):
    alpha = rng.choice([[1, 2], [1, 2, 3], [0, 255, 65], list(range(256)), [97, 98, 99, 100]])

    def pat(n):
        return [rng.choice(alpha) for _ in range(n)]
    n = rng.choice([1, 2, 5, 12, 12, 20, 40, 64, 100] if k % 40 else [300, 700])
    data = pat(n)
    sigs = []
    kinds = rng.choice([["start"], ["end"], ["unbound"], ["start", "end"], ["start", "end", "unbound"]])
    for i in range(rng.choice([1, 1, 2, 3, 4, 6, 9])):
        t = rng.choice(kinds)
        m = rng.choice([1, 2, 2, 3, 4, 8, 16] if k % 40 else [2, 17, 40, 256, 290])
        p = pat(m)
        r = rng.random()
        off = 0 if t == "unbound" else rng.choice([0, 0, 1, 2, rng.randrange(n + 1), rng.randrange(n + 1), n, n + 3])
        if sigs and r < 0.35:
            # related to an earlier one: the same, a prefix, a longer one, or one that shares most
            q = list(rng.choice(sigs)["pat"])
            p = rng.choice([q, q[:max(1, len(q) - 1)], q + pat(1), q[:-1] + pat(1), pat(1) + q])
            if t != "unbound" and rng.random() < 0.6:
                off = rng.choice([s["off"] for s in sigs])
        m = len(p)
        # mostly put it into the data where it belongs
        if rng.random() < 0.65 and m <= n:
            at = rng.randrange(n - m + 1) if t == "unbound" else off if t == "start" else n - off
            if 0 <= at and at + m <= n:
                data[at:at + m] = p
        sigs.append({"id": "s%d" % i, "type": t, "off": off, "pat": p})
    size = n
    unbound = any(s["type"] == "unbound" for s in sigs)
    ops = []
    r = rng.random()
    if not unbound and r < 0.25:
        # a header and a footer part, as the format scanner reads them
        h = rng.randrange(1, n + 1)
        f = rng.randrange(0, n)
        ops = [{"op": "buf", "off": 0, "data": data[:h], "seek": True}, {"op": "buf", "off": f, "data": data[f:], "seek": True}]
    elif not unbound and r < 0.4:
        # data that is not, or not all, of the declared size
        size = max(0, n + rng.choice([-1, 1, -5, 7, -n // 2]))
        ops = pieces(rng, data)
    else:
        ops = pieces(rng, data)
    ops.append({"op": "result"})
    return {"t": "scan", "sigs": sigs, "size": size, "ops": ops}


def far_case(rng):
    """The head and the tail of a lot of data, or only its tail."""
    alpha = rng.choice([[1, 2], [0, 255, 65], list(range(256))])

    def pat(n):
        return [rng.choice(alpha) for _ in range(n)]
    n = rng.choice([30, 60, 100])
    whole = rng.random() < 0.4
    head = 0 if whole else rng.randrange(1, n // 2)
    cut = 0 if whole else rng.randrange(head + 1, n)
    data = pat(n)
    sigs = []
    for i in range(rng.choice([1, 2, 3, 5])):
        t = rng.choice(["start", "end"] + (["unbound"] if whole else []))
        p = pat(rng.choice([1, 2, 3, 6]))
        off = {"start": rng.randrange(n + 1), "end": rng.randrange(n - cut + 1), "unbound": 0}[t]
        if rng.random() < 0.8:
            at = {"start": off, "end": n - off, "unbound": rng.randrange(n - 10)}[t]
            if at + len(p) <= n:
                data[at:at + len(p)] = p
        sigs.append({"id": "s%d" % i, "type": t, "off": off, "pat": p})
    tail = pieces(rng, data[cut:], cut)
    tail[0]["seek"] = True
    ops = ([{"op": "buf", "off": 0, "data": data[:head], "seek": True}] if head else []) + tail
    shift = rng.choice([1 << 16, (1 << 31) - 20, 1 << 31, (1 << 32) - 20, 1 << 32, (1 << 32) + (1 << 16), 1 << 40])
    return {"t": "scan", "sigs": sigs, "size": n, "cut": cut, "shift": str(shift), "ops": ops + [{"op": "result"}]}


FORMATS = [("start", 560, b"Apple_partition_map".ljust(32, b"\0")), ("start", 1080, b"\x53\xef"), ("start", 0, b"EVF\t\r\n\xff\0"),
           ("start", 54, b"FAT12   "), ("start", 54, b"FAT16   "), ("start", 82, b"FAT32   "), ("start", 512, b"EFI PART"),
           ("start", 1024, b"EFI PART"), ("start", 2048, b"EFI PART"), ("start", 510, b"\x55\xaa"), ("start", 1022, b"\x55\xaa"),
           ("start", 2046, b"\x55\xaa"), ("start", 3, b"NTFS    "), ("start", 0, b"QFI\xfb\0\0\0\1"), ("start", 0, b"QFI\xfb\0\0\0\2"),
           ("end", 512, b"koly"), ("end", 512, b"conectix"), ("start", 0, b"vhdxfile"), ("start", 0, b"sprs")]


def formats_case(rng):
    """Signatures as those of real formats, some of them present in the data."""
    use = rng.sample(FORMATS, rng.randrange(1, len(FORMATS) + 1))
    n = rng.choice([300, 512, 600, 1024, 1500, 2100])
    data = [0] * n
    for t, o, p in rng.sample(FORMATS, rng.randrange(0, 4)):
        at = o if t == "start" else n - o
        if at >= 0 and at + len(p) <= n:
            data[at:at + len(p)] = list(p)
    sigs = [{"id": "s%d" % i, "type": t, "off": o, "pat": list(p)} for i, (t, o, p) in enumerate(use)]
    return {"t": "scan", "sigs": sigs, "size": n, "ops": pieces(rng, data) + [{"op": "result"}]}


def fix(case, e):
    if not isinstance(e["out"], list):
        e["panic"] = e["out"]
        e["out"] = [[-1, "?"]]


def key(t, e):
    return "%s %s" % (e["op"], "+".join(sorted({s["type"] for s in t["sigs"]})))
