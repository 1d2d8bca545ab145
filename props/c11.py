"""C11: block trees and block caches."""
import json
from kv import Check
from streams import big
from tracing import record


def fix(case, e):
    if not isinstance(e["out"], list):
        e["panic"] = e["out"]
        e["out"] = [-9]


def printed(out, word):
    for line in out.splitlines():
        if line.startswith('"%s ' % word):
            yield json.loads(json.loads(line.strip())[len(word) + 1:])


def main():
    c = Check("C11")
    rng = c.rng
    drv = c.build("fmt")
    out, _, _ = c.tlc("MC_Maps", cfg=c.scale("MC_Maps.cfg", "MC_MapsT.cfg"))
    trees = list(printed(out, "TREE"))
    caches = list(printed(out, "CACHE"))
    assert len(trees) > 1000 and len(caches) > 1000
    trees.sort(), caches.sort()
    cases = []

    def tree(size, leaf, epn, ins, gets):
        ops = []
        for k, (o, n) in enumerate(ins):
            ops.append({"op": "insert", "off": big(o), "len": big(n), "val": k + 1})
            for g in gets if k == len(ins) - 1 else rng.sample(gets, min(3, len(gets))):
                ops.append({"op": "get", "off": big(g), "len": big(0), "val": 0})
        cases.append({"t": "tree", "kind": "tree", "size": big(size), "leaf": leaf, "epn": epn, "keys": 0, "cap": 0, "ops": ops})

    # every history of the specification
    for h in (trees if not c.thorough else rng.sample(trees, 60000)):
        tree(8, 2, 2, h, list(range(9)))
    # larger trees, up to sizes beyond 32 bits
    for k in range(c.scale(2500, 25000)):
        leaf = rng.choice([1, 2, 3, 16, 512, 512, 4096, 32768, 1 << 20])
        epn = rng.choice([1, 2, 3, 4, 7, 8, 16, 256, 512])
        depth = rng.randrange(0, 5)
        units = epn ** depth * rng.randrange(1, epn + 1) if epn > 1 else rng.randrange(1, 40)
        units = max(1, units + rng.choice([0, 0, 1, -1, rng.randrange(3)]))
        units = min(units, 1 << 22)
        size = units * leaf + rng.choice([0, 0, 0, leaf // 2, 1])
        if leaf == 3 and size > 1 << 24:
            size = 1 << 24
        ins, gets = [], []
        for _ in range(rng.randrange(1, 9)):
            span = rng.choice([1, 1, 2, epn, epn * epn, epn + 1, units, rng.randrange(1, 2 * epn + 2), rng.randrange(1, units + 1)])
            span = min(span, 1 << 16)
            at = rng.choice([0, epn, epn * epn, units - span, rng.randrange(0, units + 1), rng.randrange(0, units + 1) // epn * epn])
            if ins and rng.random() < 0.6:
                o, n = rng.choice(ins)
                at = rng.choice([(o + n) // leaf, o // leaf - span, o // leaf, o // leaf + rng.randrange(0, n // leaf + 1)])
            at = max(0, at)
            o, n = at * leaf, span * leaf
            r = rng.random()
            if r < 0.06:
                o += rng.randrange(1, leaf + 1)
            elif r < 0.12:
                n += rng.randrange(1, leaf + 1)
            elif r < 0.15:
                n = 0
            elif r < 0.17:
                o, n = rng.choice([((1 << 64) - leaf, leaf), ((1 << 64) - leaf, 2 * leaf), (size, leaf), (size - size % leaf, leaf)])
                if leaf == 3:
                    continue
            if o >= 1 << 64 or n >= 1 << 64 or o < 0:
                continue
            ins.append((o, n))
            gets += [o, o + n - 1 if n else o, o + n, max(0, o - 1), o + n // 2, o + epn * leaf]
        if not ins:
            continue
        gets += [0, size - 1, size, size + leaf, rng.randrange(0, size)]
        gets = [g for g in sorted(set(gets)) if g < 1 << 63]
        tree(size, leaf, epn, ins, gets if len(gets) < 24 else rng.sample(gets, 24))

    def cache(cap, keys, ops):
        cases.append({"t": "cache", "kind": "cache", "size": big(0), "leaf": 1, "epn": 1, "keys": keys, "cap": cap, "ops": ops})

    for h in caches:
        ops = []
        for k, (a, key) in enumerate(h):
            ops.append({"op": "insert" if a == "i" else "set", "key": key, "val": k + 1})
            if k == len(h) - 1 or rng.random() < 0.3:
                ops.append({"op": "keys", "key": 0, "val": 0})
        ops += [{"op": "get", "key": key, "val": 0} for key in range(3)]
        cache(2, 3, ops)
    for k in range(c.scale(1500, 12000)):
        cap = rng.choice([0, 1, 2, 3, 5, 16, 64])
        keys = rng.choice([1, 2, cap, cap + 1, cap + 3, 2 * cap + 2]) or 1
        ops = []
        for i in range(rng.randrange(1, 4 * cap + 12)):
            r = rng.random()
            key = rng.randrange(keys)
            if r < 0.55:
                ops.append({"op": "insert", "key": key, "val": i + 1})
            elif r < 0.75:
                ops.append({"op": "get", "key": key, "val": 0})
            elif r < 0.85:
                ops.append({"op": "set", "key": key, "val": i + 1})
            else:
                ops.append({"op": "keys", "key": 0, "val": 0})
        ops.append({"op": "keys", "key": 0, "val": 0})
        cache(cap, keys, ops)
    record(c, drv, cases, "Trace_Maps", lambda t, e: "%s %s" % (t["kind"], e["op"]), fix=fix)
    c.assumptions = ["look-ups are made within the range of the tree or up to 2^63", "the cache may evict the key used or the key inserted longest ago"]
    return c.finish()
