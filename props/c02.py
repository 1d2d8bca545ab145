"""C02: message digests."""
from kv import Check
from c03 import long_case, message
from tracing import record

KINDS = ["md5", "sha1", "sha224", "sha256", "sha512"]


def split(rng, msg, bs):
    out, i = [], 0
    style = rng.randrange(4)
    while i < len(msg):
        k = {0: rng.choice([0, 1, 2, 3, bs // 2, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1]),
             1: len(msg), 2: rng.randrange(1, len(msg) + 1), 3: rng.choice([bs, 1, bs - 9, bs - 8, bs - 17])}[style]
        out.append(msg[i:i + k])
        i += k
    if rng.random() < 0.2:
        out.insert(rng.randrange(len(out) + 1), [])
    return out


def main():
    c = Check("C02")
    rng = c.rng
    drv = c.build("core")
    c.tlc("MC_Hash")
    cases = []

    def add(kind, lens, whole=False):
        ops = []
        bs = 128 if kind == "sha512" else 64
        for n in lens:
            m = message(rng, n)
            for k in ([m] if whole else split(rng, m, bs)):
                ops.append({"op": "update", "data": k})
            ops.append({"op": "finalize"})
        cases.append({"t": "hash", "kind": kind, "ops": ops})

    for kind in KINDS:
        top = 260 if kind == "sha512" else 132
        # every length up to two blocks and a bit, in one chunk and in random chunks,
        # with the context reused for a second message
        for n in range(0, top):
            if c.thorough or n % 2 == c.seed % 2 or n % 64 in (0, 47, 48, 55, 56, 57, 63) or n % 128 in (111, 112, 127):
                add(kind, [n], True)
            add(kind, [n, rng.randrange(0, 70)])
        for _ in range(c.scale(20, 300)):
            add(kind, [rng.randrange(0, c.scale(700, 3000)) for _ in range(rng.randrange(1, 4))])
        add(kind, [c.scale(4096, 40000)])
        add(kind, [rng.randrange(8191, 8400)])   # bit length beyond 16 bits
    if c.thorough:
        for kind in KINDS:
            add(kind, [2 ** 17 + 3])
    cases.append(long_case(c, KINDS))
    record(c, drv, cases, "Trace_Hash", lambda t: t["kind"], timeout=300)
    return c.finish()
