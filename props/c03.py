"""C03: checksums."""
import json, os
import kv
from kv import Check
from tracing import record

POLYS = [0x04C11DB7, 0x1EDC6F41, 0x814141AB, 0x000000AF, 0xA833982B]
RPOLYS = [0xEDB88320, 0x82F63B78, 0xEB31D82E, 0xD5828281]


def w(x):
    return [x >> 16, x & 0xFFFF]


def message(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return [255] * n
    if k == 1:
        return [rng.choice([0, 1, 127, 128, 255]) for _ in range(n)]
    if k == 2:
        return [0] * n
    return [rng.randrange(256) for _ in range(n)]


def split(rng, msg):
    """Random chunking, with empty chunks."""
    out = []
    i = 0
    while i < len(msg):
        k = rng.choice([0, 1, 1, 2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 129, 5551, 5552, 5553, len(msg)])
        out.append(msg[i:i + k])
        i += k
    if rng.random() < 0.3:
        out.append([])
    return out


def trace(rng, lengths):
    kind = rng.choice(["adler", "crc", "rcrc"])
    poly = {"adler": 0, "crc": rng.choice(POLYS + [rng.getrandbits(32)]),
            "rcrc": rng.choice(RPOLYS + [rng.getrandbits(32)])}[kind]
    if kind == "adler":
        init = rng.choice([1, 0, (65520 << 16) | 65520, (rng.randrange(65521) << 16) | rng.randrange(65521)])
    else:
        init = rng.choice([0, 0xFFFFFFFF, 1, rng.getrandbits(32)])
    ops = []
    for n in lengths:
        for c in split(rng, message(rng, n)):
            ops.append({"op": "update", "data": c})
        ops.append({"op": "finalize"})
    if rng.random() < 0.3:
        ops.append({"op": "finalize"})
    return {"t": "checksum", "cfg": {"kind": kind, "poly": w(poly), "init": w(init)}, "ops": ops}


def long_case(c, kinds):
    """Messages of the table of long ones, up to a length, each in chunks of its own."""
    top = (1 << 33) if c.thorough else (1 << 30)
    rows = [r for r in json.load(open(os.path.join(kv.SPECS, "tables", "vectors.json"))) if r["kind"] in kinds and int(r["n"]) < top]
    rows.sort(key=lambda r: -int(r["n"]))
    ops = []
    for r in rows:
        n = int(r["n"])
        chunks = c.rng.choice([[1 << 20], [65536], [65535, 65537, 1], [4096], [1 << 20, 3], [n if n <= 1 << 24 else 1 << 22]])
        ops.append({"op": "long", "n": r["n"], "kind": r["kind"], "chunks": chunks, **({"cfg": r["cfg"]} if "cfg" in r else {})})
    return {"t": "vectors", "kind": "long", "ops": ops}


def main():
    c = Check("C03")
    rng = c.rng
    drv = c.build("core")
    c.tlc("MC_Checksum")
    cases = []
    # every kind, every short length, reused contexts
    for n in range(0, 70):
        cases.append(trace(rng, [n, rng.randrange(4)]))
    for _ in range(c.scale(250, 3000)):
        cases.append(trace(rng, [rng.choice([0, 1, 2, 3, 4, 15, 16, 17, 255, 256, 257, rng.randrange(600)])
                                 for _ in range(rng.randrange(1, 4))]))
    # long messages of large bytes around the deferred reductions of Adler-32
    for n in (5551, 5552, 5553, 5554, 11103, 11104, 11105, 16656, 16657) + (() if not c.thorough else (60000, 99999)):
        for fill in (255, None):
            msg = [255] * n if fill else [rng.randrange(200, 256) for _ in range(n)]
            for init in (1, (65520 << 16) | 65520):
                for chunks in ([msg], [msg[:n // 3], msg[n // 3:]]):
                    cases.append({"t": "checksum", "cfg": {"kind": "adler", "poly": [0, 0], "init": w(init)},
                                  "ops": [{"op": "update", "data": k} for k in chunks] + [{"op": "finalize"}]})
    for kind, poly in (("crc", POLYS[0]), ("rcrc", RPOLYS[0])):
        msg = [rng.randrange(256) for _ in range(c.scale(3000, 20000))]
        cases.append({"t": "checksum", "cfg": {"kind": kind, "poly": w(poly), "init": [0, 0]},
                      "ops": [{"op": "update", "data": k} for k in split(rng, msg)] + [{"op": "finalize"}]})
    for x in cases:
        x["kind"] = "checksum"
    cases.append(long_case(c, ("adler", "crc", "rcrc")))
    record(c, drv, cases, "Trace_Checksum", lambda t: "long" if t["kind"] == "long" else t["cfg"]["kind"], timeout=300)
    return c.finish()
