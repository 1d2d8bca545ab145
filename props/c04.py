"""C04: timestamps and calendar."""
import struct
from kv import Check
from tracing import record

E = 719528  # days from 0000-01-01 to 1970-01-01


def main():
    c = Check("C04")
    rng = c.rng
    drv = c.build("core")
    c.tlc("MC_DateTime")
    cases = []
    # every day of long stretches, by the real code and by the day-successor machine
    block = 3000

    def days(kind, first, count):
        while count > 0:
            n = min(count, block)
            ops = []
            f = first
            while f < first + n:
                k = min(25, first + n - f)
                ops.append({"first": f, "count": k})
                f += k
            cases.append({"t": "days", "kind": kind, "first": first, "ops": ops})
            first += n
            count -= n

    if c.thorough:
        days("posix64", -E, 3652425)
        days("filetime", -134774, 3652425 - E + 134774)
    else:
        days("posix64", -E + 146097 * 4, 146097 + 40000)   # 1600 .. 2109
        days("filetime", -134774, 146097 + 40000)
        days("posix64", -E, 1500)
        days("posix64", 2932897 - 800, 1600)
    # the days around every turn of year, February and century up to year 12000
    ops = []
    for y in range(0, 12001, c.scale(3, 1)):
        for dd in (-1, 58, 59):
            # day number of January 1st of year y
            n = 365 * y + (y + 3) // 4 - (y + 99) // 100 + (y + 399) // 400 - E
            ops.append(n + dd)
    for kind in ("posix64", "filetime"):
        for n in ops:
            if kind == "filetime" and n < -134774 or n < -E:
                continue
            cases.append({"t": "days", "kind": kind, "first": n, "ops": [{"first": n, "count": 3}]})

    def stamps(kind, raws):
        for k in range(0, len(raws), 40):
            cases.append({"t": "datetime", "kind": kind, "ops": [
                {"bytes": list(b), "fraction": f} for b, f in raws[k:k + 40]]})

    n = c.scale(1500, 30000)
    sec = [0, 1, 59, 60, 3599, 3600, 86399, 86400, -1, -2, -59, -60, -61, -3600, -3601, -86399, -86400, -86401,
           2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1, 951782399, 951782400, 951868799, 951868800, 68169600, -58060800]
    sec += [d * 86400 + o for d in (-25567, -1, 0, 59, 60, 789, 790, 11016, 11017, 24836) for o in (-1, 0, 1, 43200, 86399)]
    p32 = [x for x in sec if -2 ** 31 <= x < 2 ** 31] + [rng.randrange(-2 ** 31, 2 ** 31) for _ in range(n)]
    stamps("posix32le", [(struct.pack("<i", x), 0) for x in p32])
    stamps("posix32be", [(struct.pack(">i", x), 0) for x in p32])
    lo, hi = -E * 86400, (3652425 * 3 - E) * 86400
    p64 = sec + [lo, lo + 1, 2 ** 31, 2 ** 32, 2 ** 32 - 1, 2 ** 33, 2 ** 34, 253402300799, 253402300800] + \
        [rng.randrange(lo, hi) for _ in range(n)]
    stamps("posix64", [(struct.pack("<q", x), rng.choice([0, 1, 9, 999999999, 100000000, rng.randrange(10 ** 9)])) for x in p64])
    ft = [0, 1, 9999999, 10000000, 2 ** 63 - 1, 2 ** 64 - 1, 2 ** 63, 116444736000000000, 116444735999999999]
    ft += [(x + 11644473600) * 10 ** 7 + rng.randrange(10 ** 7) for x in sec]
    ft += [rng.randrange(2650467744000000000) for _ in range(n)] + [rng.getrandbits(64) for _ in range(n // 3)]
    ft += [1 << k for k in range(64)]
    stamps("filetime", [(struct.pack("<Q", x), 0) for x in ft])
    fat = [0, 0x21, 0xFFFF, 0x5821] + [rng.getrandbits(16) for _ in range(n // 3)]
    stamps("fatdate", [(struct.pack("<H", x), 0) for x in fat])
    stamps("fattimedate", [(struct.pack("<HH", rng.choice([0, 0xFFFF, 0xBF7D, rng.getrandbits(16)]), x), 0) for x in fat])
    stamps("fattimedate10ms", [(struct.pack("<BHH", rng.choice([0, 1, 99, 100, 101, 199, 200, 255, rng.randrange(256)]),
                                            rng.choice([0, 0xFFFF, 0xBF7D, rng.getrandbits(16)]), x), 0) for x in fat])
    record(c, drv, cases, "Trace_DateTime", lambda t: t["kind"], fix=fix)
    return c.finish()


def fix(case, e):
    # of the display text of 64-bit POSIX timestamps only the date and time are part of the property
    if case["kind"] == "posix64" and isinstance(e["out"], list) and "bytes" in e:
        e["out"] = [e["out"][0]] if e["out"][1].startswith(e["out"][0]) else e["out"]
