"""C12: VHD images present the guest disk their block tables describe."""
import json, os, struct, uuid
from kv import Check
from images import Image, image_ops, near, pattern, record_images
from streams import big

GARBAGE = 99


def checksum(b):
    return ~sum(b) & 0xFFFFFFFF


def write_layer(path, l, opt):
    """l: the layer of the specification; opt: what the specification leaves open."""
    img = Image(path)
    dyn = l["kind"] != "fixed"
    foot = bytearray(512)
    foot[0:8] = opt.get("sig", b"conectix")
    next_off = opt.get("header", 512)
    struct.pack_into(">IIQI4sI4sQQIIi", foot, 8, 2, opt.get("version", 0x10000), next_off if dyn else (1 << 64) - 1, 0x2A000000,
                     b"kver", 0x10000, b"Wi2k", opt.get("original", l["bytes"]), l["bytes"], 0x01020304,
                     {"fixed": 2, "dynamic": 3, "diff": 4}[l["kind"]], 0)
    foot[68:84] = uuid.UUID(l["id"]).bytes
    struct.pack_into(">I", foot, 64, checksum(foot))
    end = 0
    if dyn:
        img.put(0, bytes(foot))
        bat = opt.get("bat", next_off + 1024)
        head = bytearray(1024)
        head[0:8] = b"cxsparse"
        struct.pack_into(">QQIII", head, 8, (1 << 64) - 1, bat, 0x10000, opt["entries"], l["spb"] * 512)
        if l["pid"]:
            head[40:56] = uuid.UUID(l["pid"]).bytes
            name = l["pname"].encode("utf-16-be")
            head[64:64 + len(name)] = name
        struct.pack_into(">I", head, 36, checksum(head))
        img.put(next_off, bytes(head))
        table = bytearray(b"\xff" * (opt["entries"] * 4))
        bms = -(-(-(-l["spb"] // 8)) // 512)
        for x in l["blocks"]:
            struct.pack_into(">I", table, 4 * x["b"], x["h"] - bms)
            bits = bytearray(bms * 512)
            for first, n in x["runs"]:
                for k in range(first, first + n):
                    bits[k // 8] |= 0x80 >> (k % 8)
            # bits beyond the last sector of a block have no meaning
            if opt.get("pad") and l["spb"] % 8:
                bits[l["spb"] // 8] |= 0xFF >> (l["spb"] % 8)
            if opt.get("pad"):
                for k in range(-(-l["spb"] // 8), len(bits)):
                    bits[k] = 0xFF
            img.put((x["h"] - bms) * 512, bytes(bits))
            img.put(x["h"] * 512, pattern(GARBAGE, x["h"], l["spb"]))
            for first, n in x["runs"]:
                img.put((x["h"] + first) * 512, pattern(l["file"], x["h"] + first, n))
        img.put(bat, bytes(table))
        end = -(-max(img.end, 2048) // 512) * 512
    else:
        n = -(-l["bytes"] // 512)
        img.put(0, pattern(l["file"], 0, n)[:l["bytes"]])
        end = l["bytes"]
    img.put(end, bytes(foot))
    img.close()


def main():
    c = Check("C12")
    rng = c.rng
    drv = c.build("fmt")
    images = []
    for base in ("fixed", "dynamic"):
        out, _, _ = c.tlc("MC_Vhd", cfg="MC_Vhd_%s.cfg" % base)
        got = sorted({line for line in out.splitlines() if line.startswith('"IMAGE ')})
        assert len(got) > 500
        images += [json.loads(json.loads(x.strip())[6:]) for x in (rng.sample(got, 700) if not c.thorough else rng.sample(got, 2600))]
    cases, writers = [], []

    def add(layers, opts, nops, marks, maxread=700, top=None):
        names = ["base.vhd", "snap 1.avhd", "snap2.vhd", "top.vhd"]
        for k, l in enumerate(layers):
            l["id"] = str(uuid.UUID(int=rng.getrandbits(128) | 1 << 127)) if "id" not in l else l["id"]
            l.setdefault("pid", layers[k - 1]["id"] if k else "")
            l.setdefault("pname", rng.choice(["", "C:\\images\\", "\\\\server\\share\\", ".\\"]) + names[k - 1] if k else "")
            l["size"] = big(l["bytes"])
            l["sound"] = "sig" not in opts[k] and "version" not in opts[k]
        full = [dict(l) for l in layers]

        def write(d):
            for k, l in enumerate(full):
                write_layer(os.path.join(d, names[k]), l, opts[k])
        writers.append(write)
        for l in layers:
            l["pname"] = l["pname"].replace("\\", "\\\\")  # as text, strings show a backslash as two
        ops = image_ops(rng, [l["bytes"] for l in layers], nops, marks, maxread=maxread)
        cases.append({"t": "image", "fmt": "vhd", "kind": layers[-1]["kind"], "file": names[len(layers) - 1],
                      "layers": [{k: v for k, v in l.items() if k != "bytes"} for l in layers], "ops": ops})

    # every image of the specification: small disks, read across all blocks
    for layers in images:
        for l in layers:
            l["bytes"] = 5 * 512
        add(layers, [{"entries": rng.choice([3, 3, 4]), "pad": rng.random() < 0.5} for _ in layers], 5, [0, 512, 1024, 1536, 2048, 2560],
            maxread=2560)
    # larger images
    for i in range(c.scale(700, 4000)):
        nl = rng.choice([1, 1, 2, 2, 3, 4])
        spb = rng.choice([1, 2, 4, 8, 8, 16, 16, 64, 64, 512, 4096, 8192] if rng.random() < 0.9 else [1, 32768])
        nb = rng.choice([1, 2, 3, 5, 17, 40, 300]) if spb < 512 else rng.choice([1, 2, 3, 20000, (1 << 31) // spb - 1 if spb > 4000 else 2000])
        sectors = max(1, nb * spb - rng.choice([0, 0, 1, spb // 2, rng.randrange(spb)]))
        nb = -(-sectors // spb)
        size = sectors * 512 - (rng.choice([0, 0, 0, 0, 1, 100, 511]))
        base = rng.choice(["fixed", "dynamic", "dynamic"]) if sectors < 1000 else "dynamic"
        layers, opts, edges = [], [], []
        for k in range(nl):
            kind = base if k == 0 else "diff"
            # layers may differ in their block size
            lspb = spb if rng.random() < 0.7 or spb > 64 else rng.choice([1, 2, 4, 8, 32])
            lnb = -(-sectors // lspb)
            bms = -(-(-(-lspb // 8)) // 512)
            entries = lnb + rng.choice([0, 0, 0, 1, 5])
            header = rng.choice([512, 512, 1024, 4096])
            bat = header + 1024 + rng.choice([0, 0, 512, 4096])
            h = (bat + entries * 4 + 511) // 512 + rng.choice([0, 1, 7])
            if rng.random() < 0.1:
                h += rng.choice([1 << 23, (1 << 23) - 3, 1 << 25])
            blocks = []
            if kind != "fixed":
                cand = [0, 1, lnb - 1, lnb - 2] + [rng.randrange(lnb) for _ in range(12)]
                cand = sorted({b for b in cand if 0 <= b < lnb and rng.random() < 0.6})
                rng.shuffle(cand)
                for b in cand[:1 if lspb > 5000 else 2 if lspb > 1000 else 30]:
                    h += bms
                    runs, at = [], 0
                    style = rng.random()
                    while at < lspb:
                        if style < 0.2:
                            runs = [[0, lspb]]
                            break
                        gap = rng.choice([0, 0, 1, 7, 8, rng.randrange(lspb)]) if not runs else rng.choice([1, 1, 7, 8, 9, rng.randrange(1, lspb + 1)])
                        n = rng.choice([1, 1, 2, 7, 8, 9, 16, rng.randrange(1, lspb + 1)])
                        at += gap
                        if at >= lspb or len(runs) > 10:
                            break
                        n = min(n, lspb - at)
                        runs.append([at, n])
                        at += n
                    if style > 0.95:
                        runs = []
                    blocks.append({"b": b, "h": h, "runs": runs})
                    edges += [(b * lspb + x) * 512 for r in runs for x in (r[0], r[0] + r[1])]
                    edges += [b * lspb * 512, (b + 1) * lspb * 512]
                    h += lspb + rng.choice([0, 0, 0, 1, 16])
            layers.append({"kind": kind, "file": k + 1, "spb": lspb, "blocks": blocks, "bytes": size})
            opts.append({"entries": entries, "header": header, "bat": bat, "pad": rng.random() < 0.3,
                         "original": size + rng.choice([0, 0, 512 * 7, -512])if size > 512 else size})
        add(layers, opts, rng.randrange(3, 12), near(rng, edges, size), maxread=rng.choice([100, 700, 700, 2500]))
    # layers that do not belong together, and what is not an image
    for i in range(24):
        two = [{"kind": "dynamic", "file": 1, "spb": 2, "blocks": [], "bytes": 2048}, {"kind": "diff", "file": 2, "spb": 2, "blocks": [], "bytes": 2048}]
        opts = [{"entries": 2}, {"entries": 2}]
        if i % 3 == 0:
            two[1]["pid"] = str(uuid.UUID(int=rng.getrandbits(128) | 1))
        elif i % 3 == 1:
            opts[i % 2]["sig"] = rng.choice([b"conectiX", b"conecti\0", b"cxsparse", b"\0" * 8])
        else:
            opts[i % 2]["version"] = rng.choice([0, 0x20000, 0x100])
        add(two, opts, 2, [0, 512])
    record_images(c, drv, cases, writers, "Trace_Vhd", lambda t, e: "%s %s" % (t["kind"], e["op"]))
    c.assumptions = ["disks of less than 1 TiB", "all layers of an image present disks of the same size"]
    return c.finish()
