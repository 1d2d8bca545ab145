"""Writes sparse disk images and sparse bundles from the disks of Bands.tla."""
import os, struct
from images import Image, pattern


def write_image(path, l, opt):
    img = Image(path)
    n = -(-l["sectors"] // l["spb"])
    head = struct.pack(">4sIIII12xI28x", opt.get("sig", b"sprs"), 3, l["spb"] if not opt.get("zero") else 0, 1, l["sectors"], opt["rng"].choice([0, 7]))
    head += struct.pack(">%dI" % n, *(l["array"] + [0] * (n - len(l["array"]))))
    img.put(0, head + bytes(4096 - len(head)))
    for i, b in enumerate(l["array"]):
        at = 8 + i * l["spb"]
        k = min(l["spb"], l["ends"] - at)
        if k > 0 and (b or opt["stale"]):
            img.put(at * 512, pattern(l["file"] if b else 99, at, k))
    img.close(l["ends"] * 512)


def plist(opt, pairs):
    rng = opt["rng"]
    nl = rng.choice(["\n", "\n", "\r\n", ""])
    tab = rng.choice(["\t", "  ", ""])
    out = '<?xml version="1.0" encoding="UTF-8"?>' + nl
    if rng.random() < 0.8:
        out += '<!DOCTYPE plist PUBLIC "-//Apple//DTD PLIST 1.0//EN" "http://www.apple.com/DTDs/PropertyList-1.0.dtd">' + nl
    out += '<plist version="1.0">' + nl + "<dict>" + nl
    for k, v in pairs:
        out += tab + "<key>%s</key>" % k + nl + tab + v + nl
    return out + "</dict>" + nl + "</plist>" + nl


def write_bundle(path, l, opt):
    os.makedirs(os.path.join(path, "bands"))
    rng = opt["rng"]
    pairs = [("CFBundleInfoDictionaryVersion", "<string>%s</string>" % opt.get("version", "6.0")),
             ("band-size", "<integer>%d</integer>" % opt.get("band", l["spb"] * 512)), ("bundle-backingstore-version", "<integer>1</integer>"),
             ("diskimage-bundle-type", "<string>%s</string>" % opt.get("type", "com.apple.diskimage.sparsebundle")),
             ("size", "<integer>%d</integer>" % opt.get("size", l["bytes"]))]
    pairs = [p for p in pairs if p[0] != opt.get("without")]
    for extra in [("x", "<true/>"), ("size2", "<integer>-5</integer>"), ("a", "<array><string>size</string><integer>3</integer></array>"),
                  ("d", "<dict><key>size</key><integer>12</integer><key>band-size</key><integer>512</integer></dict>"), ("r", "<real>1.5</real>"),
                  ("b", "<data>AAEC</data>")]:
        if rng.random() < 0.2:
            pairs.append(extra)
    if rng.random() < 0.7:
        rng.shuffle(pairs)
    if not opt.get("noplist"):
        open(os.path.join(path, "Info.plist"), "w", newline="").write(plist(opt, pairs))
    open(os.path.join(path, "token"), "w").close()
    for x in l["bands"]:
        with open(os.path.join(path, "bands", "%x" % x["b"]), "wb") as f:
            f.write(pattern(l["file"], x["h"], x["n"]))
