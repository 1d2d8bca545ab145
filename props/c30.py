"""C30: XML property lists.  Documents of random values in random styles, and damaged ones."""
import base64
from kv import Check
from tracing import record

WHITE = [" ", "\n", "\t", "\r\n", "\r", "    ", "\n\t\t"]
LETTERS = "abcXYZ019 -_.;:'\"/=()%#!?*,\t" + "\u00e9\u03b1\u20ac\u3042\ud7ff\ue000\ufeff\ufffd\U0001f600\U0010ffff"
DOCTYPES = ['<!DOCTYPE plist PUBLIC "-//Apple//DTD PLIST 1.0//EN" "http://www.apple.com/DTDs/PropertyList-1.0.dtd">',
            "<!DOCTYPE plist PUBLIC '-//Apple//DTD PLIST 1.0//EN' 'http://www.apple.com/DTDs/PropertyList-1.0.dtd' >",
            '<!DOCTYPE\n\tplist PUBLIC "-//Apple//DTD PLIST 1.0//EN"\n"http://www.apple.com/DTDs/PropertyList-1.0.dtd">',
            '<!DOCTYPE plist PUBLIC "-//Apple Computer//DTD PLIST 1.0//EN" "http://www.apple.com/DTDs/PropertyList-1.0.dtd">']
DECLS = ['<?xml version="1.0" encoding="UTF-8"?>', "<?xml version='1.0'?>", '<?xml version="1.0" encoding=\'utf-8\' standalone="yes" ?>',
         '<?xml\nversion = "1.1"?>', "<?xml version='1.0' standalone='no'?>"]
NOTES = ["<!-- a comment -->", "<!---->", "<!-- <key>no</key> & <dict> -->", "<!-- a-b - c -->", "<?target?>", "<?target with data <dict> & ?>",
         "<?t ??>", "<!--\r\n]]> -->", "<?xml-stylesheet href=\"a\"?>", "<?x <!-- ?>", "<!--?>-->"]
BADS = ["<!-- a -- b -->", "<!-- a --->", "& ", "&;", "&amp ", "<", "<3>", "]]>", "&#xZZ;", "&#0;", "&#xFFFF;", "&#x110000;", "&#xD800;", "&#;",
        "<?xml version='1.0'?>", "<!doctype plist>", "\x01", "\ufffe", "<dict a=b>", '<dict a="<">', "< dict>", "<dict / >", "</ dict>", "<string <",
        "<?XML x?>", "<!ELEMENT x ANY>", "<dict a>", "</key a='1'>"]
ATTRS = [' version="1.0"', " version='1.0'", ' a = "b"', "\n x:y='&lt;&#65;\"'", ' a="" b=\'>\'', '\t_="1"  ']
ENTITIES = {38: "amp", 60: "lt", 62: "gt", 34: "quot", 39: "apos"}
LEAVES = ["string", "integer", "real", "date", "data", "key"]


def main():
    c = Check("C30")
    drv = c.build("fmt")
    c.tlc("MC_Plist", "MC_Plist_deep.cfg" if c.thorough else None)
    cases = [one(c.rng) for _ in range(c.scale(700, 8000))]
    cases += [{"t": "plist", "ops": [event(c.rng, deep(c.rng, n), True)]} for n in (10, 50, 100)]
    cases += [{"t": "plist", "ops": [event(c.rng, big(c.rng), True)]} for _ in range(c.scale(3, 12))]
    record(c, drv, cases, "Trace_Plist", lambda t, e: "plist %s" % kind(e), fix=fix)
    c.assumptions = ["documents are Unicode text; internal document type subsets are not used",
                     "what the document type does not allow but is well-formed is left open, except for wrong elements and keys"]
    return c.finish()


def kind(e):
    return e["xml"][:4000].replace("\n", " ").replace("|", "/")


def fix(case, e):
    if isinstance(e["out"], str):
        e["panic"], e["out"] = e["out"], {"k": "panic"}


def one(rng):
    ops = []
    for i in range(rng.choice([1, 2, 4])):
        x = [rng.randrange(60)]
        doc = document(rng, value(rng, rng.choice([0, 1, 2, 3]), x))
        if rng.random() < 0.4:
            damage(rng, doc)
        ops.append(event(rng, doc, rng.random() < 0.5))
    return {"t": "plist", "ops": ops}


def deep(rng, n):
    v = ("string", "x")
    for i in range(n):
        v = ("array", [v]) if i % 2 else ("dict", [("k", v)])
    return document(rng, v)


def big(rng):
    return document(rng, rng.choice([
        ("array", [("integer", str(i)) for i in range(1500)]),
        ("dict", [("key%d" % i, ("boolean", i % 3 == 0)) for i in range(700)]),
        ("data", bytes(rng.randrange(256) for _ in range(4000))),
        ("string", "".join(rng.choice(LETTERS + "&<>]") for _ in range(5000)))]))


def text(rng):
    if rng.random() < 0.1:
        return ""
    return "".join(rng.choice(LETTERS + "&<>\"'\r\n]]" if rng.random() < 0.6 else LETTERS) for _ in range(rng.choice([1, 2, 5, 12])))


def value(rng, depth, budget):
    budget[0] -= 1
    k = rng.choice(["array", "dict", "dict"]) if depth and rng.random() < 0.75 else rng.choice(
        ["string", "string", "integer", "real", "boolean", "data", "data", "date", "array", "dict"])
    if k == "array":
        return (k, [value(rng, depth - 1, budget) for _ in range(rng.choice([0, 1, 2, 5])) if budget[0] > 0 and depth > 0])
    if k == "dict":
        keys = {}
        for _ in range(rng.choice([0, 1, 2, 4])):
            if budget[0] > 0 and depth > 0:
                keys[rng.choice([text(rng), "key", "Key", "size"])] = value(rng, depth - 1, budget)
        return (k, list(keys.items()))
    if k == "string":
        return (k, text(rng))
    if k == "integer":
        n = rng.choice([0, 1, -1, 2**31, 2**63 - 1, -2**63, 2**63, -2**63 - 1, 2**64, 10**19, 99999, rng.randrange(-2**63, 2**63), rng.randrange(1000)])
        s = str(n)
        return (k, rng.choice([s, s, s, s, s.replace("-", "-00") if n < 0 else "000" + s, "", "-", "12z", "1 2", "x", "--1", "-0"]))
    if k == "real":
        n = rng.randrange(-10**6, 10**6)
        s = "%d" % (n // 7) if rng.random() < 0.3 else "%s%d.%s" % (rng.choice(["", "-"]), abs(n) // 9, rng.choice(["5", "25", "0", "125", "500", "00000", "9375"]))
        return (k, rng.choice([s, s, s, s, s, "", "q", "1.5z", "0.0", "-0.5"]))
    if k == "date":
        y = rng.choice([1, 1600, 1899, 1900, 1970, 2000, 2001, 2024, 2038, 2100, 9999, rng.randint(1, 9999)])
        p = (y, rng.randint(1, 12), rng.choice([1, 28, 28, 29, 30, 31]), rng.randrange(24), rng.randrange(60), rng.randrange(60))
        if rng.random() < 0.1:
            p = rng.choice([(y, 13, 1, 0, 0, 0), (y, 0, 1, 0, 0, 0), (y, 1, 0, 0, 0, 0), (y, 1, 1, 24, 0, 0), (y, 1, 1, 0, 60, 0), (y, 1, 1, 0, 0, 61)])
        s = "%04d-%02d-%02dT%02d:%02d:%02dZ" % p
        return (k, rng.choice([s] * 9 + ["", "today", s[:-1] + "x"]))
    if k == "data":
        d = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 57, rng.randrange(20)])))
        return (k, d)
    return (k, rng.random() < 0.5)


# A token is what the specification is given; its text goes with it under "x".
def tag(rng, n, how):
    sp = rng.choice(["", "", "", " ", "\n", "\r\n\t"])
    if how == "close":
        return {"t": "close", "n": n, "x": "</%s%s>" % (n, sp)}
    attrs = "".join(rng.choice(ATTRS) for _ in range(1)) if n == "plist" and rng.random() < 0.7 or rng.random() < 0.05 else ""
    return {"t": how, "n": n, "x": "<%s%s%s%s>" % (n, attrs, sp, "/" if how == "empty" else "")}


def chars(rng, s, plain=False):
    """Characters as text, references, sections."""
    out = []
    mode = rng.choice(["mixed", "mixed", "ref", "cdata"]) if not plain else "text"
    i = 0
    while i < len(s):
        ch = s[i]
        o = ord(ch)
        if mode == "cdata" and rng.random() < 0.4:
            j = min(len(s), i + rng.randrange(0, 9))
            part = s[i:j]
            if "]]>" not in part:
                out.append({"t": "cdata", "s": [ord(y) for y in part], "x": "<![CDATA[%s]]>" % part})
                i = j
                continue
        if ch in "&<" or (ch == ">" and (rng.random() < 0.5 or s[max(0, i - 2):i].endswith("]"))) or (mode == "ref" and rng.random() < 0.3) \
                or (mode != "text" and rng.random() < 0.03):
            out.append(ref(rng, o))
        else:
            out.append({"t": "text", "s": [o], "x": ch})
        i += 1
        if not plain and rng.random() < 0.01:
            out.append(note(rng))
    return out


def ref(rng, o):
    f = [("&#%d;" % o), ("&#x%x;" % o), ("&#x%X;" % o), ("&#00%d;" % o)]
    if o in ENTITIES:
        f += ["&%s;" % ENTITIES[o]] * 6
    return {"t": "ref", "v": o, "x": rng.choice(f)}


def note(rng):
    return {"t": "note", "x": rng.choice(NOTES)}


def white(rng):
    s = rng.choice(WHITE)
    return {"t": "text", "s": [ord(y) for y in s], "x": s}


def noise(rng, st):
    out = []
    if st["white"]:
        out.append(white(rng))
    if rng.random() < st["notes"]:
        out.append(note(rng))
        if rng.random() < 0.5:
            out.append(white(rng))
    return out


def element(rng, v, st):
    k, x = v
    if k == "boolean":
        n = "true" if x else "false"
        return [tag(rng, n, "empty")] if rng.random() < 0.9 else [tag(rng, n, "open"), tag(rng, n, "close")]
    if k == "array":
        inner = [t for y in x for t in noise(rng, st) + element(rng, y, st)]
        inner += noise(rng, st)
    elif k == "dict":
        inner = []
        for key, y in x:
            inner += noise(rng, st) + leaf(rng, "key", chars(rng, key)) + noise(rng, st) + element(rng, y, st)
        inner += noise(rng, st)
    elif k == "data":
        s = base64.b64encode(x).decode()
        w = rng.choice([1, 4, 44, 76, 0])
        pad = rng.choice(["", "\n", "\n\t", " ", "\r\n"])
        if w:
            s = pad + (pad or "\n").join(s[i:i + w] for i in range(0, len(s), w)) + pad
        if rng.random() < 0.08:
            s = rng.choice([s + "!", "*" + s, s[:1] + "-" + s[1:], s.replace("=", ""), "="])
        return leaf(rng, k, chars(rng, s, rng.random() < 0.9))
    else:
        return leaf(rng, k, chars(rng, x, k != "string" and rng.random() < 0.8))
    return [tag(rng, k, "empty")] if not inner and rng.random() < 0.5 else [tag(rng, k, "open")] + inner + [tag(rng, k, "close")]


def leaf(rng, n, inner):
    return [tag(rng, n, "empty")] if not inner and rng.random() < 0.5 else [tag(rng, n, "open")] + inner + [tag(rng, n, "close")]


def document(rng, v):
    st = {"white": rng.random() < 0.6, "notes": rng.choice([0, 0, 0.05, 0.3])}
    doc = []
    if rng.random() < 0.7:
        doc.append({"t": "decl", "x": rng.choice(DECLS)})
        doc += noise(rng, st)
    elif rng.random() < 0.2:
        doc += noise(rng, st)
    if rng.random() < 0.7:
        doc.append({"t": "doctype", "x": rng.choice(DOCTYPES)})
        doc += noise(rng, st)
    doc.append(tag(rng, "plist", "open"))
    doc += noise(rng, st)
    if rng.random() > 0.02:
        doc += element(rng, v, st)
    doc += noise(rng, st)
    doc.append(tag(rng, "plist", "close"))
    return doc + noise(rng, st)


def damage(rng, doc):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(doc) + 1)
        k = rng.randrange(9)
        if k == 0 and i < len(doc):
            del doc[i]
        elif k == 1 and i < len(doc):
            doc.insert(rng.randrange(len(doc)), doc[i])
        elif k == 2:
            doc.insert(i, {"t": "bad", "x": rng.choice(BADS)})
        elif k == 3:
            n = rng.choice(["dict", "array", "key", "string", "true", "plist", "dic", "Dict", "strings", "integer", "data"])
            doc.insert(i, tag(rng, n, rng.choice(["open", "close", "empty"])))
        elif k == 4:
            del doc[i:]
        elif k == 5 and i + 1 < len(doc):
            doc[i], doc[i + 1] = doc[i + 1], doc[i]
        elif k == 6:
            doc.insert(i, {"t": "ref", "v": -1, "x": rng.choice(["&unknown;", "&AMP;", "&nbsp;", "&Lt;"])})
        elif k == 7:
            tags = [j for j, t in enumerate(doc) if t["t"] in ("open", "close", "empty")]
            if tags:
                j = rng.choice(tags)
                doc[j] = tag(rng, rng.choice(["dict", "array", "string", "real", "true", "key"]), doc[j]["t"])
        else:
            doc.insert(i, rng.choice([white(rng), note(rng), {"t": "cdata", "s": [120], "x": "<![CDATA[x]]>"}]))


def event(rng, doc, fresh):
    # Characters next to each other are one text, as a reader sees them.
    out = []
    for t in doc:
        if t["t"] == "text" and out and out[-1]["t"] == "text":
            out[-1] = {"t": "text", "s": out[-1]["s"] + t["s"], "x": out[-1]["x"] + t["x"]}
        else:
            out.append(t)
    for j, t in enumerate(out):
        if t["t"] == "text" and "]]>" in t["x"]:
            out[j] = {"t": "bad", "x": t["x"]}
    xml = "".join(t["x"] for t in out)
    if rng.random() < 0.1:
        xml = "\ufeff" + xml
    return {"xml": xml, "fresh": fresh, "doc": [{k: v for k, v in t.items() if k != "x"} for t in out]}
