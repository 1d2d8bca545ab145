"""Random structure layouts, their declarations in Rust, and the reading of their text."""
import os, re
import kv

ALT = {"u8": ["u8", "uint8", "UnsignedInteger8Bit"], "u16": ["u16", "uint16", "UnsignedInteger16Bit"],
       "u32": ["u32", "uint32", "UnsignedInteger32Bit"], "u64": ["u64", "uint64", "UnsignedInteger64Bit"],
       "i8": ["i8", "int8", "SignedInteger8Bit"], "i16": ["i16", "int16", "SignedInteger16Bit"],
       "i32": ["i32", "int32", "SignedInteger32Bit"], "i64": ["i64", "int64", "SignedInteger64Bit"],
       "Uuid": ["Uuid", "uuid"]}
WIDTH = {"u8": 1, "i8": 1, "bytes": 1, "u16": 2, "i16": 2, "FatDate": 2, "ucs2": 2, "utf16": 2, "u32": 4, "i32": 4,
         "FatTimeDate": 4, "PosixTime32": 4, "FatTimeDate10Ms": 5, "u64": 8, "i64": 8, "Filetime": 8, "Uuid": 16}
INTS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]
TIMES = ["FatDate", "FatTimeDate", "FatTimeDate10Ms", "Filetime", "PosixTime32"]
STR = {"bytes": "ByteString", "ucs2": "Ucs2String", "utf16": "Utf16String"}
BE, LE = ["be", "big", "BigEndian"], ["le", "little", "LittleEndian"]
INNER = [("G0", 3), ("G1", 8)]
EMPTY = {"op": ">=", "n": 0}


def width(m):
    return m["size"] if m["type"] == "struct" else WIDTH[m["type"]]


def size(m):
    if m["k"] == "group":
        return sum(size(f) for f in m["fields"])
    return width(m) * (m["n"] if m["k"] != "bits" else 1)


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.count = 0

    def member(self, k, type, n=1, order="", fmt="", mod=None, fields=(), cond=None, sz=0):
        self.count += 1
        return {"k": k, "name": "f%d" % self.count, "type": type, "n": n, "order": order, "fmt": fmt,
                "mod": mod or {"op": "", "bits": []}, "fields": list(fields), "cond": cond or EMPTY, "size": sz}

    def modifier(self, bits):
        v = self.rng.getrandbits(bits)
        return {"op": self.rng.choice("&|^"), "bits": [(v >> i) & 1 for i in range(bits)]}

    def field(self, need):
        rng = self.rng
        order = rng.choice(["be", "le"]) if need else rng.choice(["", "", "", "be", "le"])
        r = rng.random()
        if r < 0.5:
            t = rng.choice(INTS)
            n = rng.choice([1, 1, 1, 1, 2, 3, 4, 7, 16, 17, 33] if rng.random() < 0.97 else [64, 100, 255, 256, 257, 1000])
            fmt = rng.choice(["", "", "hex", "hex", "char" if t == "u8" else ""])
            mod = self.modifier(8 * WIDTH[t]) if n == 1 and t[0] == "u" and fmt != "char" and rng.random() < 0.2 else None
            return self.member("field", t, n, order, fmt, mod)
        if r < 0.7:
            return self.member("field", rng.choice(TIMES), rng.choice([1, 1, 1, 2, 3] if rng.random() < 0.97 else [16, 17, 40]), order)
        if r < 0.78:
            return self.member("field", "Uuid", rng.choice([1, 1, 2]), order)
        if r < 0.9:
            return self.member("str", rng.choice(list(STR)), rng.choice([1, 2, 3, 8, 11] if rng.random() < 0.93 else [32, 64, 127, 128, 255, 256, 520]), order)
        name, sz = rng.choice(INNER)
        return self.member("field", "struct", rng.choice([1, 1, 2, 3]), order, sz=sz)

    def bits(self, need):
        rng = self.rng
        t = rng.choice(["u8", "u16", "u32", "u64"])
        total, left, fs = 8 * WIDTH[t], 8 * WIDTH[t], []
        while left:
            n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31, 32, 33, 44, total, left])
            if n > left:
                continue
            fs.append(self.member("field", t, n, "", rng.choice(["", "", "hex"]),
                                  self.modifier(n) if rng.random() < 0.15 else None))
            left -= n
        return self.member("bits", t, 1, rng.choice(["be", "le"]) if need else rng.choice(["", "", "be", "le"]), fields=fs)

    def layout(self):
        rng = self.rng
        self.count = 0
        order = rng.choice(["be", "le", "be", "le", ""])
        need = order == ""
        ms = []
        mode = "members" if rng.random() < 0.35 else "fields"
        for _ in range(rng.choice([1, 2, 3, 4, 6, 9] if rng.random() < 0.97 else [20, 60])):
            if mode == "fields" and rng.random() < 0.25:
                ms.append(self.bits(need))
            else:
                ms.append(self.field(need))
        if mode == "members":
            groups = [self.member("group", "", fields=[self.field(need) for _ in range(rng.choice([1, 1, 2, 3]))])
                      for _ in range(rng.choice([0, 1, 1, 2]))]
            at = sorted(rng.randrange(len(ms) + 1) for _ in groups)
            for i, g in reversed(list(zip(at, groups))):
                ms.insert(i, g)
            total = sum(map(size, ms))
            off = 0
            for i, m in enumerate(ms):
                if m["k"] == "group":
                    m["cond"] = rng.choice([{"op": ">", "n": off}, {"op": ">", "n": off + size(m) - 1}, {"op": ">=", "n": total},
                                            {"op": "==", "n": total}, {"op": "!=", "n": off}, {"op": "<", "n": total},
                                            {"op": ">", "n": total}])
                off += size(m)
        return {"order": order, "members": ms, "mode": mode}


def rust(l, k, rng):
    """The declaration of layout k."""
    def fld(m, bits=None):
        if bits:
            dt = "BitField%d<%d>" % (8 * WIDTH[bits], m["n"])
        elif m["k"] == "str":
            dt = "%s<%d>" % (STR[m["type"]], m["n"])
        else:
            dt = "Struct<%s; %d>" % ([n for n, s in INNER if s == m["size"]][0], m["size"]) if m["type"] == "struct" else \
                rng.choice(ALT.get(m["type"], [m["type"]]))
            if m["n"] != 1:
                dt = "[%s; %d]" % (dt, m["n"])
        s = 'name = "%s", data_type = "%s"' % (m["name"], dt)
        o = m["order"]
        if o:
            s += ', byte_order = "%s"' % rng.choice(BE if o == "be" else LE)
        if m["fmt"]:
            s += ', format = "%s"' % rng.choice({"hex": ["hex", "Hexadecimal"], "char": ["char", "Character"]}[m["fmt"]])
        if m["mod"]["op"]:
            s += ', modifier = "%s %d"' % (m["mod"]["op"], sum(b << i for i, b in enumerate(m["mod"]["bits"])))
        return "field(%s)" % s

    parts = []
    if l["order"]:
        parts.append('byte_order = "%s"' % rng.choice(BE if l["order"] == "be" else LE))
    for m in l["members"]:
        if m["k"] == "bits":
            for i, f in enumerate(m["fields"]):
                parts.append(fld(dict(f, order=m["order"] if i == 0 else ""), m["type"]))
        elif m["k"] == "group":
            parts.append('member(group(size_condition = "%s %d", %s))' % (
                m["cond"]["op"], m["cond"]["n"], ", ".join(fld(f) for f in m["fields"])))
        elif l["mode"] == "members":
            parts.append("member(%s)" % fld(m))
        else:
            parts.append(fld(m))
    return """mod l%d {
    use keramics_core::ErrorTrace;
    use keramics_layout_map::LayoutMap;
    #[allow(unused)]
    use super::{G0, G1};
    #[derive(LayoutMap)]
    #[layout_map(structure(%s), method(name = "debug_read_data"), method(name = "read_at_position"))]
    pub struct S { pub seen: Option<Vec<u8>> }
    impl S {
        fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> { self.seen = Some(data.to_vec()); Ok(()) }
    }
}
""" % (k, ", ".join(parts))


def write(layouts, rng):
    src = """use keramics_layout_map::LayoutMap;
#[derive(LayoutMap)]
#[layout_map(structure(byte_order = "little", field(name = "g1", data_type = "u8"), field(name = "g2", data_type = "u16")),
    method(name = "debug_read_data"))]
pub struct G0 {}
#[derive(LayoutMap)]
#[layout_map(structure(byte_order = "big", field(name = "g1", data_type = "u32", format = "hex"), field(name = "g2", data_type = "[u8; 4]")),
    method(name = "debug_read_data"))]
pub struct G1 {}
fn render_struct(kind: &str, d: &[u8]) -> String {
    if kind == "G0" { G0::debug_read_data(d) } else { G1::debug_read_data(d) }
}
"""
    src += "".join(rust(l, k, rng) for k, l in enumerate(layouts))
    src += "fn debug_layout(k: usize, d: &[u8]) -> String {\n    match k {\n"
    src += "".join("        %d => l%d::S::debug_read_data(d),\n" % (k, k) for k in range(len(layouts)))
    src += "        _ => panic!(\"unknown\"),\n    }\n}\n"
    src += "fn read_layout(k: usize, s: &DataStreamReference, p: SeekFrom) -> (bool, Option<Vec<u8>>) {\n    match k {\n"
    src += "".join("        %d => { let mut x = l%d::S { seen: None }; let r = x.read_at_position(s, p); (r.is_ok(), x.seen) }\n" % (k, k)
                   for k in range(len(layouts)))
    src += "        _ => panic!(\"unknown\"),\n    }\n}\n"
    d = os.path.join(kv.BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "layouts.rs")
    if os.path.exists(p):
        os.replace(p, p + ".failed")
    with open(p, "w") as f:
        f.write(src)


def located(text):
    """The layouts in which the compiler found errors."""
    with open(os.path.join(kv.BUILD, "gen", "layouts.rs.failed")) as f:
        lines = f.read().split("\n")
    out = set()
    for n in re.findall(r"layouts\.rs:(\d+):", text):
        for i in range(min(int(n), len(lines)) - 1, -1, -1):
            m = re.match(r"mod l(\d+) \{", lines[i])
            if m:
                out.add(int(m.group(1)))
                break
    return out


# -- reading the text ---------------------------------------------------------

def elements(tok):
    """The elements of an array as it is formatted."""
    tok = tok.strip()
    if not (tok.startswith("[") and tok.endswith("]")):
        return None
    body = tok[1:-1].strip()
    m = re.fullmatch(r"(.*); (\d+)", body, re.S)
    if m:
        return [m.group(1)] * int(m.group(2)) if int(m.group(2)) < 10000 else None
    return [x.strip() for x in body.split(", " if "\n" not in body else ",")] if body else []


def flat(s):
    return "|".join(x.strip() for x in s.splitlines() if x.strip())


def number(tok, bits):
    """(bits, least significant first; style: digits of hexadecimal, -1 of a character, 0 of decimal)"""
    if re.fullmatch(r"0x[0-9a-f]+", tok):
        v, style = int(tok, 16), len(tok) - 2
    elif re.fullmatch(r"-?(0|[1-9][0-9]*)", tok):
        v, style = int(tok), 0
    else:
        return None
    if not -(1 << (bits - 1)) <= v < (1 << bits):
        return None
    return [(v >> i) & 1 for i in range(bits)], style


def entries(text, l, at):
    """The entries of a text, or None when it is not one."""
    flds = {}
    for m in l["members"]:
        for f in (m["fields"] if m["k"] in ("bits", "group") else [m]):
            flds[f["name"]] = (f, m["k"] == "bits")
    m = re.fullmatch(r"S \{\n(.*)\}\n\n", text, re.S)
    if not m:
        return None
    out = []
    places = {}
    for kind, sz, order, o, s in at:
        places.setdefault((kind, sz, flat(s)), []).append([o, order])
    for piece in re.split(r"^(?=    f\d+: )", m.group(1), flags=re.M):
        if not piece:
            continue
        p = re.fullmatch(r"    (f\d+): (.*?),?\s*", piece, re.S)
        if not p or p.group(1) not in flds:
            return None
        name, tok = p.groups()
        f, isbits = flds[name]
        e = {"name": name, "vals": [], "at": [], "order": "", "hex": 0}
        if f["type"] in INTS and (f["k"] != "str"):
            toks = [tok] if isbits or f["n"] == 1 else elements(tok)
            if toks is None:
                return None
            styles = set()
            for t in toks:
                if f["fmt"] == "char" and len(t) == 1:
                    v = [(ord(t) >> i) & 1 for i in range(8)], -1
                else:
                    v = number(t, 8 * WIDTH[f["type"]])
                if v is None:
                    return None
                e["vals"].append(v[0])
                styles.add(v[1])
            if len(styles) != 1:
                return None
            e["hex"] = styles.pop()
        else:
            kind = f["type"]
            n = 1
            w = width(f)
            if f["k"] == "str":
                w *= f["n"]
                if not re.fullmatch(r'".*"', tok, re.S):
                    return None
                toks = [tok[1:-1]]
            elif kind == "struct":
                kind = [x for x, s in INNER if s == f["size"]][0]
                if f["n"] == 1:
                    toks = [tok]
                else:
                    q = re.fullmatch(r"\[\n(.*)\]", tok, re.S)
                    if not q:
                        return None
                    toks = [x for x in re.split(r"(?=^\s*%s \{)" % kind, q.group(1), flags=re.M) if x.strip()]
            else:
                toks = [tok] if f["n"] == 1 else elements(tok)
            if toks is None:
                return None
            e["at"] = [places.get((kind, w, flat(t)), []) for t in toks]
        out.append(e)
    return out


def types(l):
    r = set()
    for m in l["members"]:
        for f in (m["fields"] if m["k"] == "group" else [m]):
            if f["k"] == "str":
                r.add((f["type"], width(f) * f["n"]))
            elif f["k"] == "field" and f["type"] not in INTS:
                r.add(([x for x, s in INNER if s == f["size"]][0] if f["type"] == "struct" else f["type"], width(f)))
    return sorted(r)
