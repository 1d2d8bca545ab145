"""Mutation runs: small changes of the code that the tests do not see, and whether the checks do.

mutate.py WORKER OUT SEED MAP [LIMIT]: MAP is a JSON file {path of a source file below the repository: [checks]}.
Works on scratch copies below /tmp/mut, never on /repo."""
import json, os, random, re, subprocess, sys, time

RULES = [
    (r"<=", ["<"]), (r">=", [">"]), (r"(?<![<\-=>&])<(?![<=])", ["<="]), (r"(?<![>\-=])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]), (r"(?<=\s)%(?=\s)", ["/"]),
    (r"<<", [">>"]), (r"(?<=\s)>>(?=\s)", ["<<"]), (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)", ["&"]), (r"(?<=\s)\^(?=\s)", ["|"]),
    (r"&&", ["||"]), (r"\|\|(?=\s)", ["&&"]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]), (r"\|=", ["="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]), (r"!(?=[a-z(])", [""]),
    (r"(?<![\w.\[#])\d+(?![\w.])", ["+1", "-1"]), (r"\b0x[0-9a-fA-F]+\b", ["+1"]),
    (r"\bi32\b", ["u32"]), (r"\bu64\b", ["u32"]), (r"\bi64\b", ["i32"]), (r"_le_bytes", ["_be_bytes"]), (r"_be_bytes", ["_le_bytes"]), (r"\.is_empty\(\)", [".is_empty() == false"]),
]


# MUTATE=narrow: values that lose their upper half, where nothing small shows it.
NARROW = [("u64", "u32"), ("usize", "u16"), ("u32", "u16"), ("i64", "i32")]


def narrowed(body):
    out = []
    for m in re.finditer(r"(?ms)^ *(?:let (?:mut )?\w+: (\w+) = )((?!match|if|loop|unsafe)[^;{}]+?);", body):
        for wide, small in NARROW:
            if m.group(1) == wide and re.search(r"[a-z]", m.group(2)) and ".len()" not in m.group(2):
                out.append((m.start(2), m.end(2), "((%s) as %s as %s)" % (m.group(2), small, wide), m.group().strip()))
    for m in re.finditer(r"(?m)^ *self\.\w+ (?:\+|-)?= ([^;{}]+ as u64);", body):
        out.append((m.start(1), m.end(1), "((%s) as u32 as u64)" % m.group(1), m.group().strip()))
    return out


def mutants(path):
    text = open(path).read()
    cut = text.find("#[cfg(test)]\nmod tests")
    body = text if cut < 0 else text[:cut]
    if os.environ.get("MUTATE") == "narrow":
        return text, narrowed(body)
    out, at = [], 0
    comment = False
    for line in body.split("\n"):
        s = line.strip()
        if "/*" in s:
            comment = True
        plain = not comment and s and not s.startswith(("//", "#", "use ", "pub use", "*", "mod ", "pub mod", "impl", "pub enum", "pub struct", "pub type", "macro_rules", "pub fn", "fn ", "extern", "pub(")) and "error_trace" not in s and "format!(" not in s and "panic!" not in s
        if "*/" in s:
            comment = False
        if plain:
            code = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '"' + " " * (len(m.group()) - 2) + '"', line)
            code = code.split("//")[0]
            for rx, news in RULES:
                for m in re.finditer(rx, code):
                    for new in news:
                        w = m.group()
                        if new in ("+1", "-1") and re.match(r"\d|0x", w):
                            v = int(w, 0) + int(new)
                            if v < 0:
                                continue
                            new = hex(v) if w.startswith("0x") else str(v)
                        out.append((at + m.start(), at + m.end(), new, line.strip()))
            if re.match(r"^[\w.\[\]*]+ (=|\+=|-=|\|=|\^=) .*;$", s) or re.match(r"^(self\.)?[\w.]+\([^()]*\);$", s):
                out.append((at + len(line) - len(line.lstrip()), at + len(line), "", line.strip()))
        at += len(line) + 1
    return text, out


def sh(cmd, cwd, env=None, t=600):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def main():
    w, out, seed, table = sys.argv[1:5]
    limit = int(sys.argv[5]) if len(sys.argv) > 5 else 10 ** 9
    table = json.load(open(table))
    top = "/tmp/mut/w%s" % w
    repo, verif = top + "/repo", top + "/verif"
    os.makedirs(top, exist_ok=True)
    sh("test -d repo || git clone -q /repo repo; git -C repo checkout -q -- .; git -C repo pull -q", top)
    sh("mkdir -p verif; cd /verif && tar --exclude=./build --exclude=./.git --exclude=./evidence --exclude=./seeded -cf - . | tar -xf - -C %s; mkdir -p %s/evidence" % (verif, verif), top)
    rng = random.Random(int(seed))
    todo = []
    for f, checks in table.items():
        text, ms = mutants(os.path.join(repo, f))
        rng.shuffle(ms)
        todo.append((f, checks, text, ms))
    n = 0
    while n < limit and any(ms for *_, ms in todo):
        # by the number of what there is to change, yet none left out
        f, checks, text, ms = rng.choices(todo, weights=[min(40, len(ms)) for *_, ms in todo])[0]
        a, b, new, line = ms.pop()
        path = os.path.join(repo, f)
        open(path, "w").write(text[:a] + new + text[b:])
        k = text[:a].count("\n") + 1
        rec = {"file": f, "line": k, "was": line, "old": text[a:b].strip(), "new": new}
        crate = f.split("/")[0]
        env = {"CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_BUILD_JOBS": "3"}
        built = crate in ("keramics-core", "keramics-checksums", "keramics-datetime", "keramics-encodings", "keramics-hashes", "keramics-layout-map", "keramics-sigscan", "keramics-types")
        t0 = time.time()
        if built:
            rc, o = sh("timeout 120 cargo test -q --offline -p %s" % crate, repo, env, 130)
        else:
            rc = 0
        if rc:
            rec["r"] = "tests" if "could not compile" not in o else "compile"
        else:
            rec["r"] = "SURVIVED"
            for c in checks:
                rc, o = sh("timeout 600 python3 check.py %s" % c, verif, {"KV_REPO": repo, "VERIF_SEED": str(1 + n % 3)}, 610)
                if rc == 1:
                    rec["r"] = "caught " + c
                    break
                if rc:
                    rec["r"] = "compile" if "build of driver" in o else "no answer %s %d" % (c, rc)
                    if rec["r"] != "compile":
                        rec["o"] = o[-600:]
                    break
        rec["t"] = round(time.time() - t0)
        open(out, "a").write(json.dumps(rec) + "\n")
        open(path, "w").write(text)
        if rec["r"] != "compile":
            n += 1


main()
