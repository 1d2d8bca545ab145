"""Common machinery of the model-based checks: building the drivers, running
them on cases, running TLC, and reporting."""
import json, os, random, re, resource, shutil, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPECS = os.path.join(VERIF, "specs")
TLA = "/opt/veriftools/tla"

CARGO_ENV = {
    "HOME": "/root",
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never",
    "RUSTC_WRAPPER": "",
    "CARGO_INCREMENTAL": "0",
    "CARGO_PROFILE_DEV_DEBUG": "0",
}


class ToolError(Exception):
    """The check could not be carried out (exit 2)."""


# --------------------------------------------------------------------------
# overlay workspace: /repo's crates by symbolic link, plus stand-ins for source
# files the pinned commit lacks (keramics-compression/src/lzxpress.rs)

LZXPRESS_STUB = """// Stand-in: the pinned commit declares this module but does not contain it.
use keramics_core::ErrorTrace;
macro_rules! stub {
    ($name:ident) => {
        #[derive(Default)]
        pub struct $name {
            pub uncompressed_data_size: usize,
        }
        impl $name {
            pub fn new() -> Self {
                Self { uncompressed_data_size: 0 }
            }
            pub fn decompress(&mut self, _: &[u8], _: &mut [u8]) -> Result<(), ErrorTrace> {
                Err(ErrorTrace::new("lzxpress is not part of this commit".to_string()))
            }
        }
    };
}
stub!(LzxpressContext);
stub!(LzxpressHuffmanContext);
"""


def make_overlay():
    ov = os.path.join(BUILD, "overlay")
    if os.path.isdir(ov):
        shutil.rmtree(ov)
    os.makedirs(ov)
    for name in sorted(os.listdir(REPO)):
        src = os.path.join(REPO, name)
        dst = os.path.join(ov, name)
        if name in ("target", ".git", "Cargo.lock"):
            continue
        if name == "keramics-compression":
            os.makedirs(os.path.join(dst, "src"))
            for sub in os.listdir(src):
                if sub != "src":
                    os.symlink(os.path.join(src, sub), os.path.join(dst, sub))
            for sub in os.listdir(os.path.join(src, "src")):
                os.symlink(os.path.join(src, "src", sub), os.path.join(dst, "src", sub))
            stub = os.path.join(dst, "src", "lzxpress.rs")
            if not os.path.exists(stub):
                with open(stub, "w") as f:
                    f.write(LZXPRESS_STUB)
        elif name.startswith("keramics-") and os.path.isdir(src):
            os.makedirs(dst)
            for sub in os.listdir(src):
                os.symlink(os.path.join(src, sub), os.path.join(dst, sub))
        else:
            os.symlink(src, dst)
    return ov


def build_driver(name):
    """Builds driver/<name> against /repo's current tree; returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    make_overlay()
    crate = os.path.join(VERIF, "driver", name)
    env = dict(os.environ)
    env.update(CARGO_ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["RUSTFLAGS"] = "--cfg keramics_verif -Awarnings"
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(crate, "Cargo.toml")]
    t = time.time()
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("build of driver %s failed:\n%s" % (name, p.stdout[-6000:]))
    return os.path.join(BUILD, "target", "debug", "kv-driver-" + name), time.time() - t


def build_tools():
    """Builds the command line tools of /repo's current tree; returns their directory."""
    os.makedirs(BUILD, exist_ok=True)
    ov = make_overlay()
    # the versions of the other libraries that the repository asks for, if it says so
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(ov, "Cargo.lock"))
    env = dict(os.environ)
    env.update(CARGO_ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["RUSTFLAGS"] = "--cfg keramics_verif -Awarnings"
    cmd = ["cargo", "build", "--offline", "--quiet", "--bins", "--manifest-path", os.path.join(ov, "keramics-tools", "Cargo.toml")]
    t = time.time()
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("build of the tools failed:\n%s" % p.stdout[-6000:])
    return os.path.join(BUILD, "target", "debug"), time.time() - t


# --------------------------------------------------------------------------

class Check:
    current = None

    def __init__(self, prop, level="model_checking"):
        Check.current = self
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d/%s" % (prop, self.seed, self.tier))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []  # (key, detail)
        self.samples = []
        self.notes = []
        self.parts = {}
        self.assumptions = []
        self.dir = os.path.join(BUILD, "run", prop)
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- drivers ----------------------------------------------------------
    def build(self, name):
        path, secs = build_driver(name)
        self.log("driver %s built in %.1fs" % (name, secs))
        return path

    def build_tools(self):
        path, secs = build_tools()
        self.log("tools built in %.1fs" % secs)
        return path

    def drive(self, binary, cases, timeout=20, mem_gb=6, args=()):
        """Runs the driver over the cases; returns one result per case.  A panic, crash
        or hang of the code under test is a result, not an error of the check."""
        n = len(cases)
        results = [None] * n
        start = 0
        env = dict(os.environ)
        env["RUST_BACKTRACE"] = "0"
        tag = "drv%d" % len(self.parts)
        lost = 0
        again, trust = -1, False   # a case that seems to hang is run a second time, with more time
        while start < n:
            fin = os.path.join(self.dir, tag + ".in")
            fout = os.path.join(self.dir, tag + ".out")
            with open(fin, "w") as f:
                for c in cases[start:]:
                    f.write(json.dumps(c) + "\n")
            open(fout, "w").close()

            def lim():
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

            with open(fin) as i, open(fout, "a") as o, open(os.path.join(self.dir, tag + ".err"), "w") as e:
                p = subprocess.Popen([binary] + list(args), stdin=i, stdout=o, stderr=e, env=env,
                                     preexec_fn=lim, cwd=self.dir)
                last, lastt, killed = -1, time.time(), False
                while True:
                    try:
                        p.wait(0.05)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    sz = os.path.getsize(fout)
                    if sz != last:
                        last, lastt = sz, time.time()
                    elif time.time() - lastt > timeout * (2 if again == start and last == 0 else 1):
                        p.kill()
                        p.wait()
                        killed = True
                        break
            done = 0
            with open(fout) as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    if not line.startswith("@"):
                        continue  # stray output of the code under test
                    results[start + done] = json.loads(line[1:])
                    done += 1
            start += done
            if start < n and not trust and again != start and (killed or p.returncode == -9):
                again = start
            elif start < n:
                trust = killed
                results[start] = {"hang": True} if killed else {"crash": p.returncode}
                start += 1
                lost += 10 if killed else 1
                if lost > 40:
                    for k in range(start, n):
                        results[k] = {"skipped": True}
                    break
        self.parts.setdefault("driver_cases", 0)
        self.parts["driver_cases"] += n
        return results

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, xmx="8g", simulate=None,
            depth=None, count=True, extra=()):
        """Runs TLC; returns its output.  Violations of the specification's own
        invariants are tool errors (the specification is wrong)."""
        cfg = cfg or module + ".cfg"
        meta = os.path.join(self.dir, "tlc-" + module)
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss1000m", "-cp",
               TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-fpmem", "0.2",
               "-deadlock", "-config", cfg]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd += list(extra) + [module + ".tla"]
        t = time.time()
        outp = os.path.join(self.dir, "tlc-%s.out" % module)
        with open(outp, "w") as o:
            try:
                p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s did not finish within %ds" % (module, timeout))
        with open(outp, errors="replace") as f:
            out = f.read()
        shutil.rmtree(meta, ignore_errors=True)
        if p.returncode != 0:
            e = ToolError("TLC on %s (%s) exit %d:\n%s" % (module, cfg, p.returncode, out[-5000:]))
            e.out = out
            raise e
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen = dis = 0
        if m:
            gen, dis = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                gen = dis = int(m[-1].replace(",", ""))
        if count:
            self.states += dis
            self.transitions += gen
        self.log("TLC %s/%s: %d distinct states, %d generated, %.1fs" % (module, cfg, dis, gen, time.time() - t))
        self.parts["tlc " + os.path.basename(cfg).replace(".cfg", "")] = {"distinct": dis, "generated": gen}
        return out, dis, gen

    def write_ndjson(self, name, rows):
        p = os.path.join(self.dir, name)
        with open(p, "w") as f:
            for r in rows:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        return p

    def validate(self, module, traces, expect_states=None, chunk=None, cfg=None, env=None, timeout=800,
                 workers=8, describe=None, oplen=None):
        """Trace validation.  Each trace is a record with a field `ops` (a sequence of
        events with the recorded observations).  The trace specification walks every
        trace against the model, prints a BAD line at the first event that the model
        does not allow and stops there.  Returns {trace index: (event index, expected)}."""
        bad = {}
        if not traces:
            return bad
        chunk = chunk or len(traces)
        k = 0
        for base in range(0, len(traces), chunk):
            where = list(range(base, min(len(traces), base + chunk)))
            for attempt in range(8):
                part = [traces[i] for i in where]
                p = self.write_ndjson("%s.%d.ndjson" % (module, k), part)
                k += 1
                ev = dict(env or {})
                ev["KV_CASES"] = p
                try:
                    out, dis, gen = self.tlc(module, cfg=cfg, env=ev, timeout=timeout, workers=workers)
                except ToolError as e:
                    # an observation of a shape that the specification cannot be evaluated on is none it allows
                    text = getattr(e, "out", "")
                    at = re.search(r"The behavior up to this point is:.*?(?=\d+ states generated|$)", text, re.S)
                    at = re.findall(r"/\\ (idx|pos) = (\d+)", at.group()) if at else []
                    if len(at) < 2 or re.search(r"StackOverflow|OutOfMemory|heap space|GC overhead", text):
                        raise
                    at = dict(at)
                    why = re.search(r"^Error: .*(?:\n(?!Error).*){0,3}", text, re.M).group()
                    self.log("evaluation fails at trace %s event %s" % (at["idx"], at["pos"]))
                    bad[where.pop(int(at["idx"]) - 1)] = (int(at["pos"]) - 1, "evaluation fails: " + why[:500])
                    if not where or attempt == 7:
                        break
                    continue
                short = 0
                for line in out.splitlines():
                    line = line.strip().strip('"')
                    if line.startswith("BADCASE "):
                        _, i, pos, exp = line.split(" ", 3)
                        i = int(i) - 1
                        if where[i] not in bad:
                            short += (oplen(part[i]) if oplen else len(part[i]["ops"])) - int(pos) + 1
                        bad.setdefault(where[i], (int(pos) - 1, exp.replace('\\"', '"')))
                # every trace must have ended in a verdict: the walk is vacuous otherwise
                full = sum((oplen(t) if oplen else len(t["ops"])) + 2 for t in part)
                if dis != full - short:
                    raise ToolError("trace walk of %s visited %d states, %d expected" % (module, dis, full - short))
                break
            self.traces += len(where)
        return bad

    # -- reporting ---------------------------------------------------------
    def violation(self, key, detail):
        self.violations.append((key, detail))

    def unlisted(self):
        known = load_known(self.prop)
        return [k for k, _ in self.violations if not any(re.fullmatch(x["match"], k) for x in known)]

    def sample(self, s):
        if len(self.samples) < 6:
            s = json.loads(json.dumps(s, default=str))
            txt = json.dumps(s)
            self.samples.append(s if len(txt) < 1500 else txt[:1500] + "...")

    def finish(self, extra=None):
        known = load_known(self.prop)
        seen_known = {}
        fresh = []
        for key, detail in self.violations:
            k = next((k for k in known if re.fullmatch(k["match"], key)), None)
            if k:
                seen_known.setdefault(k["match"], (k, key))
            else:
                fresh.append((key, detail))
        for k, key in seen_known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples,
            "parts": self.parts,
        }
        if extra:
            cov.update(extra)
        ev = {
            "property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
            "level": self.level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            if os.environ.get("KV_ALL"):
                with open(os.environ["KV_ALL"], "w") as f:
                    json.dump(fresh, f, default=str)
            os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
            seen = set()
            for key, detail in fresh:
                cls = key.split("|")[0]
                if cls in seen or len(seen) > 8:
                    continue
                seen.add(cls)
                rp = os.path.join(BUILD, "replay", "%s-%d.json" % (self.prop, len(seen)))
                with open(rp, "w") as f:
                    json.dump({"property": self.prop, "seed": self.seed, "key": key, "detail": detail}, f, indent=1,
                              default=str)
                print("violation %s: %s" % (key, json.dumps(detail, default=str)[:700]))
                print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            self.log("%d violation(s)" % len(fresh))
            return 1
        self.log("ok: %d states, %d transitions, %d traces validated" % (self.states, self.transitions, self.traces))
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def abnormal(res):
    """The code under test panicked, crashed or hung."""
    return isinstance(res, dict) and any(k in res for k in ("panic", "crash", "hang"))


def found():
    """The violations found before the check broke down are reported all the same."""
    return Check.current.finish({"broken": True}) if Check.current and Check.current.unlisted() else 2


def main(argv):
    import importlib
    prop = argv[1]
    sys.path.insert(0, os.path.join(VERIF, "props"))
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    try:
        mod = importlib.import_module(prop.lower())
        rc = mod.main()
    except ToolError as e:
        print("ERROR of the check: %s" % e)
        rc = found()
    except Exception:
        traceback.print_exc()
        rc = found()
    sys.exit(rc)
