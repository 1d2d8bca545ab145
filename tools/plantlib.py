"""Plants a bug: writes /verif/seeded/<id>/ from a list of edits and confirms, in a scratch copy
of /repo, that it builds, passes the stable tests, and that the demonstration tells it from the
original. Never touches /repo."""
import json, os, re, shutil, subprocess, sys

SCRATCH = "/tmp/seedwork"
ROOT = "/verif/seeded"
DEMO = """#!/bin/bash
# Builds a small program against the crates in the current directory and runs it.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%(overlay)s
mkdir -p "$T/demo/src"
cp "$HERE/main.rs" "$T/demo/src/main.rs"
cat > "$T/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
%(deps)s
EOF
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$T/demo/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cargo build --offline -q --manifest-path "$T/demo/Cargo.toml" 2> "$T/log" || { cat "$T/log"; exit 3; }
cd "$T"
timeout 60 "$T/target/debug/demo"
"""
OVERLAY = """# keramics-compression lacks src/lzxpress.rs at this commit: build from copies with a stand-in.
mkdir -p "$T/crates"
for d in "$REPO"/keramics-*; do cp -r "$d" "$T/crates/"; done
cp "$REPO/Cargo.toml" "$T/crates/Cargo.toml"
sed -i '/docs.mdbook-tables/d; /".\\/fuzz"/d; /keramics-python/d' "$T/crates/Cargo.toml"
cp "$REPO/Cargo.lock" "$T/crates/Cargo.lock" 2>/dev/null || true
X="$T/crates/keramics-compression/src/lzxpress.rs"
if [ ! -f "$X" ]; then
cat > "$X" <<'EOF'
%s
EOF
fi
"""


def run(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def fresh():
    if not os.path.isdir(SCRATCH + "/repo"):
        os.makedirs(SCRATCH, exist_ok=True)
        run("cp -a /repo %s/repo" % SCRATCH)
    run("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target", cwd=SCRATCH + "/repo")


def tests():
    pk = re.search(r'PKGS="([^"]*)"', open("/opt/vp/env.sh").read()).group(1)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    rc, out = run("cargo test %s --no-fail-fast --offline -- --test-threads 8" % pk, cwd=SCRATCH + "/repo", env=env)
    failed = re.findall(r"^test (\S+) \.\.\. FAILED", out, re.M)
    passed = len(re.findall(r"^test .* \.\.\. ok$", out, re.M))
    return rc, passed, failed, out


def plant(id, prop, needs, breaks, edits, main, deps, overlay=False, keep_demo=None):
    d = "%s/%s" % (ROOT, id)
    os.makedirs(d, exist_ok=True)
    fresh()
    repo = SCRATCH + "/repo"
    for f, old, new in edits:
        s = open("%s/%s" % (repo, f)).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open("%s/%s" % (repo, f), "w").write(s.replace(old, new))
    rc, diff = run("git diff", cwd=repo)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(main)
    base = '$T/crates' if overlay else '$REPO'
    dep = "\n".join('%s = { path = "%s/%s" }' % (x, base, x) if "=" not in x else x for x in deps)
    stub = ""
    if overlay:
        sys.path.insert(0, "/verif/lib")
        import kv
        stub = OVERLAY % kv.LZXPRESS_STUB.strip()
    open(d + "/demo.sh", "w").write(DEMO % {"deps": dep, "overlay": stub})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    rc, passed, failed, out = tests()
    if rc:
        print(id, "TESTS FAIL", passed, failed, out[-1500:] if not failed else "")
        return False
    rb, ob = run("bash %s/demo.sh" % d, cwd=repo)
    run("git checkout -q -- .", cwd=repo)
    rg, og = run("bash %s/demo.sh" % d, cwd=repo)
    ok = rb != 0 and rb != 3 and rg == 0
    print(id, "ok" if ok else "NOT OK", "tests", passed, "bad", rb, ob.strip()[-200:], "good", rg, og.strip()[-300:])
    return ok
