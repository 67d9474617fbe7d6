#!/usr/bin/env python3
"""seed.py FILE [ID ...]: tries the planted bugs described in FILE (a Python list BUGS of dicts with id, property, file, edits
[(old, new)], needs, breaks, demo, and optionally features) in a scratch copy of /repo, and keeps in /verif/seeded those that
build, pass the existing tests and fail their demonstration."""
import concurrent.futures as cf
import json, os, queue, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/seedwork"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
DEMO = """#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
rpds = { path = "$PWD"FEATURES }
archery = { version = "1.2.2", features = ["triomphe"] }DEPS
END
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" cargo build -q --offline 2> "$t/log" || { cat "$t/log"; exit 2; }
RUST_BACKTRACE=0 timeout 60 "$t/target/debug/demo"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def try_bug(b, SW):
    sh("git checkout -q -- .", SW)
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        p = os.path.join(SW, "src", f)
        s = open(p).read()
        if s.count(old) != 1:
            return "EDIT matches %d %r" % (s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    r = sh("cargo check --lib --no-default-features --offline && cargo check --lib --offline", SW)
    if r.returncode != 0:
        return "NO BUILD " + r.stdout[-1500:]
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 4", SW)
    if r.returncode != 0:
        return "TESTS " + " ".join(l for l in r.stdout.splitlines() if "FAILED" in l)[:300]
    d = os.path.join(ROOT, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    feats = b.get("features", [])
    deps = "".join("\n" + x for x in b.get("deps", []))
    open(os.path.join(d, "demo.sh"), "w").write(
        DEMO.replace("FEATURES", ", features = %s" % json.dumps(feats) if feats else "").replace("DEPS", deps))
    open(os.path.join(d, "demo.rs"), "w").write(b["demo"].strip() + "\n")
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", SW).stdout)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    p = sh("bash %s/demo.sh" % d, SW)
    sh("git checkout -q -- .", SW)
    u = sh("bash %s/demo.sh" % d, SW)
    if u.returncode != 0 or p.returncode == 0 or p.returncode == 2:
        shutil.rmtree(d)
        return "DEMO unpatched %d patched %d %s" % (u.returncode, p.returncode, (u.stdout + p.stdout)[-800:])
    return "KEPT; demo: %s" % p.stdout.strip().splitlines()[-2:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    bugs = [b for b in ns["BUGS"] if not want or b["id"] in want]
    free = queue.Queue()
    for i in range(3):
        w = SW + str(i)
        if not os.path.exists(w):
            subprocess.run(["cp", "-a", "/repo", w], check=True)
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", w)
        free.put(w)

    def one(b):
        w = free.get()
        try:
            print(b["id"], try_bug(b, w), flush=True)
        finally:
            free.put(w)
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(one, bugs))


main()
