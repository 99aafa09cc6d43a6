#!/usr/bin/env python3
"""Make seeded/<id>/ from a description module (tools/seeds.py): patch.diff, demo.sh, demo.rs, meta.json.
Works in a scratch copy of /repo; nothing in /repo is touched. `mkseed.py all` or `mkseed.py ID...`."""
import json, os, shutil, subprocess, sys, tempfile
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
sys.path.insert(0, T)
import seeds

DEMO = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken. Builds demo.rs against the crate in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
fallible_collections = { path = "$R", default-features = false, features = [@FEAT@] }
[workspace]
[profile.dev]
opt-level = 1
debug-assertions = false
overflow-checks = false
E
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock.repo"
cd "$W" || exit 2
export CARGO_TARGET_DIR="$W/target" RUSTUP_TOOLCHAIN=@TC@ CARGO_INCREMENTAL=0
unset RUSTFLAGS
cargo build --offline > build.log 2>&1 || { cat build.log; exit 3; }
ulimit -v 8000000
timeout 120 ./target/debug/demo
rc=$?
if [ $rc -ne 0 ]; then echo "demo failed with status $rc"; exit 1; fi
exit 0
'''

ENV = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]

def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def tests(r):
    for tc, feat in (("stable", "hashmap,std_io"), ("nightly-2024-11-07", "unstable,std_io")):
        rc, out = run(["cargo", "+" + tc, "test", "--offline", "--no-fail-fast", "--features", feat], r)
        if rc != 0:
            return "tests fail (%s):\n%s" % (tc, "\n".join(l for l in out.split("\n") if "FAILED" in l or "error" in l or "failed" in l)[:1500])
    for tc, feat in (("stable", "--no-default-features"), ("stable", "--features=std"), ("nightly-2024-11-07", "--features=unstable")):
        rc, out = run(["cargo", "+" + tc, "build", "--offline", feat], r)
        if rc != 0:
            return "does not build (%s %s):\n%s" % (tc, feat, out[-1500:])
    return None

def make(sid, s, scratch):
    r = os.path.join(scratch, "repo")
    run(["git", "checkout", "-q", "--", "."], r)
    for f, old, new in s["edits"]:
        p = os.path.join(r, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            return "%s: pattern occurs %d times: %s" % (f, n, old[:60])
        open(p, "w").write(t.replace(old, new))
    rc, diff = run(["git", "diff"], r)
    d = os.path.join(V, "seeded", sid)
    tmp = os.path.join(scratch, sid)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/patch.diff", "w").write(diff)
    feat, tc = ('"unstable", "std_io"', "nightly-2024-11-07") if s.get("kind", "bt") == "bt" else ('"hashmap", "std_io"', "stable")
    open(tmp + "/demo.sh", "w").write(DEMO.replace("@FEAT@", feat).replace("@TC@", tc)
                                       .replace("debug-assertions = false\noverflow-checks = false", "debug-assertions = true\noverflow-checks = true")
                                       if s.get("dev") else DEMO.replace("@FEAT@", feat).replace("@TC@", tc))
    os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/demo.rs", "w").write(s["demo"].strip() + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    e = tests(r)
    if e:
        return e
    rc, out = run(["bash", tmp + "/demo.sh"], r)
    if rc == 0:
        return "the demo does not fail with the change"
    if "status" not in out:
        return "the demo does not build: " + out[-1500:]
    why = out[-300:]
    run(["git", "checkout", "-q", "--", "."], r)
    rc, out = run(["bash", tmp + "/demo.sh"], r)
    if rc != 0:
        return "the demo fails without the change: " + out[-1500:]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    return "OK  (demo with the change: %s)" % why.strip().replace("\n", " | ")[-200:]

def main():
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = list(seeds.S)
    elif ids == ["new"]:
        ids = [i for i in seeds.S if not os.path.isdir(os.path.join(V, "seeded", i))]
    scratch = tempfile.mkdtemp(prefix="seedwork")
    try:
        run(["cp", "-a", "/repo", os.path.join(scratch, "repo")], "/")
        for i in ids:
            print(i, make(i, seeds.S[i], scratch))
            sys.stdout.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

main()
