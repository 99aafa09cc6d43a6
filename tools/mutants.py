#!/usr/bin/env python3
"""Systematic small changes to /repo/src, to look for gaps in the checks.

  mutants.py gen OUT.json [FILE…]           list the changes
  mutants.py test IN.json OUT.json [N]      which of them build and pass the existing tests (in N scratch copies)
  mutants.py check IN.json OUT.json [N]     which of those the quick checks catch (in N scratch copies of /repo and /verif)
Nothing in /repo or /verif is touched; scratch copies live in /tmp/mut and are removed at the end."""
import json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
FILES = ["src/vec.rs", "src/hashmap.rs", "src/boxed.rs", "src/arc.rs", "src/rc.rs", "src/format.rs", "src/try_clone.rs",
         "src/btree/search.rs", "src/btree/node.rs", "src/btree/map.rs", "src/btree/set.rs"]
SUBS = [(r"(?<![-=<>|])<(?![=<])(?= )", ["<="]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
        (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+ 1\b", [""]), (r" - 1\b", [""]),
        (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \* ", [" + "]), (r" / ", [" * "]),
        (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b([2-9]|1\d)\b", [None]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!(?=[a-z(])", [""]),
        (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]), (r"\bIncluded\b", ["Excluded"]), (r"\bExcluded\b", ["Included"]),
        (r"\bfirst_(?=leaf|edge|kv)", ["last_"]), (r"\blast_(?=leaf|edge|kv)", ["first_"]), (r"\bleft_(?=kv|edge)", ["right_"]), (r"\bright_(?=kv|edge)", ["left_"]),
        (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\bfront\b", ["back"]), (r"\bback\b", ["front"]),
        (r"\bnext\(", ["next_back("]), (r"\bnext_back\(", ["next("]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
        (r"\bself\.a\b", ["self.b"]), (r"\bself\.b\b", ["self.a"]), (r"\ba_next\b", ["b_next"]), (r"\bb_next\b", ["a_next"]),
        (r"\bCAPACITY\b", ["(CAPACITY - 1)", "(CAPACITY + 1)"]), (r"\bMIN_LEN\b", ["(MIN_LEN - 1)", "(MIN_LEN + 1)"]), (r"\bB\b(?=[ ;)])", ["(B - 1)"]),
        (r"\bSome\(([a-z_.]+)\)(?=[,;]?$)", ["None"]), (r"\?;", [".ok();"]), (r"\btry_reserve\(self, [^;]*\)\?", ["try_reserve(self, 1)?"]),
        (r"\bcopy_nonoverlapping\b", ["copy"]), (r"\bptr::copy\b", ["ptr::copy_nonoverlapping"]),
        (r"\bread\(", ["read_unaligned("]), (r"\bis_some\(", ["is_none("]), (r"\bis_none\(", ["is_some("]), (r"\bis_ok\(", ["is_err("]), (r"\bis_err\(", ["is_ok("]),
        (r"\b(self|other)\.len\(\)", [None, "0"]), (r"\bforget\(", ["drop("])]


def code_lines(text):
    """Line numbers of code outside tests and comments."""
    out, skip, depth = [], None, 0
    lines = text.split("\n")
    pend = False
    for i, l in enumerate(lines):
        s = l.strip()
        if skip is None and re.match(r"#\[(cfg\(test\)|test)\]", s):
            pend = True
        opens, closes = l.count("{"), l.count("}")
        if pend and opens and skip is None:
            skip, pend = depth, False
        depth += opens - closes
        if skip is not None:
            if depth <= skip:
                skip = None
            continue
        if pend or not s or s.startswith(("//", "#", "use ", "pub use", "*", "mod ", "pub mod")):
            continue
        out.append(i)
    return out


def gen(files):
    ms = []
    for f in files:
        text = open(os.path.join(R, f)).read()
        lines = text.split("\n")
        for i in code_lines(text):
            l = lines[i]
            code = l.split("//")[0]
            seen = set()

            def add(new, what):
                if new != l and new not in seen:
                    seen.add(new)
                    ms.append({"file": f, "line": i + 1, "old": l, "new": new, "what": what})
            if re.search(r"\b(fn|impl|struct|enum|trait|where|type|const|macro_rules)\b", code) and "{" not in code.split("fn")[-1][-3:] and not re.search(r"\bconst\b.*=|= .*;", code):
                continue
            if re.match(r"\s*(pub )?(unsafe )?(fn|impl|struct|enum|trait|type)\b", code):
                continue
            for pat, reps in SUBS:
                for m in re.finditer(pat, code):
                    for rep in reps:
                        if rep is None:
                            if m.group(0).isdigit():
                                r = str(int(m.group(0)) + 1)
                            else:
                                r = "(" + m.group(0) + " + 1)"
                        else:
                            r = rep
                        add(l[:m.start()] + r + l[m.end():], "%s -> %s" % (m.group(0).strip(), r.strip()))
            st = code.strip()
            if st.endswith(";") and not re.match(r"(let|return|break|continue|\}|\)|\.|const|static)\b|[})\].]", st) and st.count("(") == st.count(")"):
                add(l[:len(l) - len(l.lstrip())] + "{}", "delete " + st[:60])
    return ms


def worker_repo(w):
    d = "/tmp/mut/%d" % w
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/repo"):
        subprocess.run(["cp", "-a", R, d + "/repo"], check=True)
    return d


def apply(d, m):
    p = os.path.join(d, "repo", m["file"])
    orig = open(os.path.join(R, m["file"])).read()
    ls = orig.split("\n")
    assert ls[m["line"] - 1] == m["old"]
    ls[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(ls))


def undo(d, m):
    shutil.copy(os.path.join(R, m["file"]), os.path.join(d, "repo", m["file"]))


def sh(cmd, cwd, t, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(["timeout", "-k", "5", str(t)] + cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout
    except Exception as x:
        return 99, str(x)


def test_one(d, m):
    apply(d, m)
    try:
        btree = "btree" in m["file"]
        for tc, feat in ([("nightly-2024-11-07", "unstable,std_io")] if btree else
                         [] if "hashmap" in m["file"] else [("nightly-2024-11-07", "unstable,std_io")]) + ([] if btree else [("stable", "hashmap,std_io")]):
            rc, out = sh(["cargo", "test", "--offline", "--features", feat, "--no-run"], d + "/repo", 180,
                         {"RUSTUP_TOOLCHAIN": tc, "CARGO_TARGET_DIR": d + "/t-" + tc, "RUSTFLAGS": "-Awarnings"})
            if rc != 0:
                return "no build"
            rc, out = sh(["bash", "-c", "ulimit -v 16000000; exec cargo test --offline --features " + feat + " -- --test-threads 2"], d + "/repo", 60,
                         {"RUSTUP_TOOLCHAIN": tc, "CARGO_TARGET_DIR": d + "/t-" + tc, "RUSTFLAGS": "-Awarnings"})
            if rc != 0:
                return "killed by tests"
        return "survives"
    finally:
        undo(d, m)


ORDER = {"src/vec.rs": "C14 C15 C13 C16 C17 C18 C24", "src/hashmap.rs": "C21 C22 C13", "src/boxed.rs": "C19 C24", "src/arc.rs": "C20", "src/rc.rs": "C20",
         "src/format.rs": "C23 C13", "src/try_clone.rs": "C24 C14 C17",
         "src/btree/search.rs": "C01 C03 C05 C04 C11 C09 C10", "src/btree/node.rs": "C01 C04 C09 C08 C05 C02 C03 C11 C12 C10 C07 C06 C26",
         "src/btree/map.rs": "C01 C02 C03 C05 C04 C12 C08 C26 C09 C11 C10 C07 C06", "src/btree/set.rs": "C07 C06 C02 C03 C26 C04 C12 C09 C10 C08"}


def check_one(d, m):
    apply(d, m)
    log = []
    try:
        for p in m.get("order", ORDER[m["file"]]).split():
            rc, out = sh(["python3", "check.py", p, "quick"], d + "/verif", 3600, {"VF_JOBS": str(JOBS), "VF_BUDGET": "3000"})
            if rc == 1 and "VIOLATION property=" + p in out:
                first = [l for l in out.split("\n") if l.startswith("  ")][:1]
                return "caught", p, (first or [""])[0].strip()[:160]
            if rc != 0:
                log.append("%s exit %d: %s" % (p, rc, out[-300:]))
        return "missed", "", "; ".join(log)
    finally:
        undo(d, m)


JOBS = 2


def pool(ms, n, prep, one, out):
    res, lock, it = [], threading.Lock(), iter(list(enumerate(ms)))
    t0 = time.time()

    def work(w):
        d = prep(w)
        while True:
            with lock:
                x = next(it, None)
            if x is None:
                return
            i, m = x
            r = one(d, m)
            with lock:
                m = dict(m, result=r)
                res.append(m)
                if len(res) % 20 == 0:
                    print("%d/%d %.0fs" % (len(res), len(ms), time.time() - t0), flush=True)
                json.dump(res, open(out + ".part", "w"))
    ts = [threading.Thread(target=work, args=(w,)) for w in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(res, open(out, "w"), indent=0)
    os.path.exists(out + ".part") and os.remove(out + ".part")
    shutil.rmtree("/tmp/mut", ignore_errors=True)
    return res


def worker_verif(w):
    d = worker_repo(w)
    if not os.path.exists(d + "/verif"):
        os.makedirs(d + "/verif")
        for x in ("engine", "harness", "checks", "check.py", "known_findings.txt", "MANIFEST.json", "properties.jsonl"):
            subprocess.run(["cp", "-a", os.path.join(V, x), d + "/verif/"], check=True)
        for k in os.listdir(d + "/verif/harness"):
            p = d + "/verif/harness/" + k + "/Cargo.toml"
            if os.path.exists(p):
                t = open(p).read()
                open(p, "w").write(t.replace('"/repo"', '"%s/repo"' % d))
    return d


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen":
        ms = gen(a[3:] or FILES)
        json.dump(ms, open(a[2], "w"), indent=0)
        print(len(ms))
    elif a[1] == "test":
        res = pool(json.load(open(a[2])), int(a[4]) if len(a) > 4 else 8, worker_repo, test_one, a[3])
        from collections import Counter
        print(Counter(m["result"] for m in res))
    else:
        n = int(a[4]) if len(a) > 4 else 4
        JOBS = max(1, int(os.environ.get("MUT_CORES", "8")) // n)
        ms = [m for m in json.load(open(a[2])) if m.get("result", "survives") == "survives"]
        res = pool(ms, n, worker_verif, check_one, a[3])
        for m in res:
            print(m["result"][0], m["result"][1], "%s:%d" % (m["file"], m["line"]), m["what"], "|", m["result"][2])
