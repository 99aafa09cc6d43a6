#!/usr/bin/env python3
"""Driver: check.py PROPERTY quick|thorough   (or: check.py setup)

Builds the symbolic executor and the property's harness against /repo's current working tree, runs every
job of checks/spec.py in the executor, replays counterexamples against the really compiled code, compares
sampled paths with it, and writes evidence/PROPERTY.json.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "checks"))
import spec  # noqa: E402

HOME = "/root"
RUSTUP = os.environ.get("RUSTUP_HOME", HOME + "/.rustup")
LLVM = RUSTUP + "/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin"
# bt: nightly with `unstable`; st: stable with `hashmap,std_io`; hb: stable with `hashmap` alone (no std: hashbrown's table)
TOOLCHAIN = {"bt": "nightly-2024-11-07", "st": "stable", "hb": "stable"}
# the same with debug assertions and overflow checks, as in a development build
BASE = {"bd": "bt", "sd": "st"}
BUILD = os.path.join(V, ".build")
FILLS = ("165", "0")


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e["HOME"] = HOME
    e["PATH"] = HOME + "/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_engine():
    t = os.path.join(BUILD, "engine")
    rc, out = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"),
                 env={"RUSTUP_TOOLCHAIN": "stable", "CARGO_TARGET_DIR": t})
    if rc != 0:
        die("the executor does not build:\n" + out[-4000:])
    return os.path.join(t, "release", "fcsym")


def module_of(kind, pid):
    kind = BASE.get(kind, "st" if kind == "hb" else kind)
    p = os.path.join(V, "harness", "src", kind, pid.lower() + ".rs")
    return p if os.path.exists(p) else os.path.join(V, "harness", "src", "both", pid.lower() + ".rs")


def build_ir(kind, pid, work):
    """LLVM IR of the property's harness with /repo's current sources linked in."""
    t = os.path.join(work, kind + "-ir")
    base = BASE.get(kind, kind)
    rc, out = sh(["cargo", "rustc", "--release", "--offline", "--locked", "--features", pid.lower()],
                 cwd=os.path.join(V, "harness", base + "-ir"),
                 env={"RUSTUP_TOOLCHAIN": TOOLCHAIN[base], "CARGO_TARGET_DIR": t,
                      "RUSTFLAGS": "-Awarnings -C no-prepopulate-passes -C save-temps" +
                      (" -C debug-assertions=on -C overflow-checks=on" if kind in BASE else "")})
    if rc != 0:
        return None, out
    deps = os.path.join(t, "release", "deps")
    bcs = [f for f in os.listdir(deps) if f.endswith(".lto.input.bc")]
    if len(bcs) != 1:
        return None, "expected one linked bitcode file, found %r" % bcs
    src = open(module_of(kind, pid)).read()
    names = re.findall(r'extern "C-unwind" fn (\w+)', src)
    opt = os.path.join(work, kind + ".bc")
    ll = os.path.join(work, kind + ".ll")
    passes = ("internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),"
              "function(sroa,early-cse,simplifycfg),globaldce")
    rc, out = sh([LLVM + "/opt", "-passes=" + passes, "-internalize-public-api-list=" + ",".join(names),
                  os.path.join(deps, bcs[0]), "-o", opt])
    if rc != 0:
        return None, out
    rc, out = sh([LLVM + "/llvm-dis", opt, "-o", ll])
    if rc != 0:
        return None, out
    shutil.rmtree(t, ignore_errors=True)
    os.remove(opt)
    return ll, ""


def build_rt(kind, pid, work, profile):
    t = os.path.join(work, kind + "-rt-" + profile)
    cmd = ["cargo", "build", "--offline", "--locked", "--features", pid.lower()]
    if profile == "release":
        cmd.append("--release")
    rc, out = sh(cmd, cwd=os.path.join(V, "harness", kind + "-rt"),
                 env={"RUSTUP_TOOLCHAIN": TOOLCHAIN[kind], "CARGO_TARGET_DIR": t, "RUSTFLAGS": "-Awarnings"})
    if rc != 0:
        return None, out
    b = os.path.join(t, "release" if profile == "release" else "debug", kind + "_rt")
    dst = os.path.join(work, kind + "_rt_" + profile)
    shutil.copy(b, dst)
    shutil.rmtree(t, ignore_errors=True)
    return dst, ""


def replay(binary, entry, params, inputs, fill):
    try:
        p = subprocess.run([binary, entry, ",".join(map(str, params)), fill], input=" ".join(map(str, inputs)),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return ("hang", "no termination", None)
    out = p.stdout
    m = re.search(r"^VF-VIOLATION (.*)$", out, re.M)
    if m:
        return ("violation", m.group(1), None)
    m = re.search(r"^VF-DIVERGED (.*)$", out, re.M)
    if m:
        return ("diverged", m.group(1), None)
    o = re.search(r"^OBS(.*)$", out, re.M)
    if "VF-OK" in out and o:
        return ("ok", "", [int(x) for x in o.group(1).split()])
    return ("violation", "process ended abnormally (status %d)" % p.returncode, None)


def load_known(pid):
    known = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == pid and k.get("status") == "open":
                    known.append(k)
    return known


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        build_engine()
        print("setup done")
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    prop = spec.PROPS[pid]
    jobs = prop["jobs"](tier)
    if os.environ.get("VF_DEV"):  # development builds only
        jobs = [dict(j, kind=spec.DEV[j["kind"]]) for j in jobs if j["kind"] in spec.DEV]
    only = os.environ.get("VF_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, j["entry"] + " " + ",".join(map(str, j["params"])))]
    kinds = sorted({j["kind"] for j in jobs})
    work = os.path.join(BUILD, "%s-%s" % (pid, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ev_dir = os.path.join(V, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    for f in os.listdir(ev_dir):
        if f.startswith("replay-%s-" % pid):
            os.remove(os.path.join(ev_dir, f))

    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fi = {k: ex.submit(build_ir, k, pid, work) for k in kinds}
        fr = {(k, p): ex.submit(build_rt, k, pid, work, p) for k in {BASE.get(k, k) for k in kinds} for p in ("dev", "release")}
        engine = fe.result()
        ir, rt = {}, {}
        for k in kinds:
            ir[k], out = fi[k].result()
            if ir[k] is None:
                die("harness IR does not build (%s):\n%s" % (k, out[-4000:]))
        for k, p in fr:
            rt[k, p], out = fr[k, p].result()
            if rt[k, p] is None:
                die("harness does not build (%s %s):\n%s" % (k, p, out[-4000:]))
    t_build = time.time() - t0

    known = load_known(pid)
    lock = threading.Lock()
    stop = threading.Event()
    results, confirmed, unconfirmed, known_hits, tool_errors = [], [], [], [], []
    procs = set()
    budget = float(os.environ.get("VF_BUDGET", 600 if tier == "quick" else 3000))

    def known_match(job, v):
        for k in known:
            if k["entry"] == job["entry"] and re.search(k["match"], v["kind"] + ": " + v["msg"]):
                if all(str(job["params"][int(i)]) in map(str, vals) for i, vals in k.get("params", {}).items()):
                    if "inputs" not in k or re.search(k["inputs"], ",".join(map(str, v["inputs"]))):
                        return k
        return None

    def run(ix, job):
        left = budget - (time.time() - t0)
        if stop.is_set() or left < 2:
            return None
        outf = os.path.join(work, "out-%d.json" % ix)
        cmd = [engine, ir[job["kind"]], "--entry", job["entry"], "--param", ",".join(map(str, job["params"])),
               "--time", str(min(job["time"], left)), "--samples", "3", "--seed", str(seed * 1000003 + ix),
               "--out", outf]
        for k, v in job.get("opts", {}).items():
            cmd += ["--" + k, str(v)]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        with lock:
            procs.add(p)
        _, err = p.communicate()
        with lock:
            procs.discard(p)
        if stop.is_set() and p.returncode != 0:
            return None
        if not os.path.exists(outf):
            with lock:
                tool_errors.append("%s %s: executor failed (%s): %s" % (job["entry"], job["params"], p.returncode, err[-600:]))
            return None
        r = json.load(open(outf))
        r["job"] = job
        r["validated"] = 0
        bk = BASE.get(job["kind"], job["kind"])
        bins = [rt[bk, "dev"], rt[bk, "release"]]
        for v in r["violations"]:
            got = None
            for b in bins:
                for fill in FILLS:
                    st, msg, _ = replay(b, job["entry"], job["params"], v["inputs"], fill)
                    if st in ("violation", "hang"):
                        got = (os.path.basename(b), fill, msg)
                        break
                if got:
                    break
            rec = {"property": pid, "entry": job["entry"], "params": job["params"], "kind": v["kind"], "msg": v["msg"],
                   "loc": v["loc"], "stack": v["stack"], "inputs": v["inputs"]}
            if got:
                rec["replayed_with"] = got[0]
                rec["replay_result"] = got[2]
                rec["replay_cmd"] = "echo '%s' | %s %s %s %s" % (
                    " ".join(map(str, v["inputs"])), os.path.join(work, got[0]), job["entry"],
                    ",".join(map(str, job["params"])), got[1])
                k = known_match(job, v)
                with lock:
                    if k:
                        known_hits.append((k, rec))
                    else:
                        confirmed.append(rec)
                        stop.set()
                        for q in procs:
                            q.kill()
            else:
                with lock:
                    unconfirmed.append(rec)
        for s in r["samples"]:
            for b, fill in ((bins[0], FILLS[0]), (bins[1], FILLS[1])):
                st, msg, obs = replay(b, job["entry"], job["params"], s["inputs"], fill)
                if st == "ok" and obs == s["obs"]:
                    r["validated"] += 1
                elif st in ("violation", "hang"):
                    # the compiled code breaks on a path the executor accepted: a difference between builds
                    with lock:
                        rec = {"property": pid, "entry": job["entry"], "params": job["params"], "kind": "replay",
                               "msg": msg, "inputs": s["inputs"], "loc": "", "stack": []}
                        v = {"kind": "replay", "msg": msg, "inputs": s["inputs"]}
                        if not known_match(job, v):
                            confirmed.append(rec)
                            stop.set()
                else:
                    with lock:
                        tool_errors.append("sampled path of %s %s disagrees with the compiled code: %s %s %s vs %s (inputs %s)" % (
                            job["entry"], job["params"], st, msg, obs, s["obs"], s["inputs"]))
        with lock:
            results.append(r)
        if os.environ.get("VF_VERBOSE"):
            print("%-14s %-18s %6.1fs paths %-7d forks %-7d checks %-9d solver %-6d %5.1fs %s %s" % (
                job["entry"], ",".join(map(str, job["params"])), r["wall_s"], r["paths"], r["forks"], r["checks"],
                r["solver"]["queries"], r["solver"]["time_s"], "" if r["exhausted"] else "NOT EXHAUSTED %s" % r["truncated"],
                r["errors"] or ""))
            sys.stdout.flush()
        return r

    order = sorted(enumerate(jobs), key=lambda x: -x[1].get("weight", x[1]["time"]))
    with cf.ThreadPoolExecutor(int(os.environ.get("VF_JOBS", "8"))) as ex:
        list(ex.map(lambda x: run(*x), order))

    # ---------------------------------------------------------------- evidence
    src = "".join(open(module_of(k, pid)).read() for k in kinds)
    want = set(re.findall(r'cover\("([^"]+)"\)', src))
    covers = {}
    for r in results:
        for c, n in r["covers"].items():
            covers[c] = covers.get(c, 0) + n
    missing = sorted(want - set(covers))
    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    funcs = sorted({f for r in results for f in r["functions"]})
    lines = {}
    for r in results:
        for f, ls in r["lines"].items():
            lines.setdefault(f, set()).update(ls)
    errors = {}
    for r in results:
        for k, n in r["errors"].items():
            errors[k] = errors.get(k, 0) + n
    trunc = {}
    for r in results:
        for k, n in r["truncated"].items():
            trunc[k] = trunc.get(k, 0) + n
    exhausted = sum(1 for r in results if r["exhausted"])
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            if len(samples) < 12:
                samples.append({"entry": r["job"]["entry"], "params": r["job"]["params"], "inputs": s["inputs"], "observed": s["obs"]})
    cov = {
        "explanation": "states = execution paths completed (each stands for every input satisfying its path condition); "
                       "transitions = IR instructions executed symbolically; obligations = assertions and memory/UB conditions decided",
        "states": tot("paths"),
        "transitions": tot("steps"),
        "traces_validated_against_impl": tot("validated"),
        "samples": samples,
        "exhaustive": exhausted == len(jobs) and not errors,
        "jobs": len(jobs), "jobs_run": len(results), "jobs_exhausted": exhausted,
        "bounds": prop["bounds"](tier) if callable(prop.get("bounds")) else prop.get("bounds", ""),
        "outside_bounds": prop.get("outside", ""),
        "functions_encoded": len(funcs), "functions": funcs,
        "repo_lines_reached": {f: len(ls) for f, ls in sorted(lines.items())},
        "branch_points_forked": tot("forks"),
        "assertions_checked": tot("checks"), "assertions_needing_solver": tot("checks_solver"),
        "branches_implied_by_intervals": tot("branches_implied"), "of_those_distinct_confirmed_by_solver": tot("implied_confirmed"),
        "solver_queries": sum(r["solver"]["queries"] for r in results),
        "solver_sat": sum(r["solver"]["sat"] for r in results),
        "solver_unsat": sum(r["solver"]["unsat"] for r in results),
        "solver_unknown": sum(r["solver"]["unknown"] for r in results),
        "solver_time_s": round(sum(r["solver"]["time_s"] for r in results), 3),
        "witnesses": covers, "witnesses_missing": missing,
        "truncated": trunc, "unsupported": errors,
        "unconfirmed": unconfirmed[:10], "tool_errors": tool_errors[:10],
        "build_s": round(t_build, 1),
    }
    level = "model_checking"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": prop.get("assumptions", []) + spec.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VF_LINES"):
        json.dump({f: sorted(ls) for f, ls in lines.items()}, open(os.environ["VF_LINES"], "w"))

    print("%s %s: %d/%d jobs, %d exhausted, %d paths, %d assertions, %d queries (%.1fs solver), %d paths validated, %.0fs" % (
        pid, tier, len(results), len(jobs), exhausted, cov["states"], cov["assertions_checked"], cov["solver_queries"],
        cov["solver_time_s"], cov["traces_validated_against_impl"], time.time() - t0))
    for m in missing:
        print("WARNING: never reached: " + m)
    for m, n in list(errors.items())[:5]:
        print("WARNING: inconclusive paths (%d): %s" % (n, m))
    for m in tool_errors[:5]:
        print("WARNING: " + m)
    for u in unconfirmed[:5]:
        print("WARNING: not reproduced natively: %s %s %s: %s at %s inputs %s" % (
            u["entry"], u["params"], u["kind"], u["msg"], u["loc"], u["inputs"]))
    seen = set()
    for k, rec in known_hits:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if confirmed:
        for i, rec in enumerate(confirmed[:5]):
            p = os.path.join(ev_dir, "replay-%s-%d.json" % (pid, i + 1))
            json.dump(rec, open(p, "w"), indent=1)
            print("  %s %s: %s: %s at %s" % (rec["entry"], rec["params"], rec["kind"], rec["msg"], rec["loc"]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if not os.environ.get("VF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    if unconfirmed:
        die("a counterexample was found that the compiled code does not reproduce")
    if cov["states"] == 0:
        die("no path was completed")
    if not results:
        die("no job ran")
    return 0


if __name__ == "__main__":
    sys.exit(main())
