#!/usr/bin/env python3
"""Decide one property: build, execute symbolically, replay natively, report.

usage: check.py PROPERTY [--tier quick|thorough] | --setup | --learn [ENTRY...] | --list

Exit 0: every query of every entry of the property was answered, none found a violation.
Exit 1: a violation was found and reproduced natively (line "VIOLATION property=.. replay=..").
Exit 2: no verdict (build failure, incomplete exploration, counterexample that does not replay).
"""
import fcntl, glob, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, ASSUMPTIONS  # noqa: E402

TARGET = os.path.join(HERE, "target")
BUILD = os.path.join(HERE, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
COVERS = os.path.join(HERE, "covers.json")
KNOWN = os.path.join(HERE, "known_findings.json")


LOCK = []  # held until the run ends


def log(*a):
    print(*a, flush=True)


def no_verdict(msg):
    log("NO VERDICT:", msg)
    sys.exit(2)


class DoesNotBuild(Exception):
    pass


def cmd(args, cwd=HERE, env=ENV, what=None, raises=False):
    r = subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        log(r.stdout[-4000:])
        if raises:
            raise DoesNotBuild
        no_verdict("%s failed" % (what or args[0]))
    return r.stdout


def start(args, cwd=HERE, env=ENV):
    return subprocess.Popen(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def finish(p, what):
    out, _ = p.communicate()
    if p.returncode != 0:
        log(out[-4000:])
        no_verdict("%s failed" % what)


def build(features=""):
    """Engine and LLVM IR of harnesses + the current /repo; the native replay binary is built meanwhile."""
    os.makedirs(BUILD, exist_ok=True)
    if not LOCK:
        LOCK.append(open(os.path.join(BUILD, "lock"), "w"))
        fcntl.flock(LOCK[0], fcntl.LOCK_EX)
    e = dict(ENV)
    e.pop("CARGO_TARGET_DIR")
    engine = start(["cargo", "build", "--offline", "--release"], cwd=os.path.join(HERE, "engine"), env=e)
    # whatever cargo believes about time stamps, what depends on /repo is rebuilt
    for p in glob.glob(os.path.join(TARGET, "release", ".fingerprint", "*")):
        if re.match(r"(hyperbee|harness|replay)-", os.path.basename(p)):
            for f in glob.glob(os.path.join(p, "*")):
                os.unlink(f)
            os.rmdir(p)
    for p in glob.glob(os.path.join(TARGET, "release", "deps", "harness-*.ll")):
        os.unlink(p)
    # "wire-only": just the messages of schema.proto, without the crate
    feat = ["--no-default-features", "--features", "wire"] if features == "wire-only" else ["--features", features] if features else []
    cmd(["cargo", "rustc", "--offline", "--release", "-p", "harness", "--lib", "--crate-type", "staticlib"] + feat +
        ["--config", 'profile.release.lto="fat"', "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
        what="translating /repo to LLVM IR", raises=True)
    irs = glob.glob(os.path.join(TARGET, "release", "deps", "harness-*.ll"))
    if len(irs) != 1:
        no_verdict("expected one IR module, found %r" % irs)
    native = start(["cargo", "build", "--offline", "--release", "-p", "replay"] + feat)
    finish(engine, "building the engine")

    def binary():
        finish(native, "building the native replay")
        return os.path.join(TARGET, "release", "replay")
    return irs[0], binary


def symex(ir, entries, opts, timeout, out):
    if os.path.exists(out):
        os.unlink(out)
    args = [os.path.join(HERE, "engine", "target", "release", "symex"), "--ir", ir, "--entry", ",".join(entries),
            "--timeout", str(timeout), "--out", out] + opts
    r = subprocess.run(args, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    log(r.stdout.rstrip()[:20000])
    if not os.path.exists(out):
        no_verdict("the engine ended with %d" % r.returncode)
    return json.load(open(out))


def replay(binary, entry, path, limit=30):
    try:
        r = subprocess.run([binary, entry, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "hang", "did not end within %d s" % limit


def write_vec(path, entry, inputs, note):
    with open(path, "w") as f:
        f.write("# replay: target/release/replay %s THIS_FILE\n# %s\n" % (entry, note.replace("\n", " ")[:300]))
        f.write("".join("%d\n" % x for x in inputs))


def cross_check(d, limit, seed):
    """Queries the engine's solver answered, put to two other solvers."""
    import random
    files = sorted(glob.glob(os.path.join(d, "*.smt2")))
    random.Random(seed).shuffle(files)
    n, bad, t0 = 0, [], time.time()
    for f in files[:limit]:
        want = "unsat" if f.endswith("-unsat.smt2") else "sat"
        for s in (["cvc5", "--tlimit=20000"], ["z3", "-T:20"]):
            r = subprocess.run(s + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            got = r.stdout.strip().split("\n")[0]
            if "error" in r.stdout or got not in ("sat", "unsat"):
                continue
            n += 1
            if got != want:
                bad.append((f, s[0], got))
        if time.time() - t0 > 120:
            break
    return n, bad


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "--setup":
        build()[1]()
        return
    if a[0] == "--list":
        for k, p in sorted(PROPS.items()):
            print(k, " ".join(x for x in p["quick"]), "|", " ".join(p["thorough"]))
        return
    if a[0] == "--learn":
        ir, native = build("wire")
        native()
        cov = json.load(open(COVERS)) if os.path.exists(COVERS) else {}
        es = a[1:] or sorted({e for p in PROPS.values() for e in p["quick"] + p["thorough"]})
        for r in symex(ir, es, [], 900, os.path.join(BUILD, "learn.json")):
            if not r["violations"] and not r["errors"] and not r["incomplete"]:
                cov[r["entry"]] = r["covers"]
            else:
                log("not learned:", r["entry"])
            json.dump(cov, open(COVERS, "w"), indent=0, sort_keys=True)
        return
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[prop]
    t0 = time.time()
    entries = p["quick"] + (p["thorough"] if tier == "thorough" else [])
    unbuilt = None
    try:
        ir, native = build(p["features"])
    except DoesNotBuild:
        if not p["wire"]:
            no_verdict("the crate in /repo does not build")
        # What the property says about the messages of schema.proto can be decided without the crate.
        unbuilt, entries = "the crate in /repo does not build: only its wire messages were examined", p["wire"]
        log("NOTE:", unbuilt)
        try:
            ir, native = build("wire-only")
        except DoesNotBuild:
            no_verdict("the crate in /repo does not build")
    t_build = time.time() - t0
    rd = os.path.join(BUILD, "replay", prop)
    os.makedirs(rd, exist_ok=True)
    for f in glob.glob(os.path.join(rd, "*")):
        os.unlink(f)
    dd = os.path.join(BUILD, "smt", prop)
    os.makedirs(dd, exist_ok=True)
    for f in glob.glob(os.path.join(dd, "*")):
        os.unlink(f)
    known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop and k["status"] == "open"]
    opts = ["--seed", str(seed), "--max-viol", "200" if known else "3"]
    if tier == "thorough":
        opts += ["--dump-every", "97", "--dump-dir", dd]
    budget = 3600 if tier == "thorough" else 600
    res = symex(ir, entries, opts, budget, os.path.join(BUILD, "%s.json" % prop))
    binary = native()
    covers = json.load(open(COVERS)) if os.path.exists(COVERS) else {}
    problems, found, known_hit = [unbuilt] if unbuilt else [], [], {}
    validated, samples = 0, []
    for r in res:
        e = r["entry"]
        for i, v in enumerate(r["violations"]):
            f = os.path.join(rd, "%s-%d.txt" % (e, i))
            write_vec(f, e, v["inputs"], v["msg"])
            rc, out = replay(binary, e, f)
            ok = rc == "hang" or rc == 1 or (isinstance(rc, int) and rc < 0) or rc == 101
            if not ok:
                problems.append("%s: counterexample does not replay natively (%s): %s [%s]" % (e, rc, v["msg"], f))
                continue
            k = next((k for k in known if k["entry"] == e and re.search(k["match"], v["msg"] + "\n" + v["trace"])), None)
            if k:
                known_hit.setdefault(k["id"], k)
                continue
            found.append((e, v["msg"], f, out.strip().split("\n")[-1] if out.strip() else str(rc)))
        for x in r["errors"]:
            problems.append("%s: %s" % (e, x))
        if r["incomplete"] and not r["violations"]:
            problems.append("%s: exploration incomplete" % e)
        if not r["violations"]:
            if not r["paths"]:
                problems.append("%s: no path reached the end (vacuous)" % e)
            want = int(covers.get(e, "0x0"), 16)
            if want & ~int(r["covers"], 16):
                problems.append("%s: situations never reached: covers %s, expected %s" % (e, r["covers"], covers[e]))
        for i, s in enumerate(r["samples"]):
            f = os.path.join(rd, "sample.txt")
            write_vec(f, e, s["inputs"], "sample")
            rc, out = replay(binary, e, f)
            m = re.search(r"^obs ?(.*)$", out, re.M)
            obs = [int(x) for x in m.group(1).split()] if m else None
            if rc != 0 or obs != s["obs"] or "unused" in out:
                problems.append("%s: native run disagrees with the symbolic one on %s (%s)" % (e, s["inputs"][:20], rc))
            else:
                validated += 1
                if i == 0:
                    samples.append({"entry": e, "inputs": s["inputs"][:40], "observed": s["obs"][:12]})
    crossed = None
    if tier == "thorough":
        n, bad = cross_check(dd, 60, seed)
        crossed = n
        for b in bad:
            problems.append("solvers disagree on %s: %s says %s" % b)
    S = lambda k: sum(r[k] for r in res)
    fns = {}
    for r in res:
        for x in r["repo_functions"]:
            o = fns.get(x["fn"], (0, 0))
            fns[x["fn"]] = (x["lines"], max(o[1], x["hit"]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "violations": len(found), "assumptions": ASSUMPTIONS + p.get("assume", []),
        "coverage": {
            "states": S("forks") + len(res), "transitions": S("instructions"),
            "traces_validated_against_impl": validated, "samples": samples,
            "bounds": p["bounds"], "paths": S("paths"), "paths_cut_by_assumption": S("assume_pruned"),
            "assertions_checked": S("asserts"), "assertions_over_symbolic_values": S("symbolic_asserts"),
            "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"),
            "answered_from_cache": S("cached"), "answered_by_path_model": S("model_hits"), "solver_seconds": round(S("solver_s"), 2),
            "solver": res[0]["solver"] if res else "", "build_seconds": round(t_build, 1),
            "queries_confirmed_by_other_solvers": crossed,
            "entries": [{k: r[k] for k in ("entry", "paths", "forks", "instructions", "queries", "covers", "incomplete", "wall_s", "max_path_constraints", "max_path_steps")} for r in res],
            "functions_encoded": [{"function": k, "lines_with_code": v[0], "lines_executed": v[1]} for k, v in sorted(fns.items())],
            "problems": problems, "explanation": "symbolic execution of the LLVM IR of /repo/src (all paths within the bounds), assertions decided by Z3",
        },
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in known_hit.values():
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    seen = set()
    for e, msg, f, out in found:
        log("counterexample (%s): %s" % (e, msg))
        log("  native replay: %s" % out)
        if (e, msg) not in seen:
            log("VIOLATION property=%s replay=%s" % (prop, f))
        seen.add((e, msg))
    if found:
        sys.exit(1)
    if problems:
        for x in problems[:20]:
            log("problem:", x)
        no_verdict("%d problem(s)" % len(problems))
    log("%s: held on %d paths, %d queries, %.1f s solver, %.1f s (%d native replays agree)" % (prop, S("paths"), S("queries"), S("solver_s"), time.time() - t0, validated))


main()
