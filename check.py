#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

usage: check.py PROPERTY [--tier quick|thorough] [--entries REGEX] [--keep]

1. compiles /repo's current C++ sources and the property's harnesses to LLVM IR,
2. runs the property's harness entries in the symbolic executor (engine/),
3. replays every counterexample against the natively compiled sources (ASan),
4. prints VIOLATION / KNOWN-FINDING lines and writes evidence/<property>.json.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import props  # noqa: E402

LLVM = "/usr/lib/llvm-18/bin"
BUILD = os.path.join(HERE, "build")
INC = [f"-I{HERE}/harness", f"-I{REPO}/dwave/optimization/include", f"-I{REPO}/dwave/optimization/src"]
IRFLAGS = ["-std=c++20", "-O1", "-DNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-ffp-contract=off",
           "-fno-vectorize", "-fno-slp-vectorize", "-w", "-emit-llvm", "-c"]
NATFLAGS = ["-std=c++20", "-O1", "-DNDEBUG", "-ffp-contract=off", "-w", "-g1", "-fsanitize=address",
            "-fno-omit-frame-pointer", "-c"]
CXX = "clang++"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def engine():
    exe = os.path.join(BUILD, "engine", "symex")
    src = [os.path.join(HERE, "engine", f) for f in ("expr.cpp", "expr.hpp", "symex.cpp", "build.sh")]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
        r = run(["bash", os.path.join(HERE, "engine", "build.sh")])
        if r.returncode or not os.path.exists(exe):
            log(r.stdout)
            sys.exit(3)
    return exe


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "dwave/optimization/src")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def tree_hash(dirs):
    h = hashlib.sha256()
    for top in dirs:
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp", ".ipp")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def hdr_hash():
    """hash of every header a translation unit may include"""
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "dwave/optimization/include"), os.path.join(REPO, "dwave/optimization/src"),
                os.path.join(HERE, "harness")):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".cpp"):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def compile_all(files, flags, scratch, suffix):
    """files -> objects.  Objects are reused only if the text of the source and of
    every header is unchanged."""
    cache = os.path.join(BUILD, "objcache")
    os.makedirs(cache, exist_ok=True)
    hh = hdr_hash()
    jobs = []
    for f in files:
        k = hashlib.sha256((" ".join(flags) + hh + f).encode() + open(f, "rb").read()).hexdigest()[:32]
        jobs.append((f, os.path.join(cache, k + suffix)))

    def one(j):
        f, o = j
        if os.path.exists(o):
            return None
        t = f"{o}.{os.getpid()}.tmp"
        r = run([CXX, *flags, *INC, f, "-o", t])
        if r.returncode:
            return f + "\n" + r.stdout
        os.replace(t, o)
        return None

    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        log("compilation failed:", errs[0][:4000])
        sys.exit(3)
    return [o for _, o in jobs]


def prune_cache():
    cache = os.path.join(BUILD, "objcache")
    if not os.path.isdir(cache):
        return
    fs = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    while fs and tot > 600 << 20:
        f = fs.pop(0)
        tot -= os.path.getsize(f)
        os.unlink(f)


def entries_of(bc):
    r = run([f"{LLVM}/llvm-nm", "--defined-only", bc])
    return [l.split()[-1] for l in r.stdout.splitlines()
            if len(l.split()) == 3 and l.split()[1] == "T" and not l.split()[2].startswith("_")]


def build_ir(prop, tier, scratch, only=None):
    hfiles = [os.path.join(HERE, "harness", f + ".cpp") for f in props.files(prop, tier)]
    rs = repo_sources()
    objs = compile_all(rs + hfiles, IRFLAGS, scratch, ".bc")
    ents = []
    for f, o in zip(hfiles, objs[len(rs):]):
        name = os.path.basename(f)[:-4]
        for e in entries_of(o):
            if props.wanted(prop, tier, name, e) and (not only or re.search(only, e)):
                ents.append(e)
    ll = os.path.join(scratch, "all.bc")
    r = run([f"{LLVM}/llvm-link", *objs, "-o", ll])
    if r.returncode:
        log("link failed", r.stdout[:3000])
        sys.exit(3)
    m = os.path.join(scratch, "m.bc")
    r = run([f"{LLVM}/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(ents), ll, "-o", m])
    if r.returncode:
        log("internalize failed", r.stdout[:3000])
        m = ll
    return m, ents, rs


_native = {}


def native(prop, tier, scratch):
    if "exe" not in _native:
        hfiles = [os.path.join(HERE, "harness", f + ".cpp") for f in props.files(prop, tier) + ["native"]]
        objs = compile_all(repo_sources() + hfiles, NATFLAGS, scratch, ".o")
        exe = os.path.join(scratch, "replay")
        r = run([CXX, "-fsanitize=address", "-rdynamic", *objs, "-o", exe, "-ldl"])
        if r.returncode:
            log("native link failed", r.stdout[:3000])
            sys.exit(3)
        _native["exe"] = exe
    return _native["exe"]


def replay(exe, f):
    env = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
    try:
        r = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=30, env=env)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = 124, "no end within 30 s"
    fails = [l for l in out.splitlines() if l.startswith("FAILED ")]
    if rc == 42 or rc == 43:
        return True, fails[0][7:] if fails else out[-200:]
    if rc == 77:
        m = re.search(r"ERROR: AddressSanitizer: (.*)", out)
        return True, "MEM: " + (m.group(1)[:120] if m else "AddressSanitizer")
    if rc == 124:
        return True, "HANG: " + out
    if rc < 0:
        return True, f"MEM: killed by signal {-rc}"
    return False, f"exit {rc} " + " ".join(out.splitlines()[-1:])


def parse_cex(f):
    d = {"in": []}
    for l in open(f):
        k, _, v = l.rstrip("\n").partition(" ")
        if k == "in":
            d["in"].append(v)
        else:
            d[k] = v
    return d


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--entries")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--timeout", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    spec = props.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    exe = engine()
    scratch = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    rc = 2
    try:
        rc = decide(a, prop, spec, seed, exe, scratch, t0)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        prune_cache()
    sys.exit(rc)


def decide(a, prop, spec, seed, exe, scratch, t0):
    tier = a.tier
    mod, ents, rs = build_ir(prop, tier, scratch, a.entries)
    if not ents:
        log("no entries")
        return 3
    t1 = time.time()
    log(f"[{prop}] IR of {len(rs)} repo files ready after {t1-t0:.1f} s; {len(ents)} entries")
    budget = a.timeout or (spec.get("budget", 420) if tier == "quick" else spec.get("budget_thorough", 2400))
    phases = [[]]
    if tier == "thorough" and spec.get("deep", True):
        phases.append(["--deep"])
    results = []
    for i, extra in enumerate(phases):
        out = os.path.join(scratch, f"out{i}")
        cmd = [exe, mod, "--out", out, "--prop", prop, "--jobs", "8", "--timeout", str(budget), "--max-violations", "4",
               "--query-limit", "30" if tier == "quick" else "120", "--samples", "2" if tier == "quick" else "8", *extra]
        for e in ents:
            cmd += ["--entry", e]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        rj = os.path.join(out, "result.json")
        if r.returncode or not os.path.exists(rj):
            log("executor failed", r.returncode, r.stdout[-2000:])
            return 3
        results.append((out, json.load(open(rj)), extra))
    t2 = time.time()

    # counterexamples: replay, then match against the known findings
    known = load_known(prop)
    confirmed, unconfirmed, knownhits = [], [], {}
    cexs = []
    for out, res, _ in results:
        cexs += sorted(os.path.join(out, f) for f in os.listdir(out) if f.startswith("cex-"))
    if cexs:
        nexe = native(prop, tier, scratch)
        with cf.ThreadPoolExecutor(8) as ex:
            reps = list(ex.map(lambda f: replay(nexe, f), cexs))
        for f, (ok, what) in zip(cexs, reps):
            d = parse_cex(f)
            d["observed"] = what
            if not ok:
                unconfirmed.append(d)
                continue
            hit = None
            for k in known:
                if re.fullmatch(k["entry"], d["entry"]) and re.search(k["msg"], what):
                    hit = k
            if hit:
                knownhits.setdefault(hit["id"], (hit, []))[1].append(d)
                continue
            rp = os.path.join(BUILD, "replay")
            os.makedirs(rp, exist_ok=True)
            dst = os.path.join(rp, f"{prop}-{os.path.basename(f)}")
            shutil.copy(f, dst)
            with open(dst, "a") as o:
                o.write(f"observed {what}\n")
            confirmed.append((d, dst))

    # validation of the executor: concrete instances of explored paths must also
    # run to their end natively, with every assertion holding
    validated, disagreements = 0, []
    samples = []
    for out, res, _ in results:
        samples += sorted(os.path.join(out, f) for f in os.listdir(out) if f.startswith("path-"))
    if samples and (tier == "thorough" or a.v):
        nexe = native(prop, tier, scratch)
        with cf.ThreadPoolExecutor(8) as ex:
            for f, (ok, what) in zip(samples, ex.map(lambda f: replay(nexe, f), samples)):
                if what.startswith("exit 0"):
                    validated += 1
                else:
                    disagreements.append({**parse_cex(f), "observed": what})

    tot = {}
    inc = {}
    reached, assertions, per = {}, {}, []
    for out, res, extra in results:
        for e in res["entries"]:
            for k in ("paths", "completed", "assumed_away", "inconclusive", "violations", "forks", "queries_branch",
                      "queries_assert", "sat", "unsat", "unknown", "witnessed", "refuted_before", "asserts", "asserts_by_rewriting", "instructions",
                      "symbolic_inputs", "solver_s", "timed_out", "crashed"):
                tot[k] = tot.get(k, 0) + e[k]
            for k, v in e["inconclusive_reasons"].items():
                inc.setdefault(k, []).append(e["name"] + (" (deep)" if extra else ""))
            for k, v in e["assertions"].items():
                assertions[k] = assertions.get(k, 0) + v
            for k, v in e["reached"].items():
                reached[k] = reached.get(k, 0) + v
            per.append({"entry": e["name"] + (" (deep)" if extra else ""), "paths": e["paths"], "completed": e["completed"],
                        "inconclusive": e["inconclusive"], "asserts": e["asserts"],
                        "queries": e["queries_branch"] + e["queries_assert"], "solver_s": round(e["solver_s"], 2)})
    fns = demangle(sorted({f for _, r, _ in results for f in r["functions"]}))
    fns = sorted(f for f in fns if f.startswith("dwave::") or "dwave::optimization" in f.split("(")[0])
    vac = [p["entry"] for p in per if p["asserts"] == 0 and not (p["inconclusive"])]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "states": tot["completed"], "transitions": tot["forks"],
            "traces_validated_against_impl": validated + len(confirmed) + sum(len(v[1]) for v in knownhits.values()),
            "samples": [parse_cex(f) for f in samples[:: max(1, len(samples) // 5)]][:6],
            "explanation": "states = feasible symbolic paths run to their end (each stands for all values of its inputs "
                           "satisfying its path condition); transitions = feasible two-way branches; every assertion on "
                           "every path is decided by rewriting or by an SMT query (QF_BV, z3)",
            "paths": tot["paths"], "paths_excluded_by_assumptions": tot["assumed_away"],
            "paths_inconclusive": tot["inconclusive"], "inconclusive_reasons": {k: sorted(set(v))[:40] for k, v in inc.items()},
            "assertions_decided": tot["asserts"], "assertions_by_rewriting": tot["asserts_by_rewriting"],
            "queries_branch": tot["queries_branch"], "queries_assert": tot["queries_assert"],
            "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
            "branches_shown_feasible_by_a_witness": tot["witnessed"],
            "queries_answered_by_an_earlier_unsat_verdict_of_this_run": tot["refuted_before"],
            "solver_s": round(tot["solver_s"], 2), "instructions": tot["instructions"],
            "symbolic_inputs": tot["symbolic_inputs"],
            "assertions": assertions, "reached": reached, "entries": per,
            "functions_encoded": fns, "functions_encoded_count": len(fns),
            "entries_without_assertion": vac,
            "counterexamples_not_confirmed_by_replay": unconfirmed[:20],
            "validation_disagreements": disagreements[:20],
            "bounds": spec["bounds"],
        },
        "assumptions": props.ASSUMPTIONS + spec.get("assumptions", []),
        "violations": len(confirmed),
        "violation_details": [{"entry": d["entry"], "observed": d["observed"], "inputs": d["in"], "replay": p} for d, p in confirmed],
    }
    if not a.no_evidence and not a.entries:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
    for hit, ds in knownhits.values():
        print(f"KNOWN-FINDING: property={prop} {hit['what']}")
    seen = set()
    for d, p in confirmed:
        key = (d["entry"], d["observed"])
        if key in seen:
            continue
        seen.add(key)
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  entry {d['entry']}: {d['observed']}; inputs: {', '.join(d['in'][:40])}")
    print(f"[{prop}] {tier}: {len(per)} entries, {tot['completed']} paths completed, {tot['inconclusive']} inconclusive, "
          f"{tot['asserts']} assertions decided, {tot['queries_branch']+tot['queries_assert']} queries, "
          f"solver {tot['solver_s']:.1f} s, wall {time.time()-t0:.1f} s")
    for k, v in inc.items():
        print(f"  inconclusive: {k}: {', '.join(sorted(set(v))[:8])}{' ...' if len(set(v)) > 8 else ''}")
    for d in unconfirmed[:5]:
        print(f"  not confirmed by replay: {d['entry']} {d['tag']} {d['msg']} ({d['observed']})")
    for d in disagreements[:5]:
        print(f"  executor and native run disagree: {d['entry']} ({d['observed']})")
    if vac:
        print("  entries without assertion:", ", ".join(vac[:20]))
    if a.v:
        for p in sorted(per, key=lambda p: -p["paths"])[:25]:
            print("  ", p)
    if confirmed:
        return 1
    if tot["completed"] == 0 or tot["crashed"]:
        if tot["crashed"]:
            print("  an executor process died")
        if tot["completed"] == 0:
            return 2
    return 0


if __name__ == "__main__":
    main()
