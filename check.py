#!/usr/bin/env python3
"""Decides one property: builds the harnesses of the property from /repo's
current tree twice (instrumented for symbolic execution, and natively), explores
every path of the instrumented build with the solver, replays what it found on
the native build, and writes evidence/<id>.json.

exit 0  every assertion proved on every path within the stated bounds
exit 1  VIOLATION (counterexample reproduced on the native build)
exit 2  no answer (engine or build error, incomplete exploration, ...)
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
INC = ["-I" + os.path.join(ROOT, "engine"), "-I" + os.path.join(ROOT, "harness"), "-I" + REPO, "-I" + REPO + "/printemps"]
# -DVERIF_HARNESS keeps nothing switched on in /repo; there are no hooks
SYM = ["clang++-18", "-std=c++17", "-O1", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
       "-fpass-plugin=" + BUILD + "/pass.so"]
# harnesses about threads: OpenMP code generation with our own runtime (engine/rt_omp.cpp), and the compiler's report of every memory access
OMP = ["-fopenmp", "-fsanitize=thread", "-mllvm", "-tsan-instrument-atomics=0", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-I" + os.path.join(ROOT, "engine/omp")]
NAT = ["g++", "-std=c++17", "-O1", "-w", "-ffp-contract=off"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class NoAnswer(Exception):
    pass


def build_engine():
    h = hashlib.sha256()
    for f in sorted(os.listdir(ROOT + "/engine")):
        if not os.path.isfile(ROOT + "/engine/" + f):
            continue
        h.update(open(ROOT + "/engine/" + f, "rb").read())
    stamp = BUILD + "/engine.stamp"
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    r = sh(["bash", ROOT + "/engine/build.sh", BUILD])
    if r.returncode != 0:
        raise NoAnswer("engine build failed:\n" + r.stdout[-3000:])
    for f in ("pass.so", "rt.o", "rt_native.o", "rt_omp.o", "rt_omp_native.o"):
        if not os.path.exists(BUILD + "/" + f):
            raise NoAnswer("engine build produced no " + f + "\n" + r.stdout[-3000:])
    open(stamp, "w").write(h.hexdigest())


def meta_of(src):
    m = re.search(r"/\*META(.*?)\*/", open(src).read(), re.S)
    return json.loads(m.group(1))


def compile_one(src, tag, tier, work):
    m = meta_of(src)
    defs = ["-DTHOROUGH=1"] if tier == "thorough" else []
    defs += m.get("defs", [])
    sym, nat = work + "/" + tag + ".sym", work + "/" + tag + ".nat"

    omp = m.get("omp", False)

    def s_omp():
        r = sh([x for x in SYM if "pass-plugin" not in x] + OMP + defs + INC + ["-c", "-emit-llvm", src, "-o", sym + ".bc"])
        if r.returncode == 0:
            r = sh(SYM + ["-c", sym + ".bc", "-o", sym + ".o"])
        if r.returncode == 0:
            r = sh(["g++", sym + ".o", BUILD + "/rt.o", BUILD + "/rt_omp.o", "-o", sym, "-lz3"])
        return r

    def n_omp():
        r = sh(["clang++-18"] + NAT[1:] + ["-g1"] + OMP + defs + INC + ["-c", src, "-o", nat + ".o"])
        if r.returncode == 0:
            r = sh(["g++", nat + ".o", BUILD + "/rt_native.o", BUILD + "/rt_omp_native.o", "-o", nat, "-Wl,--wrap=strtod,--wrap=atof,--wrap=__strtod_l"])
        return r

    def s():
        r = sh(SYM + defs + INC + ["-c", src, "-o", sym + ".o"])
        if r.returncode == 0:
            r = sh(["g++", sym + ".o", BUILD + "/rt.o", "-o", sym, "-lz3"])
        return r

    def n():
        return sh(NAT + defs + INC + [src, BUILD + "/rt_native.o", "-o", nat, "-Wl,--wrap=strtod,--wrap=atof,--wrap=__strtod_l"])

    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(s_omp if omp else s), ex.submit(n_omp if omp else n)
        for r, what in ((a.result(), "symbolic"), (b.result(), "native")):
            if r.returncode != 0:
                raise NoAnswer("%s build of %s failed:\n%s" % (what, os.path.basename(src), r.stdout[-4000:]))
    return sym, nat


def replay(nat, vectors, verbose=False, cwd=None, limit=600):
    """native outcome of each input vector"""
    if not vectors:
        return [], ""
    f = nat + ".in"
    open(f, "w").write("".join(" ".join(map(str, v)) + "\n" for v in vectors))
    try:
        r = sh([nat, f] + (["-v"] if verbose else []), cwd=cwd, timeout=limit)
    except subprocess.TimeoutExpired:
        raise NoAnswer("native replay timed out")
    codes = [int(x) for x in re.findall(r"^RESULT (\d+)$", r.stdout, re.M)]
    if len(codes) != len(vectors):
        raise NoAnswer("native replay broke: " + r.stdout[-1500:])
    return codes, r.stdout


def main():
    if sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        return
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    work = "%s/%s.%d" % (BUILD, pid, os.getpid())
    os.makedirs(work)
    try:
        rc = run(pid, tier, seed, t0, work)
    except NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (pid, e))
        rc = 2
    except Exception:
        import traceback
        print("NO ANSWER property=%s: %s" % (pid, traceback.format_exc()))
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def save_replay(pid, src, vec, msg, out, tier):
    d = ROOT + "/evidence/replay"
    os.makedirs(d, exist_ok=True)
    p = "%s/%s.txt" % (d, pid)
    open(p, "w").write("property %s\nharness %s\nfailed: %s\ninputs (in order): %s\n\nnative replay:\n%s\n" % (
        pid, os.path.relpath(src, ROOT), msg, " ".join(map(str, vec)), out[-6000:]))
    return p


def run(pid, tier, seed, t0, work):
    build_engine()
    srcs = sorted(ROOT + "/harness/" + f for f in os.listdir(ROOT + "/harness") if re.match(pid + r"[a-z]?_.*\.cpp$", f))
    if not srcs:
        raise NoAnswer("no harness for " + pid)
    only = os.environ.get("VERIF_ONLY")
    if only:
        srcs = [s for s in srcs if only in s]
    with ThreadPoolExecutor(len(srcs)) as ex:
        bins = list(ex.map(lambda s: compile_one(s, os.path.basename(s)[:-4], tier, work), srcs))
    kf = json.load(open(ROOT + "/known_findings.json"))["findings"] if os.path.exists(ROOT + "/known_findings.json") else []
    tot = dict(paths=0, runs=0, queries=0, sat=0, unsat=0, branches=0, asserts_reached=0, assert_queries=0, solver_s=0.0)
    funcs, bounds, assumptions, samples, reached, asserts, validated, per = set(), [], [], [], {}, set(), 0, []
    violations = []
    for src, (sym, nat) in zip(srcs, bins):
        m = meta_of(src)
        hname = os.path.basename(src)[:-4]
        limit = m.get("time", {}).get(tier, (720 if len(srcs) == 1 else 380) if tier == "quick" else 3000)
        scratch = work + "/cwd_" + hname
        os.makedirs(scratch)
        oj = work + "/" + hname + ".json"
        cmd = [sym, "--jobs", str(JOBS), "--time", str(limit), "--out", oj, "--run-limit", str(m.get("run_limit", 60)), "--seed", str(seed), "--max-viol", "4"]
        try:
            r = sh(cmd, cwd=scratch, timeout=limit + 400)
        except subprocess.TimeoutExpired:
            raise NoAnswer(hname + ": exploration did not stop")
        if not os.path.exists(oj):
            raise NoAnswer("%s: exploration failed rc=%s\n%s" % (hname, r.returncode, r.stdout[-3000:]))
        j = json.load(open(oj))
        if os.environ.get("VERIF_DEBUG"):
            d = {k: v for k, v in j.items() if k not in ("functions", "sample_inputs")}
            print(hname, json.dumps(d, indent=1)[:6000], r.stdout[-2000:])
        # 1. solver counterexamples, replayed on the native build
        unrep = []
        for v in j["violations"]:
            vec = [int(x.rsplit("=", 1)[1]) for x in v["inputs"].split(";") if x]
            codes, out = replay(nat, [vec], True, scratch)
            if codes[0] == 0 or codes[0] == 3 or codes[0] == 9:
                unrep.append((v["msg"], vec, codes[0]))
            else:
                violations.append((src, vec, v["msg"] if codes[0] == 1 else v["msg"] + " (replay: code %d)" % codes[0], out))
        # 2. paths on which the program crashed or hung
        for c in j["crash_inputs"]:
            codes, out = replay(nat, [c["values"]], True, scratch)
            if codes[0] not in (0, 3, 9):
                violations.append((src, c["values"], "program failed (%s; native code %d)" % (c["kind"], codes[0]), out))
            else:
                unrep.append((c["kind"], c["values"], codes[0]))
        # 3. explored paths, validated against the native build
        vecs = j["sample_inputs"]
        codes, _ = replay(nat, vecs, False, scratch)
        bad = [(v, c) for v, c in zip(vecs, codes) if c != 0]
        if bad and not violations:
            codes, out = replay(nat, [bad[0][0]], True, scratch)
            if codes[0] not in (0, 3, 9):
                violations.append((src, bad[0][0], "fails on the native build (code %d)" % codes[0], out))
            else:
                raise NoAnswer("%s: path replays as %d natively" % (hname, bad[0][1]))
        validated += len(vecs) - len(bad)
        for k in tot:
            tot[k] += j[k]
        funcs.update(f for f in j["functions"] if "printemps" in f)
        bounds += ["%s: %s" % (hname, b) for b in m["bounds" if tier == "quick" or "bounds_thorough" not in m else "bounds_thorough"]]
        assumptions += m.get("assumptions", [])
        asserts.update(j["asserts"])
        for k, v in j["reach"].items():
            reached[k] = reached.get(k, 0) + v
        samples += [{"harness": hname, "inputs": v} for v in vecs[:2]]
        per.append({"harness": hname, "complete": j["complete"], "paths": j["paths"], "assume_cut": j["assume_cut"], "concretised_terms": j["pin_reasons"],
                    "queries": j["queries"], "sat": j["sat"], "unsat": j["unsat"], "unknown": j["unknown"], "solver_s": j["solver_s"], "wall_s": j["wall_s"]})
        if violations:
            break
        if unrep:
            raise NoAnswer("%s: counterexample does not reproduce natively: %s" % (hname, unrep[:2]))
        if j["engine_errors"] or not j["complete"]:
            raise NoAnswer("%s: incomplete: %s\n%s" % (hname, {k: j[k] for k in ("complete", "paths", "unknown", "crashes", "timeouts", "engine_errors", "wall_s")}, r.stdout[-1500:]))
        miss = [x for x in m["reach"] if x not in j["reach"]]
        if miss:
            raise NoAnswer("%s: never reached %s (vacuous)" % (hname, miss))
        # 4. known findings: the listed input must still fail for the line to be printed
        for k in kf:
            if k["property"] == pid and k["harness"] == hname:
                os.environ["VF_KNOWN"] = "1"
                codes, _ = replay(nat, [k["inputs"]], False, scratch)
                del os.environ["VF_KNOWN"]
                if codes[0] not in (0, 3, 9):
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["branches"], "traces_validated_against_impl": validated, "samples": samples[:12],
            "explanation": "symbolic execution of the LLVM IR compiled from /repo's current source; states = feasible paths explored to the end, transitions = symbolic branch decisions recorded on them, each assertion decided by z3 (path condition AND NOT assertion) for all inputs of the path",
            "exhaustive": not violations,
            "bounds": bounds, "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "assertions_reached": tot["asserts_reached"], "assertion_queries": tot["assert_queries"],
            "solver": "z3 (QF_LIA, bit-blasted QF_FD for what is not linear)", "solver_s": round(tot["solver_s"], 2), "functions_encoded": len(funcs), "functions": demangle(sorted(funcs))[:400],
            "assertions": sorted(asserts), "reached": reached, "harnesses": per,
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(ev, open("%s/evidence/%s.json" % (ROOT, pid), "w"), indent=1)
    if violations:
        src, vec, msg, out = violations[0]
        p = save_replay(pid, src, vec, msg, out, tier)
        print(out[-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  " + msg)
        return 1
    print("property %s held: %d paths, %d queries (%d unsat), %d assertion checks, %d functions encoded, %d paths replayed natively, %.1fs" % (
        pid, tot["paths"], tot["queries"], tot["unsat"], tot["asserts_reached"], len(funcs), validated, time.time() - t0))
    return 0


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return [x[:200] for x in r.stdout.split("\n") if x]
    except Exception:
        return names


main()
