#!/usr/bin/env python3
"""Decide one property: encode /repo's current code, run the symbolic executor on every harness entry of the property,
replay counterexamples and sample paths against the compiled library, write evidence/<id>.json.
usage: check.py <property> [quick|thorough] [--repo DIR] [--only ENTRY] [--keep]"""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props

CXXF = ("-std=c++14 -O1 -fno-vectorize -fno-slp-vectorize -fno-math-errno -ffp-contract=off -fopenmp "
        "-D_GLIBCXX_EXTERN_TEMPLATE=0 -DSX_SYM -gline-tables-only -emit-llvm -c -w").split()


def sh(cmd, timeout=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -999, "timeout"


def build_engine():
    b = os.path.join(V, "build")
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(b, "symex")
        src = [os.path.join(V, "engine", f) for f in ("alg.hpp", "symex.cpp", "interp.inc", "build.sh")]
        if not os.path.exists(exe) or os.path.getmtime(exe) < max(map(os.path.getmtime, src)):
            rc, out = sh(["bash", os.path.join(V, "engine", "build.sh"), b], 900)
            if rc:
                print(out)
                sys.exit(3)
    return exe


class Run:
    def __init__(s, prop, tier, repo, only, keep):
        s.prop, s.tier, s.repo, s.only, s.keep = prop, tier, repo, only, keep
        s.P = props.PROPS[prop]
        s.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        s.t0 = time.time()
        s.budget = int(os.environ.get("SX_BUDGET", 0)) or (780 if tier == "quick" else s.P.get("thorough_budget", 3600))
        s.dir = os.path.join(V, "build", "run-%s-%s" % (prop, tier) + ("" if repo == "/repo" else "-%d" % os.getpid()))
        shutil.rmtree(s.dir, ignore_errors=True)
        os.makedirs(s.dir)
        s.notes, s.native, s.nlock = [], {}, threading.Lock()

    def defs(s, u):
        return ["-D" + d for d in u.get("defs", [])]

    def key(s, u):
        return re.sub(r"\W", "_", u["file"] + "_" + "_".join(u.get("defs", [])))

    def inc(s, sym):
        i = ["-I", V + "/rt", "-I", V + "/rt/mpi", "-I", V + "/rt/hpddm"]
        if sym:
            i = ["-I", V + "/rt/shim", "-I", V + "/rt/omp"] + i
        return i + ["-I", s.repo + "/include", "-I", V + "/harness"]

    def bitcode(s, u):
        k = s.key(u)
        bc = "%s/%s.bc" % (s.dir, k)
        rc, out = sh(["clang++-18"] + CXXF + s.defs(u) + s.inc(True) + [V + "/harness/" + u["file"], "-o", bc + ".tmp"], 600)
        if rc:
            return None, out
        rc, out = sh(["llvm-link-18", bc + ".tmp", "--only-needed", s.dir + "/rtstr.bc", s.dir + "/rtc.bc", "-o", bc], 100)
        return (bc, "") if rc == 0 else (None, out)

    def native_bin(s, u, kind):
        """kind: real (BLAS/LAPACK of the system, ASan+UBSan), model (contract models, ASan), plain (for valgrind), tsan"""
        k = s.key(u) + "." + kind
        with s.nlock:
            ev = s.native.get(k)
            if ev is None:
                s.native[k] = ev = [threading.Lock(), None]
        with ev[0]:
            if ev[1] is None:
                o = "%s/%s" % (s.dir, k)
                f = ["-std=c++14", "-g1", "-w", "-ffp-contract=off"] + ([] if kind.startswith("tsan") else ["-fno-allocation-dce"]) + s.defs(u) + s.inc(False)
                if kind in ("real", "model"):
                    f += ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
                else:
                    f += ["-O1"]
                if kind in ("model", "plainmodel"):
                    f += ["-DSXN_MODEL"]
                cxx = "g++"
                if kind.startswith("tsan"): # real threads, dealt and ordered as in the witness
                    cc = ["clang++-18"] + f + ["-fopenmp", "-fsanitize=thread", "-DSXN_TSAN", "-I", V + "/rt/omp"] + (["-DSXN_MODEL"] if kind == "tsanmodel" else [])
                    rc, out = sh(cc + [V + "/harness/" + u["file"], "-c", "-o", o + ".o"], 600)
                    if rc == 0:
                        rc, out = sh(["clang++-18", "-std=c++14", "-O1", "-g1", "-c", V + "/rt/kmpc.cpp", "-o", o + ".k.o"], 300)
                    if rc == 0:
                        rc, out = sh(["clang++-18", "-fsanitize=thread", o + ".k.o", o + ".o", "-o", o, "-llapack", "-lblas", "-lgfortran", "-lm", "-lpthread"], 300)
                else:
                    rc, out = sh([cxx] + f + [V + "/harness/" + u["file"], "-o", o, "-llapack", "-lblas", "-lgfortran", "-lm", "-lpthread"], 600)
                ev[1] = (o if rc == 0 else "", out)
        return ev[1]

    def params(s, u):
        d = dict(u.get("params", {}))
        if s.tier == "thorough":
            d.update(u.get("tparams", {}))
        return d

    def symex(s, u, bc):
        od = "%s/%s-%s" % (s.dir, s.key(u), u["name"])
        left = max(20, s.budget - (time.time() - s.t0) - 30)
        cmd = [s.exe, bc, u["entry"], od, "--workers", str(s.workers), "--timeout", str(int(min(left, u.get("timeout", left)))),
               "--max-viol", str(u.get("max_viol", 6)), "--max-samples", str(u.get("samples", 4)), "--seed", str(s.seed),
               "--rlimit", str(u.get("rlimit", 30000000)), "--max-instr", str(u.get("max_instr", 400000000))]
        for k, v in s.params(u).items():
            cmd += ["--param", "%s=%d" % (k, v)]
        rc, out = sh(cmd, left + 60)
        try:
            st = json.load(open(od + "/stats.json"))
        except Exception as e:
            st = {"error": "engine failed rc=%s %s" % (rc, out[-500:]), "complete": False}
        st["dir"] = od
        return st

    def replay(s, u, wit, kind):
        """-> (status, text): status held / failed / astray / unavailable"""
        exe, out = s.native_bin(u, kind)
        if not exe:
            return "unavailable", out[-2000:]
        cmd = [exe, u["entry"], wit] + ["%s=%d" % kv for kv in s.params(u).items()]
        if kind.startswith("plain"):
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes"] + cmd
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=98:abort_on_error=0", OMP_NUM_THREADS="1", TSAN_OPTIONS="exitcode=97:halt_on_error=1", OPENBLAS_NUM_THREADS="1")
        rc, out = sh(cmd, 120, env)
        if rc == 0 and "SX-OK" in out:
            return "held", out
        if rc == 77:
            return "astray", out
        return "failed", out

    def confirm(s, u, wit, kind):
        order = ["real", "model"]
        if kind == "uninit":
            order = ["plain", "plainmodel", "real"]
        if kind == "race":
            order = ["tsan", "tsanmodel"]
        elif s.params(u).get("omp_threads", 1) > 1:
            order = ["tsan", "tsanmodel"] + order
        log = []
        for k in order:
            st, out = s.replay(u, wit, k)
            log.append("## native replay (%s): %s\n%s" % (k, st, out[-3000:]))
            if st == "failed":
                return True, "\n".join(log)
        return False, "\n".join(log)

    def run_unit(s, u, bcf, do_native):
        bc, err = bcf.result()
        if not bc:
            return {"unit": u["name"], "error": "encoding failed: " + err[-1500:], "complete": False}
        st = s.symex(u, bc)
        st["unit"] = u["name"]
        st["entry"] = u["entry"]
        st["bounds"] = u.get("tbounds", u.get("bounds", "")) if s.tier == "thorough" else u.get("bounds", "")
        st["params"] = s.params(u)
        od = st["dir"]
        st["confirmed"], st["unconfirmed"], st["known"] = [], [], []
        for i in range(64):
            w = od + "/viol.%d.txt" % i
            if not os.path.exists(w):
                break
            txt = open(w).read()
            kind = (re.search(r"^# kind (.*)$", txt, re.M) or [0, ""])[1]
            msg = (re.search(r"^# msg (.*)$", txt, re.M) or [0, ""])[1]
            kn = s.known(u, msg, txt)
            if kn:
                st["known"].append(kn)
                continue
            if st["confirmed"]:
                break
            ok, log = s.confirm(u, w, kind)
            with open(w, "a") as f:
                f.write("\n".join("# " + l for l in log.splitlines()) + "\n")
            (st["confirmed"] if ok else st["unconfirmed"]).append((w, kind, msg))
        st["validated"], st["mismatch"], st["sampletxt"] = 0, [], []
        for i in range(64):
            w = od + "/sample.%d.txt" % i
            if not os.path.exists(w):
                break
            if len(st["sampletxt"]) < 1:
                st["sampletxt"].append(open(w).read()[:1500])
            if do_native and i < u.get("samples", 4):
                r, out = s.replay(u, w, u.get("sample_kind", "real"))
                if r == "held":
                    st["validated"] += 1
                elif r == "failed":
                    st["mismatch"].append({"witness": w, "out": out[-1500:]})
                else:
                    st.setdefault("astray", []).append({"witness": w, "status": r, "out": out[-600:]})
        for fn in ("errors.txt", "inconclusive.txt"):
            if os.path.exists(od + "/" + fn):
                st[fn[:-4] + "_text"] = open(od + "/" + fn).read()[:2000]
        return st

    def known(s, u, msg, txt):
        """known-findings.jsonl: {"property","status":"open","unit","msg_regex","what"}"""
        if not hasattr(s, "_known"):
            s._known = []
            p = V + "/known-findings.jsonl"
            if os.path.exists(p):
                for l in open(p):
                    if l.strip() and l.lstrip().startswith("{"):
                        d = json.loads(l)
                        if d["property"] == s.prop and d.get("status") == "open":
                            s._known.append(d)
        for d in s._known:
            if re.fullmatch(d["unit"], u["name"]) and re.search(d["match"], txt, re.S):
                return d["what"]
        return None

    def go(s):
        s.exe = build_engine()
        units = [u for u in s.P["units"] if (s.tier == "thorough" or not u.get("thorough_only")) and (not s.only or re.fullmatch(s.only, u["name"]))]
        rc, out = sh(["clang++-18"] + CXXF + ["-fno-builtin", "-I", V + "/rt", V + "/rt/rtc.cpp", "-o", s.dir + "/rtc.bc"], 100)
        if rc == 0:
            rc, out = sh(["clang++-18"] + CXXF + [V + "/rt/rtstr.cpp", "-o", s.dir + "/rtstr.bc"], 100)
        if rc:
            print(out)
            return 3
        conc = min(4, max(1, len(units)))
        s.workers = max(2, 8 // conc)
        do_native = os.environ.get("SX_NO_NATIVE") != "1"
        res = []
        with cf.ThreadPoolExecutor(4) as cpool, cf.ThreadPoolExecutor(conc) as pool, cf.ThreadPoolExecutor(2) as npool:
            bcs = {}
            for u in units:
                if s.key(u) not in bcs:
                    bcs[s.key(u)] = cpool.submit(s.bitcode, u)
            if do_native:
                seen = set()
                for u in units:
                    if s.key(u) not in seen and u.get("sample_kind", "real"):
                        seen.add(s.key(u))
                        npool.submit(s.native_bin, u, u.get("sample_kind", "real"))
            fs = [pool.submit(s.run_unit, u, bcs[s.key(u)], do_native and bool(u.get("sample_kind", "real"))) for u in units]
            for f in fs:
                res.append(f.result())
        return s.report(res)

    def report(s, res):
        tot = lambda k: int(sum(r.get(k, 0) or 0 for r in res))
        viols = [(r, v) for r in res for v in r.get("confirmed", [])]
        knowns = sorted({k for r in res for k in r.get("known", [])})
        fns = sorted({f for r in res for f in r.get("functions", [])})
        complete = all(r.get("complete") and not r.get("inconclusive") for r in res)
        cov = {
            "states": tot("paths") + tot("pruned"), "transitions": tot("forks"),
            "traces_validated_against_impl": tot("validated"),
            "samples": [{"unit": r["unit"], "path_witness": t} for r in res for t in r.get("sampletxt", [])][:6] or ["no completed path"],
            "states_are": "symbolic execution paths explored (each stands for all values of the symbolic inputs satisfying its path condition); transitions are the path splits",
            "complete_within_bounds": bool(complete),
            "paths_completed": tot("paths"), "paths_pruned_infeasible_or_assumed_away": tot("pruned"),
            "symbolic_branches": tot("branches_sym"), "ir_instructions": tot("instrs"),
            "solver": {"name": "Z3 4.8.12", "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "seconds": round(sum(r.get("solver_s", 0) for r in res), 3)},
            "assertions": {"discharged_by_solver": tot("checks_z3") + tot("nf_smt"), "discharged_as_equal_normal_forms_only": tot("checks_nf") - tot("nf_smt"), "concrete_on_path": tot("checks_conc"), "inconclusive": tot("inconclusive")},
            "shared_memory_accesses_checked_for_races": tot("race_accesses"),
            "functions_encoded": fns, "functions_encoded_count": len(fns),
            "units": [{k: r.get(k) for k in ("unit", "entry", "bounds", "params", "paths", "pruned", "queries", "solver_s", "checks_z3", "checks_nf", "checks_conc", "complete", "wall_s", "reach", "validated", "error", "errors_text", "inconclusive_text") if r.get(k) not in (None, "")} for r in res],
            "outside_bounds": s.P.get("outside", ""),
            "native_disagreements": [m for r in res for m in r.get("mismatch", [])][:5],
            "unconfirmed_candidates": [{"unit": r["unit"], "kind": v[1], "msg": v[2]} for r in res for v in r.get("unconfirmed", [])],
            "known_findings": knowns,
        }
        ev = {"property": s.prop, "tier": s.tier, "seed": s.seed, "level": "model_checking", "coverage": cov,
              "assumptions": props.COMMON_ASSUMPTIONS + s.P.get("assumptions", []),
              "wall_s": round(time.time() - s.t0, 2), "violations": len(viols)}
        if s.repo == "/repo" or os.environ.get("SX_EVIDENCE"):
            os.makedirs(V + "/evidence", exist_ok=True)
            tmp = V + "/evidence/.%s.tmp" % s.prop
            json.dump(ev, open(tmp, "w"), indent=1)
            os.replace(tmp, V + "/evidence/%s.json" % s.prop)
        for r in res:
            print("%-28s paths %6d pruned %5d queries %6d solver %6.1fs checks z3 %d nf %d conc %d  wall %6.1fs %s%s%s%s" % (
                r["unit"], r.get("paths", 0), r.get("pruned", 0), r.get("queries", 0), r.get("solver_s", 0), r.get("checks_z3", 0), r.get("checks_nf", 0), r.get("checks_conc", 0), r.get("wall_s", 0),
                "complete" if r.get("complete") else "INCOMPLETE", " inconclusive=%d" % r["inconclusive"] if r.get("inconclusive") else "",
                " validated %d" % r.get("validated", 0), " MISMATCH %d" % len(r["mismatch"]) if r.get("mismatch") else ""))
            for k in ("error", "errors_text", "inconclusive_text"):
                if r.get(k):
                    print("    %s: %s" % (k, r[k].strip()[:700]))
            for m in r.get("mismatch", [])[:1]:
                print("    native disagreement on %s: %s" % (m["witness"], m["out"].strip()[-500:]))
            for m in r.get("astray", [])[:1]:
                print("    native replay astray (%s): %s" % (m["status"], m["out"].strip()[-300:]))
            for v in r.get("unconfirmed", []):
                print("    UNCONFIRMED %s [%s] %s" % (v[2], v[1], v[0]))
            miss = [x for x in s.unit(r["unit"]).get("must_reach", []) if not r.get("reach", {}).get(x)]
            if miss and not r.get("confirmed"):
                print("    not reached: %s" % miss)
        print("%s %s: %d units, %s, %d paths, %d solver queries, %.1fs" % (s.prop, s.tier, len(res), "complete" if complete else "NOT COMPLETE", tot("paths"), tot("queries"), time.time() - s.t0))
        for k in knowns:
            print("KNOWN-FINDING: property=%s %s" % (s.prop, k))
        if viols:
            rd = V + "/build/replays"
            os.makedirs(rd, exist_ok=True)
            n = 0
            for r, (w, kind, msg) in viols[:5]:
                dst = "%s/%s-%s-%d.txt" % (rd, s.prop, re.sub(r"\W", "_", r["unit"]), n)
                n += 1
                shutil.copy(w, dst)
                print("  %s: %s [%s]" % (r["unit"], msg, kind))
                print("VIOLATION property=%s replay=%s" % (s.prop, dst))
            return 1
        if any(r.get("error") and not r.get("paths") for r in res):
            print("NO VERDICT: some units could not be encoded")
            return 3
        return 0

    def unit(s, name):
        return next(u for u in s.P["units"] if u["name"] == name)


def main():
    a = [x for x in sys.argv[1:]]
    repo, only, keep = "/repo", None, False
    if "--repo" in a:
        i = a.index("--repo"); repo = a[i + 1]; del a[i:i + 2]
    if "--only" in a:
        i = a.index("--only"); only = a[i + 1]; del a[i:i + 2]
    if "--keep" in a:
        a.remove("--keep"); keep = True
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    r = Run(prop, tier, repo, only, keep)
    rc = r.go()
    if not keep:
        shutil.rmtree(r.dir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
