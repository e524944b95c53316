#!/usr/bin/env python3
"""Decides one property of ethos by symbolic execution of its real code.

usage: check.py ID [--thorough] [--case NAME] [--keep] | check.py --setup
"""
import sys, os, json, hashlib, subprocess, time, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(V, "build")
ENG = os.path.join(V, "engine")
CXX = "clang++-18"
JOBS = os.cpu_count() or 4
T0 = time.time()

RTSRC = ["rt", "explore", "wrap_gmp", "wrap_libc"]
RTFLAGS = ["-std=gnu++17", "-O2", "-g1", "-include", ENG + "/noextern.h", "-fno-pic"]
INSTR = ["-std=gnu++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-pic",
         "-include", ENG + "/noextern.h", "-DEO_ASSERTIONS", "-DETHOS_VERIF",
         "-I" + REPO + "/src", "-I" + ENG, "-I" + V + "/harness", "-w"]
NATIVE = ["-std=gnu++17", "-O1", "-g1", "-DEO_ASSERTIONS", "-DETHOS_VERIF",
          "-I" + REPO + "/src", "-I" + ENG, "-I" + V + "/harness", "-w"]


class EngineError(Exception):
    pass


def sh(cmd, env=None, timeout=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", env=e, timeout=timeout)
    if r.returncode != 0:
        raise EngineError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def atomic(path, fn):
    """fn(tmp) creates the file, then it is renamed into place"""
    if os.path.exists(path):
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = "%s.%d.tmp" % (path, os.getpid())
    fn(tmp)
    os.rename(tmp, path)


def build_engine(pool):
    srcs = sorted(glob.glob(ENG + "/*"))
    key = digest(*[os.path.basename(s) for s in srcs], *[rd(s) for s in srcs])
    d = os.path.join(BUILD, "eng-" + key)

    def plug(tmp):
        flags = sh(["llvm-config-18", "--cxxflags"]).split()
        sh([CXX] + flags + ["-std=c++17", "-O1", "-fno-rtti", "-fPIC", "-shared",
                            ENG + "/SxPass.cpp", "-o", tmp])

    def rt(tmp):
        objs = []
        for s in RTSRC:
            objs.append("%s.%s.o" % (tmp, s))
        list(ThreadPoolExecutor(4).map(
            lambda so: sh([CXX] + RTFLAGS + (["-O1"] if so[0] == "explore" else []) + ["-c", "%s/%s.cpp" % (ENG, so[0]), "-o", so[1]]),
            zip(RTSRC, objs)))
        sh(["ld", "-r", "--force-group-allocation"] + objs + ["-o", tmp + ".r"])
        nm = sh(["nm", "--defined-only", tmp + ".r"]).splitlines()
        keep = []
        for l in nm:
            f = l.split()
            if len(f) == 3 and (f[2].startswith("__sx_") or f[2].startswith("__sxw_")
                                or f[2] in ("main", "sx_end_cb", "sxQuarantine")):
                keep.append(f[2])
        with open(tmp + ".keep", "w") as f:
            f.write("\n".join(keep) + "\n")
        sh(["objcopy", "--keep-global-symbols=" + tmp + ".keep", tmp + ".r", tmp])
        with open(os.path.join(d, "wraplist"), "w") as f:
            f.write("\n".join(k[6:] for k in keep if k.startswith("__sxw_")) + "\n")
        for o in objs + [tmp + ".r", tmp + ".keep"]:
            os.unlink(o)

    os.makedirs(d, exist_ok=True)
    a = pool.submit(atomic, d + "/SxPass.so", plug)
    b = pool.submit(atomic, d + "/rtall.o", rt)
    class Eng:
        dir = d

        @staticmethod
        def result():
            a.result()
            b.result()
    return Eng, key


def repo_sources():
    src = []
    for root, _, files in os.walk(REPO + "/src"):
        for f in files:
            if f.endswith(".cpp"):
                src.append(os.path.join(root, f))
    hdrs = []
    for root, _, files in os.walk(REPO + "/src"):
        for f in files:
            if f.endswith((".h", ".hpp", ".inc", ".in")):
                hdrs.append(os.path.join(root, f))
    return sorted(src), sorted(hdrs)


def hdr_key():
    _, hdrs = repo_sources()
    return digest(*[os.path.relpath(h, REPO) for h in hdrs], *[rd(h) for h in hdrs])


def instrument(bc, eng, o):
    """bitcode from the front end -> instrumented object"""
    e = {"SX_WRAPLIST": eng + "/wraplist"}
    sh(["opt-18", "-load-pass-plugin=" + eng + "/SxPass.so", "-passes=default<O1>", "-vectorize-loops=false",
        "-vectorize-slp=false", bc, "-o", o + ".bc"], env=e)
    sh(["llc-18", "-O0", "-relocation-model=static", "-filetype=obj", o + ".bc", "-o", o])
    os.unlink(o + ".bc")


def front(src, flags, bc):
    sh([CXX] + flags + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", src, "-o", bc])


def compile_repo(pool, eng, ekey, native):
    """all objects of the code under test; returns futures -> object path"""
    srcs, _ = repo_sources()
    if not native:
        srcs = [ENG + "/facets.cpp"] + srcs
    hk = hdr_key()
    futs = []
    for s in srcs:
        extra = ["-Dmain=ethos_main"] if os.path.basename(s) == "main.cpp" else []
        flags = (NATIVE if native else INSTR) + extra
        k = digest(hk, rd(s), os.path.relpath(s, REPO), " ".join(flags), "" if native else ekey)
        o = os.path.join(BUILD, "obj", ("n-" if native else "i-") + k + ".o")

        def comp(tmp, s=s, flags=flags):
            if native:
                sh([CXX] + flags + ["-c", s, "-o", tmp])
            else:
                front(s, flags, tmp + ".in.bc")
                eng.result()
                instrument(tmp + ".in.bc", eng.dir, tmp)
                os.unlink(tmp + ".in.bc")
        futs.append((o, pool.submit(atomic, o, comp)))
    return futs


def harness_src(pid):
    return os.path.join(V, "harness", pid + ".cpp")


def compile_harness(pool, pid, eng, ekey, native):
    hs = [harness_src(pid)] + sorted(glob.glob(V + "/harness/*.h"))
    flags = (NATIVE if native else INSTR) + ["-fno-access-control"]
    k = digest(hdr_key(), *[rd(h) for h in hs], " ".join(flags), ekey)
    o = os.path.join(BUILD, "obj", ("hn-" if native else "hi-") + pid + "-" + k + ".o")

    def comp(tmp):
        if native:
            sh([CXX] + flags + ["-c", hs[0], "-o", tmp])
        else:
            front(hs[0], flags, tmp + ".in.bc")
            eng.result()
            instrument(tmp + ".in.bc", eng.dir, tmp)
            os.unlink(tmp + ".in.bc")
    return [(o, pool.submit(atomic, o, comp))]


def link(pid, work, pool, native):
    eng, ekey = build_engine(pool)
    futs = compile_harness(pool, pid, eng, ekey, native) + compile_repo(pool, eng, ekey, native)
    objs = []
    for o, f in futs:
        f.result()
        objs.append(o)
    eng.result()
    exe = os.path.join(work, pid + ("-native" if native else "-sym"))
    if native:
        nat = os.path.join(BUILD, "obj", "native-" + ekey + ".o")
        atomic(nat, lambda t: sh([CXX] + NATIVE + ["-c", ENG + "/native.cpp", "-o", t]))
        sh([CXX] + objs + [nat, "-o", exe, "-Wl,--wrap=exit", "-Wl,--wrap=abort", "-lgmp", "-lgmpxx"])
    else:
        sh([CXX, "-no-pie", "-static-libstdc++", "-static-libgcc"] + objs
           + [eng.dir + "/rtall.o", "-o", exe, "/usr/lib/x86_64-linux-gnu/libgmp.a", "-ldl"])
    return exe


def known_findings():
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt", "-p"], input="\n".join(names), text=True, stdout=subprocess.PIPE)
    return sorted(set(r.stdout.split("\n")) - {""})


def meta():
    return json.load(open(os.path.join(V, "harness", "meta.json")))


def main():
    args = sys.argv[1:]
    pool = ThreadPoolExecutor(JOBS + 2)
    if "--setup" in args:
        eng, ekey = build_engine(pool)
        for o, f in compile_repo(pool, eng, ekey, False):
            f.result()
        eng.result()
        print("engine and instrumented objects built in %.1fs" % (time.time() - T0))
        return 0
    pid = args[0]
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    m = meta().get(pid, {})
    tier = "thorough" if thorough else "quick"
    work = tempfile.mkdtemp(prefix="sx-%s-" % pid)
    os.environ["SX_SCRATCH"] = work
    replaydir = os.path.join(V, "replays")
    try:
        exe = link(pid, work, pool, False)
        tb = time.time() - T0
        outp = os.path.join(work, "out.json")
        cfg = m.get(tier, {})
        cmd = [exe, "--out", outp, "--jobs", str(JOBS), "--tier", "1" if thorough else "0",
               "--budget", str(cfg.get("budget", 600 if thorough else 100)),
               "--total", str(cfg.get("total", 7200 if thorough else 400)),
               "--run-timeout", str(cfg.get("run_timeout", 20))]
        if "--case" in args:
            cmd += ["--case", args[args.index("--case") + 1]]
        if not thorough:
            cmd += ["--first"]
        r = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace")
        sys.stderr.write(r.stderr[-20000:])
        if not os.path.exists(outp):
            raise EngineError("no result: rc=%d\n%s" % (r.returncode, r.stderr[-3000:]))
        res = json.load(open(outp))
        return report(pid, m, tier, seed, res, work, pool, replaydir, tb, args)
    except EngineError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        return 3
    finally:
        if "--keep" not in args:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work directory", work)


def replay(native, case, inputs, work, tier):
    rdir = tempfile.mkdtemp(prefix="r", dir=work)
    env = dict(os.environ)
    env["SX_SCRATCH"] = rdir
    try:
        r = subprocess.run([native, "--case", case, "--tier", "1" if tier == "thorough" else "0",
                            "--in", ",".join(map(str, inputs))], cwd=rdir, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=120)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 1, "CHECK-FAILED no termination within 120 s\n"


def report(pid, m, tier, seed, res, work, pool, replaydir, tb, args):
    cases = res["cases"]
    viols = []
    errors = []
    for c in cases:
        for v in c["violations"]:
            viols.append((c["case"], v))
        if c["engine_errors"]:
            errors.append("%s: %s" % (c["case"], "; ".join(c["errors"][:2])))
    reach = set()
    for c in cases:
        reach |= set(c["reach"])
    missing = []
    if "--case" not in args and not viols:
        missing = [l for l in m.get("reach", []) if l not in reach]
    native = None
    confirmed, unconfirmed, known = [], [], []
    validated = slow = 0
    nsamples = 3 if tier == "thorough" else 0
    if viols or nsamples:
        native = link(pid, work, pool, True)
    for case, v in viols:
        rc, out = replay(native, case, v["inputs"], work, tier)
        if rc != 1:
            if v["msg"].startswith("TIMEOUT"):
                slow += 1  # only slow under the engine: bound not reached
            else:
                unconfirmed.append((case, v, rc, out))
            continue
        validated += 1
        kf = None
        for k in known_findings():
            if k["property"] == pid and k.get("case") == case and k.get("msg") == v["msg"] \
               and all(t in out for t in k.get("out", [])):
                kf = k
        (known if kf else confirmed).append((case, v, out, kf))
    if nsamples:
        for c in cases:
            for s in c["samples"][:nsamples]:
                rc, out = replay(native, c["case"], s, work, tier)
                if rc in (0, 4):
                    validated += 1
                elif not any(v["inputs"] == s for v in c["violations"]):
                    unconfirmed.append((c["case"], {"msg": "sample path differs", "inputs": s}, rc, out))
    fns = demangle(res.get("functions", []))
    tot = lambda k: sum(c[k] for c in cases)
    cov = {
        "states": tot("paths"),
        "transitions": tot("branches"),
        "traces_validated_against_impl": validated,
        "samples": [{"case": c["case"], "inputs": s} for c in cases for s in c["samples"][:2]][:30],
        "exhaustive": all(c["complete"] for c in cases) and not slow,
        "meaning": "states: execution paths of the real code, each covering every input that follows it; "
                   "transitions: symbolic branch decisions on them; traces validated: counterexamples and "
                   "sample inputs re-run on the uninstrumented build",
        "infeasible_paths_cut_by_assumptions": tot("infeasible"),
        "queries": {"total": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown")},
        "assertions_discharged_by_solver": tot("solver_checks"),
        "assertions_constant_on_their_path": tot("path_checks"),
        "assertions_undecided": tot("unknown_checks"),
        "solver_seconds": round(tot("solver_s"), 2),
        "build_seconds": round(tb, 1),
        "bounds": m.get("bounds", ""),
        "outside_the_bounds": m.get("outside", ""),
        "functions_encoded": fns,
        "cases": [{k: c[k] for k in ("case", "paths", "queries", "solver_checks", "path_checks", "complete",
                                     "pending", "max_vars", "max_branches", "reach", "ends", "wall")}
                  for c in cases],
    }
    if known:
        cov["known_findings"] = [{"case": c, "msg": v["msg"], "inputs": v["inputs"]} for c, v, o, k in known]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": m.get("assumptions", []) + meta().get("_assumptions", []),
          "wall_s": round(time.time() - T0, 1), "violations": len(confirmed)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for case, v, out, k in known:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    if confirmed:
        os.makedirs(replaydir, exist_ok=True)
        done = set()
        for i, (case, v, out, _) in enumerate(confirmed):
            if (case, v["msg"]) in done:
                continue
            done.add((case, v["msg"]))
            p = os.path.join(replaydir, "%s-%d.json" % (pid, i))
            with open(p, "w") as f:
                json.dump({"property": pid, "case": case, "message": v["msg"], "inputs": v["inputs"],
                           "native_output": out[-4000:],
                           "rerun": "./check.py --replay %s %s" % (pid, p)}, f, indent=1)
            print("%s: %s\n%s" % (case, v["msg"], out.strip()[-1500:]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        rc = 1
    for case, v, c, out in unconfirmed:
        print("UNCONFIRMED %s: %s inputs=%s (native rc=%d: %s)" % (case, v["msg"], v["inputs"], c, out.strip()[-500:]))
        if rc == 0:
            rc = 3
    for e in errors:
        print("ENGINE-ERROR %s" % e)
        if rc == 0:
            rc = 3
    if missing:
        print("VACUOUS: never reached: %s" % ", ".join(missing))
        if rc == 0:
            rc = 3
    und = tot("unknown_checks")
    if und and rc == 0:
        print("UNDECIDED assertions: %d" % und)
        rc = 3
    print("%s %s: %d paths, %d queries (%d unsat), %d assertions by solver, %d on paths, %s, %.1fs" % (
        pid, tier, tot("paths"), tot("queries"), tot("unsat"), tot("solver_checks"), tot("path_checks"),
        "complete within bounds" if cov["exhaustive"] else "budget ended first", time.time() - T0))
    return rc


def do_replay(argv):
    pid, p = argv
    d = json.load(open(p))
    pool = ThreadPoolExecutor(JOBS)
    work = tempfile.mkdtemp(prefix="sx-")
    try:
        rc, out = replay(link(pid, work, pool, True), d["case"], d["inputs"], work, "quick")
        print(out)
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) > 3 and sys.argv[1] == "--replay":
        sys.exit(do_replay(sys.argv[2:4]))
    sys.exit(main())
