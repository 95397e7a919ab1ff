#!/usr/bin/env python3
"""Runs the contracts of one property.

  check.py PROPERTY [--tier quick|thorough] [--only REGEX] [--keep]

Every run: compile the contract translation units, which include /repo's
current sources, to LLVM bitcode (for the verifier) and to a sanitized native
program (for replay); generate and discharge the proof obligations with PVC;
replay counterexamples natively; write evidence/<id>.json.
"""
import argparse, concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PV_REPO", "/repo")
LLVM = "/usr/lib/llvm-14"
ENV = dict(os.environ, PATH=LLVM + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), LC_ALL="C.UTF-8")
DEFS = ["-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-D__STDC_LIMIT_MACROS", '-DPHASAR_SRC_DIR="/repo"', '-DPHASAR_BUILD_DIR="/repo/_build"']
BCFLAGS = ["-std=c++17", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only",
           "-fsanitize=signed-integer-overflow,shift,bounds,return,unreachable",
           "-fsanitize-trap=all", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
NATFLAGS = ["-std=c++17", "-w", "-O1", "-g1", "-fno-inline", "-DPV_NATIVE=1", "-fno-omit-frame-pointer",
            "-fsanitize=address,signed-integer-overflow,shift,bounds,return,unreachable,integer-divide-by-zero,null,bool",
            "-fno-sanitize-recover=all"]
JOBS = int(os.environ.get("PV_JOBS", "8"))

sys.path.insert(0, VERIF)
from checks import CHECKS, TRUSTED  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **kw)


def incs(tu):
    r = ["-I" + os.path.join(VERIF, "include")]
    for d in tu.get("inc", []):
        r.insert(0, "-I" + os.path.join(VERIF, d))
    r += ["-I" + LLVM + "/include", "-I" + REPO + "/include", "-I" + REPO]
    return r


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def build_pvc():
    out = os.path.join(VERIF, "build", "pvc")
    src = os.path.join(VERIF, "pvc", "pvc.cpp")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    p = sh(["clang++-14", "-std=c++17", "-O2", "-w", "-I" + LLVM + "/include"] + DEFS[:4] +
           [src, "-o", tmp, "-L" + LLVM + "/lib", "-lLLVM-14", "-lz3"])
    if p.returncode:
        print(p.stderr[-3000:])
        sys.exit(3)
    os.rename(tmp, out)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[a.prop]
    thorough = a.tier == "thorough"
    budget = 3000 if thorough else 780
    pvc = build_pvc()
    wd = tempfile.mkdtemp(prefix="pv-%s-" % a.prop)
    rc = 3
    try:
        rc = run(a, cfg, wd, pvc, seed, thorough, budget, t0)
    finally:
        if not a.keep:
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("kept", wd)
    sys.exit(rc)


def run(a, cfg, wd, pvc, seed, thorough, budget, t0):
    pool = cf.ThreadPoolExecutor(JOBS)
    errors = []
    xdef = ["-DPV_THOROUGH=1"] if thorough else []
    replaydir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replaydir, exist_ok=True)
    for f in os.listdir(replaydir):
        if f.startswith(a.prop + "-"):
            os.unlink(os.path.join(replaydir, f))

    # ---- compile -------------------------------------------------------
    def cc(tu, i, src, mode):
        o = os.path.join(wd, "%s.%s.%s" % (i, os.path.basename(src), "bc" if mode == "bc" else "o"))
        if not os.path.isabs(src):
            src = os.path.join(VERIF, src)
        rt = src.endswith(("/pvc/pvrt.cpp", "/pvc/llvmrt.cpp"))
        fl = (BCFLAGS + ["-emit-llvm"] + (["-fno-builtin"] if rt else [])) if mode == "bc" else NATFLAGS
        p = sh(["clang++-14"] + fl + tu.get("flags", []) + xdef + DEFS + incs(tu) + ["-c", src, "-o", o])
        if p.returncode:
            return None, "%s (%s): %s" % (src, mode, p.stderr[-2500:])
        return o, None

    jobs = {}
    for i, tu in enumerate(cfg["tus"]):
        srcs = [tu["src"]] + [s.replace("/repo", REPO) for s in tu.get("extra", [])]
        for s in srcs + ["pvc/pvrt.cpp", "pvc/llvmrt.cpp"]:
            jobs[(i, "bc", s)] = pool.submit(cc, tu, i, s, "bc")
        if not a.no_native and tu.get("native", True):
            for s in srcs + [x.replace("/repo", REPO) for x in tu.get("native_extra", [])] + ["pvc/pv_native.cpp"]:
                jobs[(i, "o", s)] = pool.submit(cc, tu, i, s, "o")
    work = []
    contracts = {}
    for i, tu in enumerate(cfg["tus"]):
        tu["_bc"] = None
        bcs, bad = [], False
        for (j, m, s), f in jobs.items():
            if j == i and m == "bc":
                o, e = f.result()
                if e:
                    errors.append("extraction failed: " + e)
                    bad = True
                else:
                    bcs.append(o)
        if bad:
            continue
        bc = os.path.join(wd, "l%d.bc" % i)
        p = sh(["llvm-link"] + bcs + ["-o", bc])
        if p.returncode:
            errors.append("llvm-link: " + p.stderr[-1500:])
            continue
        tu["_bc"] = bc
        names = sh([pvc, "--list", bc]).stdout.split()
        pat = re.compile(tu.get("contracts", ".*"))
        for n in names:
            if pat.search(n) and (not a.only or re.search(a.only, n)) and not (n.startswith("t_") and not thorough):
                contracts[n] = i
                work.append(n)
    if not work:
        for e in errors:
            print("ERROR:", e)
        print("ERROR: no contract could be extracted for", a.prop)
        return 3

    # ---- verify --------------------------------------------------------
    # longest contracts first (hint), then the rest
    slow = cfg.get("slow", [])
    work.sort(key=lambda n: -(len(slow) - slow.index(n)) if n in slow else 0)
    percontract = cfg.get("timeout", 240) * (4 if thorough else 1)
    deadline = t0 + budget * 0.72

    def verify(n):
        left = min(percontract, deadline - time.time())
        if left < 5:
            return dict(contract=n, status="undecided", undecided=["no time left"])
        out = os.path.join(wd, n + ".json")
        try:
            p = subprocess.run([pvc, cfg["tus"][contracts[n]]["_bc"], "-c", n, "-t", "%.0f" % left, "-o", out],
                               capture_output=True, text=True, env=ENV, timeout=left + 60, preexec_fn=limit)
            return json.load(open(out))[0]
        except Exception as e:
            try:
                err = p.stderr[-600:]
            except Exception:
                err = ""
            return dict(contract=n, status="undecided", undecided=["verifier did not finish: %s %s" % (e, err)])

    vf = {n: pool.submit(verify, n) for n in work}
    res = {n: f.result() for n, f in vf.items()}

    # ---- native build --------------------------------------------------
    nat = {}
    if not a.no_native:
        for i, tu in enumerate(cfg["tus"]):
            if not tu.get("native", True):
                continue
            objs, bad = [], False
            for (j, m, s), f in jobs.items():
                if j == i and m == "o":
                    o, e = f.result()
                    if e:
                        errors.append("native build failed: " + e)
                        bad = True
                    else:
                        objs.append(o)
            if bad:
                continue
            exe = os.path.join(wd, "nat%d" % i)
            p = sh(["clang++-14", "-fsanitize=address,undefined", "-fuse-ld=lld"] + objs + ["-o", exe,
                    "-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib"] +
                   tu.get("ldflags", ["-Wl,--unresolved-symbols=ignore-all"]) + tu.get("libs", ["-lLLVM-14", "-lpthread"]))
            if p.returncode:
                errors.append("native link failed: " + p.stderr[-2500:])
                continue
            nat[i] = exe

    # ---- replay / search ----------------------------------------------
    def replay(n, f):
        i = contracts[n]
        if i not in nat:
            return False, "no native program"
        try:
            p = sh([nat[i], "--replay", f], timeout=90)
        except subprocess.TimeoutExpired:
            return False, "replay timed out"
        out = (p.stdout + p.stderr)[-1500:]
        if p.returncode == 127 or "symbol lookup error" in out:
            return False, out
        return p.returncode not in (0, 78, 3, -14), out

    def search(n, secs, s):
        i = contracts[n]
        if i not in nat or not cfg["tus"][i].get("search", True):
            return None
        f = os.path.join(replaydir, "%s-%s-search.txt" % (a.prop, n))
        try:
            p = sh([nat[i], "--search", n, "--seed", str(s), "--runs", str(10**7 if thorough else 10**6),
                    "--time", str(secs), "--out", f], timeout=secs + 90)
        except subprocess.TimeoutExpired:
            return None
        try:
            j = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            return None
        j["file"] = f
        return j

    natstats = {}
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]

    def is_known(n, label):
        for k in known:
            if k.get("status") == "open" and k["property"] == a.prop and re.fullmatch(k["contract"], n) and \
                    (not k.get("label") or k["label"] in label):
                return k
        return None

    violations, knownhits = [], {}
    secs = cfg.get("search_s", 2) * (8 if thorough else 1)
    left = t0 + budget - time.time() - 40
    nsearch = len([n for n in work if contracts[n] in nat])
    if nsearch:
        secs = max(0.3, min(secs, left * JOBS / max(1, nsearch) * 0.6))
    sf = {n: pool.submit(search, n, secs, seed) for n in work}
    for n in work:
        r = res[n]
        s = sf[n].result()
        if s:
            natstats[n] = s
        if r["status"] == "violated":
            for k, v in enumerate(r["violations"]):
                kf = is_known(n, v["label"])
                if kf:
                    knownhits[kf["id"]] = kf
                    continue
                f = os.path.join(replaydir, "%s-%s-%d.txt" % (a.prop, n, k))
                with open(f, "w") as fh:
                    fh.write("contract %s\n" % n)
                    for x in v["inputs"]:
                        fh.write("in %s %s\n" % (re.sub(r"\s", "_", x["name"]) or "_", x["v"]))
                    for u in v["ufs"]:
                        fh.write("uf %s %s %s\n" % (u["f"], " ".join(u["args"]), u["v"]))
                    fh.write("# failed obligation: %s\n# at %s\n" % (v["label"], v["loc"]))
                    for l in v["stack"].splitlines():
                        fh.write("#   %s\n" % l)
                ok, out = replay(n, f)
                with open(f, "a") as fh:
                    fh.write("# native replay: %s\n" % ("REPRODUCED" if ok else "not reproduced"))
                    for l in out.splitlines()[-25:]:
                        fh.write("#   %s\n" % l)
                violations.append(dict(contract=n, label=v["label"], loc=v["loc"], file=f, reproduced=ok))
            mine = [v for v in violations if v["contract"] == n]
            if mine and not any(v["reproduced"] for v in mine):
                s2 = search(n, 12, seed + 77)
                if s2 and s2["violated"] and not is_known(n, s2["label"]):
                    violations.append(dict(contract=n, label=s2["label"] or "crash", loc="native",
                                           file=s2["file"], reproduced=True))
        if s and s["violated"]:
            kf = is_known(n, s["label"])
            if kf:
                knownhits[kf["id"]] = kf
            else:
                violations.append(dict(contract=n, label=s["label"] or "crash", loc="native search",
                                       file=s["file"], reproduced=True))
    pool.shutdown()

    # ---- evidence ------------------------------------------------------
    tot = lambda k: sum(int(r.get(k, 0) or 0) for r in res.values())
    named = dis = mem = 0
    fails = []
    funcs, replaced, assumed, bounded, invs = set(), set(), set(), set(), set()
    for n, r in res.items():
        for s in r.get("sites", []):
            if s["label"] == "memory-safety":
                mem += s["vcs"]
                continue
            named += s["vcs"]
            dis += s["simp"] + s["z3"]
        funcs |= set(r.get("functions", []))
        replaced |= set(r.get("replaced", []))
        assumed |= set(r.get("assumed", []))
        bounded |= {"%s: %s" % (n, b) for b in r.get("bounded", [])}
        invs |= set(r.get("invariants", []))
    by = {}
    for r in res.values():
        by.setdefault(r["status"], []).append(r["contract"])
    undec = sorted(by.get("undecided", []) + by.get("vacuous", []) + by.get("missing", []))
    ev = dict(
        property=a.prop, tier=a.tier, seed=seed, level=cfg.get("level", "proof"),
        coverage=dict(
            obligations=named + mem, discharged=dis + mem,
            contract_and_assertion_obligations=named,
            memory_safety_obligations=mem,
            discharged_by_simplifier=tot("simp") , discharged_by_z3=tot("z3"),
            solver_queries=tot("queries"), solver_seconds=round(sum(r.get("solver_s", 0) for r in res.values()), 1),
            second_solver_queries=tot("external_solver"),
            paths=tot("completed"), instructions=tot("insts"),
            contracts={k: len(v) for k, v in by.items()},
            contracts_undecided=undec[:60],
            undecided_reasons=sorted({u[:300] for n in undec for u in res[n].get("undecided", [])})[:20],
            contracts_bounded=sorted(by.get("bounded", []))[:60], bounds=sorted(bounded)[:40],
            loop_invariants=sorted(invs),
            functions_under_contract=len(funcs),
            functions=sorted(funcs)[:int(cfg.get("maxfuncs", 150))],
            callee_contracts_used_instead_of_bodies=sorted(replaced)[:40],
            checker_cmd="check.py %s --tier %s (pvc over bitcode of /repo's working tree; back end Z3 %s)" % (a.prop, a.tier, "4.8.12"),
            trusted_base=TRUSTED + cfg.get("trusted", []),
            native_search=dict(contracts=len(natstats), runs=sum(s["runs"] for s in natstats.values()),
                               satisfied=sum(s["satisfied"] for s in natstats.values())),
            per_contract={n: "%s vcs=%s paths=%s %.1fs" % (r["status"], r.get("vcs", 0), r.get("completed", 0), r.get("wall_s", 0))
                          for n, r in sorted(res.items())[:150]},
            extraction_errors=[e[:600] for e in errors],
        ),
        assumptions=sorted(assumed)[:40] + cfg.get("assumptions", []),
        wall_s=round(time.time() - t0, 1), violations=len(violations))
    p = os.path.join(VERIF, "evidence", a.prop + ".json")
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and ev["coverage"]["functions"]:
        ev["coverage"]["functions"] = ev["coverage"]["functions"][: len(ev["coverage"]["functions"]) // 2]
        if len(ev["coverage"]["functions"]) < 5:
            ev["coverage"]["per_contract"] = {}
        txt = json.dumps(ev, indent=1)
    open(p, "w").write(txt + "\n")

    print("%s: %d contracts: %s; %d obligations (%d contract/assertion), %d paths, %.0fs" %
          (a.prop, len(work), ", ".join("%s %d" % (k, len(v)) for k, v in sorted(by.items())), named + mem, named,
           tot("completed"), time.time() - t0))
    for n in undec:
        print("UNDECIDED %s: %s" % (n, "; ".join(u[:160] for u in res[n].get("undecided", res[n].get("missing_covers", []))[:2])))
    for e in errors:
        print("NOTE", e[:1500])
    for k in knownhits.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    if violations:
        violations.sort(key=lambda v: not v["reproduced"])
        for v in violations[:8]:
            print("failed obligation in contract %s: %s (%s)%s" %
                  (v["contract"], v["label"], v["loc"], " [replayed]" if v["reproduced"] else ""))
        v = violations[0]
        print("VIOLATION property=%s replay=%s%s" % (a.prop, v["file"], "" if v["reproduced"] else " no-failing-input-found"))
        return 1
    if not any(r["status"] in ("proved", "bounded") for r in res.values()) and not knownhits and \
            not sum(s["satisfied"] for s in natstats.values()):
        print("ERROR: nothing was decided")
        return 3
    return 0


if __name__ == "__main__":
    main()
