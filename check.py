#!/usr/bin/env python3
"""Decide one property of FLPR by symbolic execution of its compiled source.

  check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep DIR]

Exit 0: no violation within the bounds.  Exit 1: a counterexample found by the
solver was reproduced on a native build of /repo; prints
  VIOLATION property=<id> replay=<path>
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FLPR_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4
sys.path.insert(0, VERIF)
import props  # noqa: E402


def group(cmd, timeout):
    """run the engine; on a timeout its workers are ended, too"""
    q = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out = q.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        os.killpg(q.pid, 9)
        q.communicate()
        raise
    return subprocess.CompletedProcess(cmd, q.returncode, out)


def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def ensure_engine():
    """build/sx and build/models.bc, rebuilt when their sources change"""
    src = glob.glob(ENG + "/*") + [HAR + "/sx_stream.h"]
    d = digest(src)
    stamp = os.path.join(BUILD, "engine.stamp")
    sx = os.path.join(BUILD, "sx")
    mb = os.path.join(BUILD, "models.bc")
    if os.path.exists(sx) and os.path.exists(mb) and os.path.exists(stamp) and open(stamp).read() == d:
        return sx, mb
    os.makedirs(BUILD, exist_ok=True)
    cxx = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
    cxx = [f for f in cxx if not f.startswith("-std=") and f != "-fno-exceptions"]
    ld = sh(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "bitreader", "support"]).stdout.split()
    a = subprocess.Popen(["clang++", "-std=c++17", "-O2", "-w", *cxx, "-fexceptions", ENG + "/sx.cc", "-o", sx + ".new", *ld, "-lz3"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.Popen(["clang++", *BCFLAGS, ENG + "/models.cc", "-o", mb], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    oa = a.communicate()[0]
    ob = b.communicate()[0]
    if a.returncode or b.returncode:
        print("cannot build the engine:\n" + oa + ob)
        sys.exit(2)
    os.replace(sx + ".new", sx)
    with open(stamp, "w") as f:
        f.write(d)
    return sx, mb


BCFLAGS = ["-std=c++17", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-I" + HAR, "-emit-llvm", "-c", "-w"]


class Build:
    """/repo's current sources as bitcode, and natively for replays"""

    def __init__(self, work):
        self.work = work
        self.src = sorted(glob.glob(REPO + "/src/flpr/*.cc"))
        self.gen = os.path.join(work, "gen")
        os.makedirs(self.gen, exist_ok=True)
        r = sh(["flex", "-o", self.gen + "/scan_fort.cc", "--header-file=" + self.gen + "/scan_fort.hh", REPO + "/src/flpr/scan_fort.l"])
        if r.returncode:
            print(r.stdout)
            sys.exit(2)
        self.src.append(self.gen + "/scan_fort.cc")
        self.inc = ["-I" + REPO + "/src", "-I" + REPO + "/src/flpr", "-I" + REPO + "/apps", "-I" + self.gen, "-I" + HAR]
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.native_f = {}
        self.cache = None
        if os.environ.get("VERIF_CACHE"):
            allsrc = glob.glob(REPO + "/src/flpr/*") + glob.glob(REPO + "/apps/*") + glob.glob(HAR + "/*")
            self.cache = os.path.join(BUILD, "cache", digest([p for p in allsrc if os.path.isfile(p)]))
            os.makedirs(self.cache, exist_ok=True)

    def one(self, flags, src, out):
        if self.cache:
            c = os.path.join(self.cache, hashlib.sha256(" ".join(flags[1:]).replace(self.work, "").encode()).hexdigest()[:12] + os.path.basename(out))
            if os.path.exists(c):
                shutil.copy(c, out)
                return 0, ""
        r = sh(flags + [src, "-o", out])
        if self.cache and r.returncode == 0:
            shutil.copy(out, c)
        return r.returncode, r.stdout

    def start(self, harness):
        """submit the bitcode compilations"""
        self.bc = {}
        d = os.path.join(self.work, "bc")
        os.makedirs(d, exist_ok=True)
        for s in self.src + [os.path.join(HAR, h) for h in harness]:
            o = os.path.join(d, os.path.basename(s)[:-3] + ".bc")
            self.bc[o] = self.pool.submit(self.one, ["clang++", *BCFLAGS, *self.inc], s, o)

    def link(self, harness, models):
        hs = {h[:-3] + ".bc" for h in harness}
        base = []
        for o, f in self.bc.items():
            rc, out = f.result()
            if rc:
                print("cannot compile %s\n%s" % (o, out[:4000]))
                sys.exit(2)
            if os.path.basename(o) not in hs:
                base.append(o)
        res = {}
        for h in harness:
            o = os.path.join(self.work, "linked_" + h[:-3] + ".bc")
            r = sh(["llvm-link-18", os.path.join(self.work, "bc", h[:-3] + ".bc"), *base, models, "-o", o])
            if r.returncode:
                print(r.stdout[:4000])
                sys.exit(2)
            res[h] = o
        return res

    VARIANTS = {
        "plain": ["-O0", "-g1"],
        "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
        "pattern": ["-O0", "-ftrivial-auto-var-init=pattern"],
        "opt": ["-O2"],
    }

    def start_native(self, variant, harness):
        if variant in self.native_f:
            return
        d = os.path.join(self.work, "n_" + variant)
        os.makedirs(d, exist_ok=True)
        fl = ["clang++", "-std=c++17", "-w", "-c", "-DSX_NATIVE", *self.VARIANTS[variant], *self.inc]
        js = {}
        for s in self.src + [HAR + "/replay.cc"] + [os.path.join(HAR, h) for h in harness]:
            o = os.path.join(d, os.path.basename(s)[:-3] + ".o")
            js[o] = self.pool.submit(self.one, fl, s, o)
        self.native_f[variant] = (d, js, {})

    def native(self, variant, h, harness):
        self.start_native(variant, harness)
        d, js, exes = self.native_f[variant]
        if h in exes:
            return exes[h]
        hs = {x[:-3] + ".o" for x in harness}
        objs = []
        for o, f in js.items():
            rc, out = f.result()
            if rc:
                print("native build failed: %s\n%s" % (o, out[:3000]))
                sys.exit(2)
            if os.path.basename(o) not in hs or os.path.basename(o) == h[:-3] + ".o":
                objs.append(o)
        exe = os.path.join(d, h[:-3])
        san = [f for f in self.VARIANTS[variant] if f.startswith("-fsanitize=")]
        r = sh(["clang++", *san, "-rdynamic", *objs, "-o", exe, "-ldl"])
        if r.returncode:
            print(r.stdout[:3000])
            sys.exit(2)
        exes[h] = exe
        return exe


def run_native(exe, entry, args, vfile, covers=False, perturb=None, timeout=30):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=97"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0"
    if covers:
        env["SX_COVERS"] = "1"
    if perturb is not None:
        env["MALLOC_PERTURB_"] = str(perturb)
    try:
        r = subprocess.run([exe, entry, vfile, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env, cwd=os.path.dirname(vfile))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", "timeout"


def write_values(path, inputs):
    with open(path, "w") as f:
        for i in inputs:
            f.write("%s %s\n" % (re.sub(r"\s", "_", i["name"]) or "_", i["hex"] or "-"))


def failing(rc):
    return rc not in (0, 77, 76, 64, 65)


def text_of(inputs):
    return {k: v for k, v in [("%d:%s" % (n, i["name"]), bytes.fromhex(i["hex"]).decode("latin-1")) for n, i in enumerate(inputs)]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep")
    ap.add_argument("--no-native", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    P = props.PROPS[a.property]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = 700.0 if tier == "quick" else 7200.0
    runs = [r for r in P["runs"] if tier == "thorough" or r.get("tier", "quick") == "quick"]
    if a.only:
        runs = [r for r in runs if r["entry"] == a.only]
    sx, models = ensure_engine()
    work = a.keep or tempfile.mkdtemp(prefix="flprsx_")
    os.makedirs(work, exist_ok=True)
    try:
        rc = decide(a, P, runs, tier, seed, budget, sx, models, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(a, P, runs, tier, seed, budget, sx, models, work, t0):
    prop = a.property
    harness = sorted({r["harness"] for r in runs})
    B = Build(work)
    B.start(harness)
    linked = B.link(harness, models)
    if not a.no_native:
        B.start_native("plain", harness)
    tbuild = time.time() - t0
    rdir = os.path.join(VERIF, "evidence", "replay")
    tot = {}
    per = []
    functions = set()
    viol = []
    unconf = []
    diverged = []
    validated = 0
    samples = []
    vacuous = []
    for n, r in enumerate(runs):
        argsets = r.get("args_thorough" if tier == "thorough" and "args_thorough" in r else "args", [[]])
        for args in argsets:
            left = budget - (time.time() - t0)
            if left < 5:
                per.append({"entry": r["entry"], "args": args, "skipped": "time budget of the tier used up"})
                tot["incomplete_states"] = tot.get("incomplete_states", 0) + 1
                continue
            od = os.path.join(work, "o_%d_%s" % (n, "_".join(map(str, args))))
            os.makedirs(od, exist_ok=True)
            tl = min(left, r.get("time", 300) * (4 if tier == "thorough" else 1))
            cmd = [sx, linked[r["harness"]], "--entry", r["entry"], "--out", od, "--workers", str(NCPU), "--time", "%.0f" % tl, "--steps", str(r.get("steps", 20000000))]
            for x in args:
                cmd += ["--arg", str(x)]
            try:
                p = group(cmd, tl + 60)
            except subprocess.TimeoutExpired:
                p = None
            try:
                st = json.load(open(od + "/stats.json"))
            except Exception:
                print("engine gave no result for %s %s: %s" % (r["entry"], args, (p.stdout[-1500:] if p else "timeout")))
                per.append({"entry": r["entry"], "args": args, "failed": (p.stdout[-300:] if p else "timeout")})
                tot["engine_failures"] = tot.get("engine_failures", 0) + 1
                continue
            functions.update(st.pop("functions"))
            for k, v in st.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    tot[k] = tot.get(k, 0) + v
            per.append({"entry": r["entry"], "args": args, "bound": r.get("bound", ""), **{k: st[k] for k in ("wall_s", "paths", "paths_confirmed_sat", "forks", "z3_queries", "z3_unsat", "z3_time_s", "domain_decisions", "asserts_folded", "asserts_by_solver", "unsupported_paths", "incomplete_states", "workers_lost")}, "unsupported": st["unsupported"], "covers": st["covers"]})
            if not os.environ.get("VERIF_QUIET"):
                print("  %-22s %-14s paths=%d viol=%d unsup=%d incomplete=%d z3=%d %.1fs" % (r["entry"], args, st["paths"], st["violations"], st["unsupported_paths"], st["incomplete_states"], st["z3_queries"], st["wall_s"]), flush=True)
                for u in st["unsupported"][:4]:
                    print("      unsupported:", u)
            missing = [c for c in r.get("covers", []) if c not in st["covers"]]
            # a reachability witness that used to be there
            if missing and st["violations"] == 0:
                vacuous.append({"entry": r["entry"], "args": args, "missing": missing})
                print("      not reached:", missing)
            if a.no_native:
                for f in sorted(glob.glob(od + "/v*.json"))[:6]:
                    v = json.load(open(f))
                    print("     ", v["kind"], v["msg"], "| " + v["note"] if v.get("note") else "", "|", v["where"][:300], "|", text_of(v["inputs"]), "UNDEF" if v["undef"] else "")
                continue
            # ---- candidate counterexamples: replay on the native build
            vs = [json.load(open(f)) for f in sorted(glob.glob(od + "/v*.json"), key=lambda x: int(re.findall(r"v(\d+)", os.path.basename(x))[0]))]
            confirmed = False
            for i, v in enumerate(vs[:12]):
                c = confirm(B, r, args, v, os.path.join(od, "cand%d.val" % i), harness, viol)
                if c:
                    os.makedirs(rdir, exist_ok=True)
                    base = os.path.join(rdir, "%s_%d" % (prop, len(viol)))
                    write_values(base + ".val", v["inputs"])
                    with open(base + ".json", "w") as f:
                        json.dump({"property": prop, "harness": r["harness"], "entry": r["entry"], "args": args, "kind": v["kind"], "message": v["msg"], "where": v["where"], "inputs": text_of(v["inputs"]), "values_file": os.path.basename(base + ".val"), "native": c, "how": "python3 %s/replay.py %s.json" % (VERIF, base)}, f, indent=1)
                    viol.append({"entry": r["entry"], "args": args, "kind": v["kind"], "msg": v["msg"], "inputs": text_of(v["inputs"]), "native": c["variant"], "replay": base + ".json"})
                    print("      CONFIRMED %s: %s  inputs=%s (%s: %s)" % (v["kind"], v["msg"], text_of(v["inputs"]), c["variant"], c["last"]))
                    confirmed = True
                    if len(viol) >= 3:
                        break
                else:
                    unconf.append({"entry": r["entry"], "args": args, "kind": v["kind"], "msg": v["msg"], "where": v["where"][:300], "undef": v["undef"], "inputs": text_of(v["inputs"])})
                    print("      not reproduced natively: %s %s | %s | %s" % (v["kind"], v["msg"], v["where"][:160], text_of(v["inputs"])))
            # ---- completed paths: same behaviour natively?
            exe = B.native("plain", r["harness"], harness)
            for f in sorted(glob.glob(od + "/s[0-9]*.json")):
                s = json.load(open(f))
                vf = f[:-5] + ".val"
                write_values(vf, s["inputs"])
                code, out, err = run_native(exe, r["entry"], args, vf, covers=True)
                cov = [l[6:] for l in out.splitlines() if l.startswith("COVER ")]
                if code == 0 and cov == s["covers"]:
                    validated += 1
                else:
                    diverged.append({"entry": r["entry"], "args": args, "code": code, "inputs": text_of(s["inputs"]), "native_covers": cov[:20], "symbolic_covers": s["covers"][:20], "err": err[-200:]})
                    print("      DIVERGED", diverged[-1])
                    if failing(code) and not confirmed:
                        os.makedirs(rdir, exist_ok=True)
                        base = os.path.join(rdir, "%s_%d" % (prop, len(viol)))
                        write_values(base + ".val", s["inputs"])
                        with open(base + ".json", "w") as g:
                            json.dump({"property": prop, "harness": r["harness"], "entry": r["entry"], "args": args, "kind": "native", "message": err[-400:], "inputs": text_of(s["inputs"]), "values_file": os.path.basename(base + ".val")}, g, indent=1)
                        viol.append({"entry": r["entry"], "args": args, "kind": "native", "msg": err[-200:], "inputs": text_of(s["inputs"]), "native": "plain", "replay": base + ".json"})
                        confirmed = True
                if len(samples) < 12 and int(re.findall(r"s(\d+)", os.path.basename(f))[0]) in (1, 5, 9):
                    samples.append({"entry": r["entry"], "args": args, "inputs": text_of(s["inputs"]), "reached": s["covers"][:12]})
            shutil.rmtree(od, ignore_errors=True)
            if viol:
                break
        if viol:
            break
    # ---- listed findings
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf) and not a.no_native:
        for k in json.load(open(kf)).get("findings", []):
            if k["property"] != prop or k["harness"] not in harness:
                continue
            vf = os.path.join(work, "known.val")
            write_values(vf, k["inputs"])
            exe = B.native("plain", k["harness"], harness)
            code, out, err = run_native(exe, k["entry"], k.get("args", []), vf)
            if failing(code):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                known.append(k["what"])
    wall = time.time() - t0
    complete = not tot.get("incomplete_states") and not tot.get("workers_lost") and not tot.get("engine_failures") and not tot.get("z3_unknown") and not viol
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0) + tot.get("forks", 0)),
            "transitions": int(tot.get("instructions", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path sampled"}],
            "exhaustive": bool(complete and not tot.get("unsupported_paths")),
            "rule": "a state is one symbolic execution state (one per completed path plus one per fork); a transition is one LLVM instruction executed symbolically; a validated trace is a completed path whose solver model was run on the native build with the same outcome",
            "bounds": P.get("bounds", ""),
            "outside_bounds": P.get("outside", ""),
            "paths": tot.get("paths", 0), "paths_confirmed_satisfiable_by_solver": tot.get("paths_confirmed_sat", 0),
            "solver": "z3 (C API), one context per worker process; byte-domain decision procedure for terms over one input byte",
            "solver_queries": tot.get("z3_queries", 0), "solver_sat": tot.get("z3_sat", 0), "solver_unsat": tot.get("z3_unsat", 0), "solver_unknown": tot.get("z3_unknown", 0), "solver_time_s": round(tot.get("z3_time_s", 0), 2),
            "byte_domain_decisions": tot.get("domain_decisions", 0),
            "assertions_discharged_by_solver": tot.get("asserts_by_solver", 0), "assertions_true_by_term_rewriting": tot.get("asserts_folded", 0),
            "unsupported_paths": tot.get("unsupported_paths", 0), "incomplete_states": tot.get("incomplete_states", 0), "workers_lost": tot.get("workers_lost", 0),
            "not_reached": vacuous, "runs": per,
            "functions_encoded": sorted(f for f in functions if "FLPR" in f or f.startswith("yy") or "yy" in f[:8]),
            "functions_encoded_total": len(functions),
            "counterexamples_not_reproduced": unconf[:20], "engine_native_divergences": diverged[:10], "known_findings": known,
            "build_s": round(tbuild, 1),
        },
        "assumptions": props.COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    if viol:
        ev["coverage"]["violations"] = viol
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: paths=%d queries=%d solver=%.1fs unsupported=%d incomplete=%d validated=%d violations=%d wall=%.1fs" % (prop, tier, tot.get("paths", 0), tot.get("z3_queries", 0), tot.get("z3_time_s", 0), tot.get("unsupported_paths", 0), tot.get("incomplete_states", 0), validated, len(viol), wall))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0]["replay"]))
        return 1
    return 0


def confirm(B, r, args, v, vf, harness, viol):
    write_values(vf, v["inputs"])
    plan = [("plain", None)]
    if v["kind"] in ("memory", "arith") or v["undef"]:
        plan = [("plain", None), ("asan", None), ("plain", 165), ("pattern", 90), ("opt", None)]
    elif v["kind"] == "stack":
        plan = [("plain", None), ("asan", None)]
    for variant, pert in plan:
        exe = B.native(variant, r["harness"], harness)
        code, out, err = run_native(exe, r["entry"], args, vf, perturb=pert)
        if failing(code):
            lines = [l for l in err.splitlines() if not l.startswith("SX-INPUT")]
            key = [l for l in lines if "SX-FAIL" in l or "ERROR: " in l or "runtime error" in l or "Assertion" in l]
            return {"variant": variant, "exit": code, "last": (key or lines or [""])[0][:300], "stderr": err[-1500:]}
    return None


if __name__ == "__main__":
    main()
