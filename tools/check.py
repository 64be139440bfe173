#!/usr/bin/env python3
"""Decides one property: compiles the repository's sources and the property's
harnesses to LLVM bitcode, explores them symbolically (build/vfx, Z3), replays
every counterexample natively and writes evidence/<id>.json.

usage: check.py PROPERTY [--tier quick|thorough] [--entry NAME] [--keep] [-v]
exit 0: the property held on everything explored; 1: VIOLATION printed.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++-18"
NCPU = min(8, os.cpu_count() or 8)
COMMON = ["-std=c++17", "-w", "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "runtime"),
          "-I" + os.path.join(VERIF, "harness"), "-I" + REPO]
SYM = ["-O1", "-DVF_SYMBOLIC", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only", "-fno-vectorize",
       "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c"]


def run(cmd, **kw):
    try:
        return run1(cmd, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, -9, "timeout", "")


def run1(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "engine", "*"))):
        h.update(open(f, "rb").read())
    stamp = os.path.join(BUILD, "stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(BUILD, "vfx")) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return
        r = run(["bash", os.path.join(VERIF, "engine", "build.sh"), BUILD])
        if r.returncode:
            print(r.stdout)
            sys.exit("engine build failed")
        open(stamp, "w").write(h.hexdigest())


class Harness:
    """A harness file; its header comments carry the metadata."""

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-3]
        t = open(path).read()
        head = lambda k: [m.strip() for m in re.findall(r"^// %s:(.*)$" % k, t, re.M)]
        self.src = [s for l in head("SRC") for s in l.split()]
        self.gen = head("GEN")
        self.bounds = head("BOUND")
        self.assume = head("ASSUME")
        self.flags = [s for l in head("FLAGS") for s in l.split()]
        self.opts = dict(kv.split("=") for l in head("OPTS") for kv in l.split())
        self.entries = re.findall(r"^VF_ENTRY\((\w+)\)", t, re.M)
        self.tentries = re.findall(r"^VF_ENTRY_T\((\w+)\)", t, re.M)

    def all(self, tier):
        return self.entries + (self.tentries if tier == "thorough" else [])


def srcpath(s):
    return s if s.startswith("/") else os.path.join(REPO, "mpact/sim", s)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--build-only", action="store_true", help="only build the symbolic executor")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.property, a.tier
    ensure_engine()
    if a.build_only:
        return
    hs = [Harness(p) for p in sorted(glob.glob(os.path.join(VERIF, "harness", prop + "_*.cc")))]
    if not hs:
        sys.exit("no harness for " + prop)
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    try:
        rc = decide(a, prop, tier, hs, work, t0)
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(a, prop, tier, hs, work, t0):
    pool = cf.ThreadPoolExecutor(NCPU)
    tdef = ["-DVF_THOROUGH"] if tier == "thorough" else []
    # ---- generators: native programs that emit sources from the repository's code
    for h in hs:
        h.gensrc = []
        h.gendir = None
        for g in h.gen:
            gd = os.path.join(work, "gen_" + h.name)
            os.makedirs(gd, exist_ok=True)
            r = run(["bash", os.path.join(VERIF, "harness", g), gd, REPO, VERIF])
            if r.returncode:
                print(r.stdout[-4000:])
                if r.returncode == 3:
                    # The repository's code generator refused or crashed on a
                    # legal description, or what it emitted does not compile:
                    # that is the observable behaviour itself.
                    rdir = os.path.join(VERIF, "evidence", "replay")
                    os.makedirs(rdir, exist_ok=True)
                    p = os.path.join(rdir, prop + "_gen.json")
                    json.dump(dict(property=prop, tier=tier, rerun="bash %s GENDIR %s %s" % (os.path.join(VERIF, "harness", g), REPO, VERIF), harness=h.name,
                                   label="generated code is not usable", output=r.stdout[-20000:]), open(p, "w"), indent=1)
                    print("VIOLATION property=%s replay=%s" % (prop, p))
                    return 1
                print("check %s: generator %s failed" % (prop, g))
                return 2
            h.gendir = gd
            h.gensrc += sorted(glob.glob(os.path.join(gd, "*.cc")))
    # ---- compile
    jobs = {}

    def obj(src, flags, kind):
        key = (src, tuple(flags), kind)
        if key in jobs:
            return jobs[key]
        out = os.path.join(work, "%s_%d.%s" % (re.sub(r"\W", "_", os.path.basename(src)), len(jobs), "bc" if kind == "sym" else "o"))
        cmd = [CXX] + COMMON + list(flags)
        if kind == "sym":
            cmd += SYM
        elif kind == "nat":
            cmd += ["-O1", "-g0", "-c"]
        else:
            cmd += ["-O1", "-g1", "-c", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                    "-fno-sanitize=vptr,alignment,enum,null,function,pointer-overflow,signed-integer-overflow,float-cast-overflow,nonnull-attribute,object-size"]
        jobs[key] = (out, pool.submit(run, cmd + [src, "-o", out]))
        return jobs[key]

    def finish(js):
        ok = True
        for out, f in js:
            r = f.result()
            if r.returncode:
                print(r.stdout[:3000])
                ok = False
        return ok

    rt = [obj(os.path.join(VERIF, "runtime", f), ["-fno-builtin"], "sym") for f in ("rt.cc", "rt_c.cc")]
    rtio = obj(os.path.join(VERIF, "runtime", "rt_io.cc"), ["-fno-builtin", "-fno-access-control"], "sym")
    for h in hs:
        inc = [f.replace("@VERIF@", VERIF).replace("@GEN@", h.gendir or "") for f in h.flags] + (["-I" + h.gendir] if h.gendir else [])
        h.inc = inc
        h.sym = [obj(h.path, inc + tdef, "sym")] + [obj(srcpath(s), inc, "sym") for s in h.src + h.gensrc]
    natrt = obj(os.path.join(VERIF, "runtime", "native.cc"), [], "nat")
    for h in hs:
        h.nat = [obj(h.path, h.inc + tdef, "nat")] + [obj(srcpath(s), h.inc, "nat") for s in h.src + h.gensrc]

    if not finish(rt + [rtio]):
        return 2
    for h in hs:
        if not finish(h.sym):
            print("check %s: %s does not compile against /repo" % (prop, h.name))
            return 2
        h.bc = os.path.join(work, h.name + ".bc")
        r = run(["llvm-link-18"] + [o for o, _ in rt + h.sym] + ["-o", h.bc + ".0"])
        if not r.returncode:
            r = run(["llvm-link-18", "-only-needed", h.bc + ".0", rtio[0], "-o", h.bc])
        if r.returncode:
            print(r.stdout)
            return 2
    # ---- explore
    futs = []
    for h in hs:
        for e in h.all(tier):
            if a.entry and e != a.entry:
                continue
            out = os.path.join(work, "%s.%s.json" % (h.name, e))
            tl = h.opts.get("timeout", "120") if tier == "quick" else h.opts.get("ttimeout", "1500")
            cmd = [os.path.join(BUILD, "vfx"), h.bc, "--entry", e, "--out", out, "--timeout", tl,
                   "--query-timeout", h.opts.get("qt", "20000"), "--max-steps", h.opts.get("steps", "400000"), "--max-errors", "12",
                   "--samples", "12"] + (["-v"] if a.v else [])
            futs.append((h, e, out, pool.submit(run, cmd, timeout=float(tl) + 60)))
    results = []
    for h, e, out, f in futs:
        r = f.result()
        if a.v and r.stdout:
            print(r.stdout[-6000:])
        if r.returncode or not os.path.exists(out):
            results.append((h, e, {"complete": False, "incomplete": ["engine exit %d: %s" % (r.returncode, r.stdout[-400:])], "errors": [], "paths": 0,
                                   "forks": 0, "steps": 0, "samples": [], "functions": [], "reach": {}, "checks": {}, "sym_checks": {},
                                   "solver": {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0, "cache_hits": 0, "model_hits": 0}, "wall": 0}))
        else:
            results.append((h, e, json.load(open(out))))
    # ---- replay samples natively: the encoding must predict the real run
    binaries = {}

    def link(h, kind):
        if (h.name, kind) in binaries:
            return binaries[(h.name, kind)]
        if kind == "nat":
            js = [natrt] + h.nat
            fl = []
        else:
            js = [obj(os.path.join(VERIF, "runtime", "native.cc"), [], "san"), obj(h.path, h.inc + tdef, "san")] + [obj(srcpath(s), h.inc, "san") for s in h.src + h.gensrc]
            fl = ["-fsanitize=address,undefined"]
        b = None
        if finish(js):
            b = os.path.join(work, h.name + "." + kind)
            r = run([CXX] + fl + ["-rdynamic"] + [o for o, _ in js] + ["-ldl", "-lpthread", "-labsl_int128", "-labsl_throw_delegate", "-o", b])
            if r.returncode:
                print(r.stdout[:3000])
                b = None
        binaries[(h.name, kind)] = b
        return b

    def replay(binary, entry, inputs, tag, fill=None, timeout=20):
        p = os.path.join(work, "in_%s_%s" % (entry, tag))
        with open(p, "w") as f:
            for n, v in inputs:
                f.write("%s %s\n" % (n, v))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
        if fill is not None:
            env["VF_FILL"] = str(fill)
        try:
            r = subprocess.run([binary, entry, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return "timeout", ""

    validated, mismatches = 0, []
    for h, e, j in results:
        b = link(h, "nat")
        if not b:
            mismatches.append("native build of %s failed" % h.name)
            continue
        for i, s in enumerate(j["samples"]):
            rc, out = replay(b, e, s["inputs"], "s%d" % i)
            obs = re.findall(r"^OBS (\S+) (\d+)$", out, re.M)
            want = [(l.replace(" ", "_"), str(v)) for l, v in s["obs"]]
            if rc == 0 and [(l, v) for l, v in obs] == want:
                validated += 1
            else:
                mismatches.append("%s/%s sample %d: native exit %s obs %s, predicted %s" % (h.name, e, i, rc, obs[:6], want[:6]))
    # ---- counterexamples
    known = load_known(prop)
    violations, unconfirmed, knownhits = [], [], []
    tr = time.time()
    budget = 150 if tier == "quick" else 600
    for h, e, j in results:
        for n, err in enumerate(j["errors"]):
            kf = match_known(known, e, err)
            conf = None
            # Further counterexamples add nothing once a few are confirmed.
            if not kf and (len(violations) >= 4 or (violations and time.time() - tr > budget)):
                continue
            nat = link(h, "nat")
            tries = [(nat, None)] if nat else []
            if err["kind"] in ("memory", "arith", "abort", "throw") or err.get("tainted"):
                tries.append(("san", None))
            for fill in (0, 255, 1):
                tries.append((nat, fill))
            tries.append(("san", 0))
            for b, fill in tries:
                if b == "san":
                    b = link(h, "san")
                if not b:
                    continue
                rc, out = replay(b, e, err["inputs"], "e%d" % n, fill)
                if rc == 42 or rc == "timeout" or (rc not in (0, 43, 44, 45)):
                    conf = (os.path.basename(b).split(".")[-1], fill, rc, out[-1500:])
                    break
            rec = {"harness": h.name, "entry": e, "kind": err["kind"], "label": err["label"], "where": err["where"],
                   "inputs": err["inputs"], "stack": err["stack"], "replay": None if not conf else
                   {"binary": conf[0], "fill": conf[1], "exit": conf[2], "output": conf[3]}}
            if not conf:
                unconfirmed.append(rec)
            elif kf:
                knownhits.append((kf, rec))
            else:
                violations.append(rec)
    # ---- report
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "_*.json")):
        os.remove(f)
    for d in sorted({k["text"] for k, _ in knownhits}):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    for i, v in enumerate(violations):
        p = os.path.join(rdir, "%s_%d.json" % (prop, i))
        json.dump(dict(property=prop, tier=tier, rerun="%s %s --tier %s --entry %s" % (os.path.abspath(__file__), prop, tier, v["entry"]), **v), open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s %s: %s [%s] at %s; inputs %s" % (v["harness"], v["entry"], v["label"], v["kind"], v["where"],
                                                      " ".join("%s=%s" % tuple(x) for x in v["inputs"][:12])))
    js = [j for _, _, j in results]
    tot = lambda k: sum(j[k] for j in js)
    sol = lambda k: round(sum(j["solver"][k] for j in js), 3)
    inc = [{"entry": e, "why": w} for h, e, j in results for w in j["incomplete"]]
    funcs = sorted({f for j in js for f in j["functions"]})
    samples = []
    for h, e, j in results[:6]:
        for s in j["samples"][:1]:
            samples.append({"entry": e, "inputs": s["inputs"][:16], "observed": s["obs"][:12]})
    novac = [e for h, e, j in results if not j["checks"] and j["complete"]]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": tot("paths") + tot("forks"), "transitions": tot("steps"), "traces_validated_against_impl": validated,
                       "samples": samples, "exhaustive": all(j["complete"] for j in js) and not inc,
                       "symbolic_paths": tot("paths"), "solver_queries": sol("queries"), "solver_unsat": sol("unsat"), "solver_sat": sol("sat"),
                       "solver_unknown": sol("unknown"), "solver_cache_hits": sol("cache_hits"), "solver_seconds": sol("time"),
                       "assertions_evaluated": {l: n for j in js for l, n in j["checks"].items()},
                       "assertions_decided_by_solver": sum(n for j in js for n in j["sym_checks"].values()),
                       "reachability_witnesses": {l: n for j in js for l, n in j["reach"].items()},
                       "entries": [{"entry": e, "complete": j["complete"], "paths": j["paths"], "queries": j["solver"]["queries"],
                                    "solver_s": j["solver"]["time"], "wall_s": j["wall"]} for h, e, j in results],
                       "bounds": [b for h in hs for b in h.bounds], "functions_encoded": funcs, "incomplete": inc,
                       "encoding_mismatches": mismatches, "unconfirmed_counterexamples": unconfirmed, "entries_without_assertions": novac},
          "assumptions": [x for h in hs for x in h.assume] + GENERAL_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("check %s (%s): %d entries, %d paths, %d queries (%.1f s solver), %d samples replayed, exhaustive=%s, violations=%d, known=%d, unconfirmed=%d, mismatches=%d, %.1f s" % (
        prop, tier, len(results), tot("paths"), sol("queries"), sol("time"), validated, ev["coverage"]["exhaustive"], len(violations),
        len(knownhits), len(unconfirmed), len(mismatches), time.time() - t0))
    for i in inc:
        print("  incomplete: %s: %s" % (i["entry"], i["why"]))
    for m in mismatches[:10]:
        print("  mismatch:", m)
    for u in unconfirmed:
        print("  unconfirmed: %s %s %s at %s inputs %s" % (u["entry"], u["kind"], u["label"], u["where"], u["inputs"][:12]))
    if a.v or os.environ.get("VF_TIMES"):
        for h, e, j in results:
            print("  %-40s paths %6d queries %7d solver %.2f wall %.2f reach %s" % (e, j["paths"], j["solver"]["queries"], j["solver"]["time"], j["wall"], j["reach"]))
    return 1 if violations else 0


GENERAL_ASSUMPTIONS = [
    "Z3 4.8.12, clang 18 and the symbolic executor in /verif/engine are trusted; sampled paths are replayed natively on every run",
    "absl, protobuf and libstdc++ internals are replaced by the stand-ins in /verif/shim and /verif/runtime/rt*.cc; log output is dropped",
    "single-threaded execution; memory allocation never fails"]


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) entry=(\S+) kind=(\S+) label=\"([^\"]*)\" where=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append({"entry": m.group(2), "kind": m.group(3), "label": m.group(4), "where": m.group(5), "text": l.split(" ", 2)[2].strip()})
    return out


def match_known(known, entry, err):
    for k in known:
        if k["entry"] == entry and k["kind"] == err["kind"] and k["label"] == err["label"] and (k["where"] == "-" or k["where"] in err["where"]):
            return k
    return None


if __name__ == "__main__":
    main()
