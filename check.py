#!/usr/bin/env python3
"""Decide one property by symbolic execution of immer's real code.

usage: check.py PROPERTY [--tier quick|thorough] [--keep]

Compiles the property's harnesses against the current /repo tree to LLVM IR,
explores them with build/symx (Z3 decides every branch and assertion over all
symbolic values), replays whatever the solver finds on natively compiled,
sanitized code, and writes evidence/PROPERTY.json.
"""
import json, os, sys, threading, subprocess, time, shutil, hashlib, re, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, HERE)
from jobs import CHECKS, COMMON_ASSUMPTIONS  # noqa

SYMX = os.path.join(HERE, "build", "symx")
CXX = "clang++-18"
BASE = ["-fsized-deallocation", "-I" + REPO, "-I" + os.path.join(HERE, "harness"), "-w"]
IRFLAGS = ["-O1", "-gline-tables-only", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]
SAN = "-fsanitize=address,shift,bounds,null,alignment,integer-divide-by-zero,signed-integer-overflow,unreachable,return"
ASAN = ["-O1", "-g1", SAN, "-fno-sanitize-recover=all", "-rdynamic"]
MSAN = ["-O1", "-g1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-rdynamic"]
TSRT = ["-O1", "-g1", "-fsanitize=thread", "-c"]


def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace")


class Job:
    def __init__(self, prop, spec, tier, work):
        self.prop, self.spec, self.tier, self.work = prop, spec, tier, work
        self.name = spec["name"]
        self.src = os.path.join(HERE, "harness", spec["src"])
        self.defs = list(spec.get("defs", []))
        if tier == "thorough":
            self.defs += ["-DSX_THOROUGH=1"] + list(spec.get("tdefs", []))
        self.std = spec.get("std", "c++17")
        self.threads = spec.get("threads", False)
        if self.threads:
            self.defs.append("-DSXTHREADS")
        self.native = {}
        self.lock = threading.Lock()

    def path(self, ext):
        return os.path.join(self.work, self.name + ext)

    def compile_ir(self):
        extra = ["-fno-threadsafe-statics"] if self.threads else []
        rc, out = sh([CXX, "-std=" + self.std] + IRFLAGS + extra + BASE + self.defs + [self.src, "-o", self.path(".bc")])
        return rc, out

    def compile_native(self, kind):
        with self.lock:
            return self._compile_native(kind)

    def _compile_native(self, kind):
        if kind in self.native:
            return self.native[kind]
        exe = self.path("." + kind)
        rt = os.path.join(HERE, "harness", "sx_native.cpp")
        if self.threads:
            o = self.path(".ts.o")
            rc, out = sh([CXX, "-std=" + self.std] + TSRT + ["-fno-threadsafe-statics"] + BASE + self.defs + [self.src, "-o", o])
            if rc == 0:
                rc, out = sh([CXX, "-std=c++17", "-O1", "-g1", "-w", "-DSX_THREADS", "-I" + os.path.join(HERE, "harness"), rt,
                              os.path.join(HERE, "harness", "sx_tsan.cpp"), o, "-rdynamic", "-o", exe, "-ldl", "-lpthread"])
        else:
            fl = ASAN if kind == "asan" else MSAN if kind == "msan" else ["-O1", "-g1", "-rdynamic"]
            rc, out = sh([CXX, "-std=" + self.std] + fl + BASE + self.defs + [self.src, rt, "-o", exe, "-ldl"])
        self.native[kind] = exe if rc == 0 else None
        if rc:
            print("native build (%s) of %s failed:\n%s" % (kind, self.name, out[-2000:]))
        return self.native[kind]

    def write_replay(self, v, fn):
        with open(fn, "w") as f:
            f.write("# property %s job %s src %s kind %s\n# %s\n# %s\n" % (self.prop, self.name, self.spec["src"], v.get("kind", "path"),
                                                                   v.get("msg", "").replace("\n", " "), v.get("where", "").replace("\n", " ")))
            f.write("# defs %s\n" % " ".join(self.defs))
            f.write("entry %s\n" % v["entry"])
            for n, w, val in v["syms"]:
                f.write("sym %s %d %d\n" % (n.replace(" ", "_"), w, val))
            if v.get("trace"):
                f.write("trace %s\n" % " ".join(map(str, v["trace"])))

    def run_native(self, kind, fn, timeout=30):
        exe = self.compile_native(kind)
        if not exe:
            return None, "native build failed"
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=55:allocator_may_return_null=0:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=55"
        env["MSAN_OPTIONS"] = "exitcode=55"
        if kind == "vg":
            return sh(["valgrind", "-q", "--error-exitcode=55", "--leak-check=no", exe, fn], timeout=timeout * 4, env=env)
        return sh([exe, fn], timeout=timeout, env=env)

    def confirm(self, v, fn):
        """replays a violation; returns (confirmed, description)"""
        kinds = ["ts"] if self.threads else (["msan", "asan", "vg"] if v["kind"] == "uninit" else ["asan", "msan"] if v["kind"] in ("check",) else ["asan"])
        desc = []
        for k in kinds:
            rc, out = self.run_native(k, fn, 25)
            tail = " | ".join(l for l in out.strip().splitlines() if re.search(r"SX-|ERROR|runtime error|WARNING|Assert|terminate", l))[:300]
            desc.append("%s: exit %s %s" % (k, rc, tail))
            if rc is None or rc == 77 or rc == 78 or rc == 0:
                continue
            if rc == 124:
                if v["kind"] in ("nontermination", "deadlock"):
                    return True, "; ".join(desc)
                continue
            return True, "; ".join(desc)
        return False, "; ".join(desc)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = sys.argv[sys.argv.index("--job") + 1] if "--job" in sys.argv else None
    t0 = time.time()
    C = CHECKS[prop]
    if not os.path.exists(SYMX):
        rc, out = sh(["bash", os.path.join(HERE, "engine", "build.sh")], timeout=1200)
        if rc:
            print(out)
            sys.exit(2)
    work = os.path.join(HERE, "build", "work", prop + "-" + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repdir = os.path.join(HERE, "replays")
    os.makedirs(repdir, exist_ok=True)
    jobs = [Job(prop, s, tier, work) for s in C["jobs"] if not (only and s["name"] != only) and not (s.get("thorough_only") and tier != "thorough")]
    ncpu = os.cpu_count() or 8
    broken = []
    with cf.ThreadPoolExecutor(ncpu) as ex:
        futs = {ex.submit(j.compile_ir): j for j in jobs}
        for f in cf.as_completed(futs):
            rc, out = f.result()
            if rc:
                print("harness %s does not compile against %s:\n%s" % (futs[f].name, REPO, "\n".join(l for l in out.splitlines() if "error" in l)[:3000]))
                broken.append(futs[f])
    jobs = [j for j in jobs if j not in broken]
    if not jobs:
        sys.exit(2)
    compile_s = time.time() - t0
    total = C.get("time", {}).get(tier, 100 if tier == "quick" else 700)
    wsum = float(sum(j.spec.get("weight", 1) for j in jobs))
    known = load_known(prop)
    pool = cf.ThreadPoolExecutor(2)
    prebuild = {j.name: pool.submit(j.compile_native, "ts" if j.threads else "asan") for j in jobs if j.spec.get("validate", 24)}
    replayer = cf.ThreadPoolExecutor(ncpu)
    witnesses = []
    violations, unconfirmed, knownhit = [], [], []
    summaries, samples = [], []
    validated = mismatched = 0
    unsupported = []
    spare = 0.0
    # what the small ones leave goes to the large ones
    for j in sorted(jobs, key=lambda j: j.spec.get("weight", 1)):
        budget = total * j.spec.get("weight", 1) / wsum + spare
        tj = time.time()
        rf = j.path(".jsonl")
        cmd = [SYMX, j.path(".bc"), "--results", rf, "--time", "%.1f" % budget, "--workers", str(ncpu), "--samples", str(j.spec.get("samples", 6)),
               "--preempt", str(j.spec.get("preempt", 2) + (j.spec.get("tpreempt", 1) if tier == "thorough" else 0)),
               "--steps", str(j.spec.get("steps", 30000000))] + (["--por"] if j.spec.get("por") else [])
        xd = os.path.join(work, "queries-" + j.name)
        os.makedirs(xd, exist_ok=True)
        cmd += ["--xdump", xd]
        for e in j.spec.get("entries", []):
            cmd += ["--entry", e]
        for k in known:
            if k["job"] in (j.name, "*"):
                cmd += ["--known", k["entry"], k["kind"], k["match"]]
        rc, out = sh(cmd, timeout=budget + 120)
        spare = max(0.0, budget - (time.time() - tj))
        recs = []
        if os.path.exists(rf):
            for l in open(rf, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except Exception:
                    pass
        summ = [r for r in recs if r["type"] == "summary"]
        if not summ:
            print("engine failed on %s (exit %s):\n%s" % (j.name, rc, out[-2000:]))
            summ = [{"entries": {}, "crashes": 1}]
        s = summ[0]
        s["job"] = j.name
        summaries.append(s)
        unsupported += [r for r in recs if r["type"] == "unsupported"]
        seen = {}
        for r in recs:
            if r["type"] != "violation":
                continue
            kf = known_match(known, j, r)
            key = (r["entry"], r["kind"], r["msg"], known.index(kf) if kf else -1)
            seen.setdefault(key, []).append(r)
        for key, rs in seen.items():
            ok = False
            for n, r in enumerate(rs[:4]):
                h = hashlib.sha1(json.dumps([j.name, r["entry"], r["kind"], r["msg"], r["syms"]]).encode()).hexdigest()[:10]
                fn = os.path.join(repdir, "%s-%s-%s.replay" % (prop, j.name, h))
                j.write_replay(r, fn)
                ok, desc = j.confirm(r, fn)
                if ok:
                    if key[3] >= 0:
                        knownhit.append((known[key[3]], r))
                    else:
                        violations.append((j, r, fn, desc))
                    break
                os.unlink(fn)
            if not ok:
                unconfirmed.append({"job": j.name, "entry": key[0], "kind": key[1], "msg": key[2], "where": rs[0]["where"][:400], "replay": desc,
                                    "syms": rs[0]["syms"][:40]})
        # path witnesses executed on the real build
        paths = [r for r in recs if r["type"] == "path"]
        for i, r in enumerate(paths[: j.spec.get("validate", 24)]):
            fn = j.path(".w%d" % i)
            j.write_replay(r, fn)
            witnesses.append((j, r, replayer.submit(lambda j=j, fn=fn: (prebuild[j.name].result(), j.run_native("ts" if j.threads else "asan", fn))[1])))
    for j, r, fut in witnesses:
        rc, out = fut.result()
        m = re.search(r"SX-OUT (\d+) (\d+)", out)
        if rc == 0 and m and m.group(1) == r["out"]:
            validated += 1
            if len(samples) < 12:
                samples.append({"job": j.name, "entry": r["entry"], "inputs": [[a, c] for a, b, c in r["syms"]][:60], "outputs_digest": r["out"],
                                "outputs": r["nout"], "schedule": r["trace"][:200]})
        else:
            mismatched += 1
            print("witness of %s/%s does not replay (exit %s): %s" % (j.name, r["entry"], rc, out[-300:]))
            if len(unconfirmed) < 50:
                unconfirmed.append({"job": j.name, "entry": r["entry"], "kind": "witness-mismatch", "msg": out[-300:], "syms": r["syms"][:40]})
    wall = time.time() - t0

    def tot(k):
        return sum(s.get(k, 0) or 0 for s in summaries)
    paths = sum(e["paths"] for s in summaries for e in s["entries"].values())
    trunc = sum(e["truncated"] for s in summaries for e in s["entries"].values())
    incomplete = sum(e["incomplete"] for s in summaries for e in s["entries"].values())
    reached = set(t for s in summaries for t in s.get("tags_reached", []))
    missed = sorted(set(t for s in summaries for t in s.get("tags_missed", [])) - reached)
    funcs = sorted(set(f for s in summaries for f in s.get("functions", [])))
    short = sorted(set(re.sub(r"<.*>", "<..>", re.sub(r"\(.*", "", f)) for f in funcs))
    xcheck = cross_check(work)
    cov = {
        "states": paths + tot("forks"),
        "transitions": tot("instructions"),
        "traces_validated_against_impl": validated,
        "samples": samples or [{"note": "no witness this run"}],
        "paths_completed": paths,
        "forks": tot("forks"),
        "assertions_checked": tot("checks"),
        "assertions_decided_by_solver": tot("symbolic_checks"),
        "solver": {"name": "z3 4.8.12 (QF_BV)", "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
                   "solver_seconds": round(tot("solver_s"), 2), "uninitialised_data_queries": tot("uninit_queries")},
        "cross_checked_queries": xcheck,
        "paths_not_explored_for_time_or_memory": trunc,
        "paths_left_undecided": incomplete,
        "complete_within_bounds": trunc == 0 and incomplete == 0 and tot("crashes") == 0,
        "engine_crashes": tot("crashes"),
        "bounds": C["bounds"][tier] if isinstance(C["bounds"], dict) else C["bounds"],
        "jobs_not_compiled": [j.name for j in broken],
        "jobs": [{"job": s["job"], "entries": s["entries"], "wall_s": s.get("wall_s")} for s in summaries],
        "functions_encoded": len(funcs),
        "functions_encoded_names": short[:400],
        "basic_blocks_executed": tot("blocks"),
        "vacuity_witnesses_missed": missed,
        "unconfirmed_reports": unconfirmed[:20],
        "unsupported": [u["msg"] + " @ " + u["where"][:200] for u in unsupported[:10]],
        "known_findings": ["%s" % k["what"] for k, r in knownhit],
        "compile_s": round(compile_s, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": C.get("level", "model_checking"), "coverage": cov,
          "assumptions": COMMON_ASSUMPTIONS + C.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d forks, %d assertions, %d queries (%.1fs solver), %d witnesses validated, %d mismatched, truncated %d, undecided %d, unconfirmed %d, wall %.1fs"
          % (prop, tier, paths, tot("forks"), tot("checks"), tot("queries"), tot("solver_s"), validated, mismatched, trunc, incomplete, len(unconfirmed), wall))
    if "-v" in sys.argv or "--verbose" in sys.argv:
        for s in summaries:
            print("  ", s["job"], s.get("wall_s"), json.dumps(s["entries"]))
    if missed:
        print("vacuity witnesses not reached: %s" % ", ".join(missed))
    for u in unconfirmed[:10]:
        print("unconfirmed: %s" % json.dumps(u)[:600])
    for u in unsupported[:5]:
        print("unsupported: %s @ %s" % (u["msg"], u["where"][:300]))
    for k in known:
        if any(k is kk for kk, r in knownhit):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for j, r, fn, desc in violations:
        print("  %s/%s %s: %s\n     at %s\n     %s" % (j.name, r["entry"], r["kind"], r["msg"], r["where"][:500], desc))
        print("VIOLATION property=%s replay=%s" % (prop, fn))
    if "--keep" not in sys.argv:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(1 if violations else 0)


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def known_match(known, j, r):
    for k in known:
        if k["job"] in (j.name, "*") and re.fullmatch(k["entry"], r["entry"]) and re.search(k["kind"], r["kind"]) and re.search(k["match"], r["msg"] + " @ " + r["where"]):
            return k
    return None


def cross_check(work):
    """a sample of the queries Z3 decided, decided again by cvc5"""
    exe = shutil.which("cvc5")
    if not exe:
        return None
    files = []
    for d in sorted(os.listdir(work)):
        if d.startswith("queries-"):
            fs = sorted(os.listdir(os.path.join(work, d)))
            files += [os.path.join(work, d, f) for f in fs[:: max(1, len(fs) // 6)][:6]]

    def one(fn):
        expect = open(fn).readline().split()[-1]
        rc, out = sh([exe, "--lang=smt2", "--tlimit=5000", fn], timeout=8)
        got = out.split()[0] if out.split() else "?"
        return fn, expect, got
    with cf.ThreadPoolExecutor(8) as ex:
        r = list(ex.map(one, files))
    bad = [x for x in r if {x[1], x[2]} == {"sat", "unsat"}]
    for fn, e, g in bad:
        print("z3 says %s but cvc5 says %s: %s" % (e, g, fn))
    return {"solver": "cvc5 1.1.2", "queries": len(r), "agree": sum(x[1] == x[2] for x in r), "disagree": len(bad),
            "no_answer": sum(x[2] not in ("sat", "unsat") for x in r)}


if __name__ == "__main__":
    main()
