#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current code.

usage: run.py <PROPERTY-ID> quick|thorough [--only ENTRY] [--keep] [--verbose]

Steps: compile the repository functions the property depends on (and the
harness in props/<ID>/) to LLVM bitcode, run psisym (engine/) on every harness
entry, replay every counterexample against a native build of the same code,
write evidence/<ID>.json.  exit 0: held; exit 1 + VIOLATION line: broken;
exit 2: no verdict (something was not decided within its limits).
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PSI_REPO", "/repo")
NCPU = os.cpu_count() or 4

BC = ("-O1 -g1 -emit-llvm -fno-vectorize -fno-slp-vectorize "
      "-fno-unroll-loops -fno-builtin-printf -w").split()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ensure_engine():
    exe = os.path.join(VERIF, "build", "psisym")
    src = [os.path.join(VERIF, "engine", f) for f in os.listdir(os.path.join(VERIF, "engine"))]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(f) for f in src):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    r = sh([os.path.join(VERIF, "engine", "build.sh"), exe])
    if r.returncode or not os.path.exists(exe):
        print("cannot build the engine:\n" + r.stdout[-3000:])
        sys.exit(2)
    return exe


def load_spec(pid):
    p = os.path.join(VERIF, "props", pid, "spec.py")
    s = importlib.util.spec_from_file_location("spec_" + pid, p)
    m = importlib.util.module_from_spec(s)
    m.REPO, m.VERIF = REPO, VERIF
    s.loader.exec_module(m)
    return m.SPEC


class Build:
    def __init__(self, pid, spec, work):
        self.pid, self.spec, self.work = pid, spec, work
        self.extra, self.tried = [], set()
        self.dir = os.path.join(VERIF, "props", pid)
        self.gen = os.path.join(work, "gen")
        os.makedirs(self.gen, exist_ok=True)

    def prepare(self):
        protos = self.spec.get("protos", [])
        if protos:
            r = sh([sys.executable, os.path.join(VERIF, "lib", "protolite.py"), REPO, self.gen] + protos)
            if r.returncode:
                raise RuntimeError("protolite: " + r.stdout)
        hook = self.spec.get("prepare")
        if hook:
            hook(self)

    def incs(self):
        r = ["-I" + self.dir, "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "shims", "std"),
             "-I" + os.path.join(VERIF, "shims"), "-I" + self.gen, "-I" + REPO]
        return r

    def common(self):
        return ["-std=" + self.spec.get("std", "c++17")] + self.spec.get("flags", []) + self.incs() + \
            ["-ffile-prefix-map=" + self.gen + "=gen"]

    def units(self):
        u = []
        for h in self.spec.get("harness", ["harness.cpp"]):
            u.append(os.path.join(self.dir, h))
        for s in self.spec.get("sources", []):
            s = s.replace("$GEN", self.gen)
            u.append(s if os.path.isabs(s) else os.path.join(REPO, s))
        for s in self.spec.get("support", []):
            u.append(os.path.join(VERIF, s))
        return u + self.extra

    def compile_bc(self):
        jobs = []
        for i, u in enumerate(self.units()):
            o = os.path.join(self.work, "u%d.bc" % i)
            ext = [] if not u.endswith(".c") else ["-x", "c++"]
            jobs.append((["clang++"] + BC + self.common() + ["-fno-access-control"] + ext + ["-c", u, "-o", o], o, u))
        rt = os.path.join(self.work, "rt.bc")
        jobs.append((["clang++", "-std=c++17"] + BC + ["-fno-access-control", "-c", os.path.join(VERIF, "lib", "rt.cpp"), "-o", rt], rt, "rt"))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda j: sh(j[0]), jobs))
        for r, j in zip(res, jobs):
            if r.returncode:
                raise RuntimeError("compiling %s failed:\n%s" % (j[2], r.stdout[:4000]))
        out = os.path.join(self.work, "all.bc")
        parts = [j[1] for j in jobs]
        for step in range(4):
            r = sh(["llvm-link-18"] + parts + ["-o", out])
            if r.returncode:
                raise RuntimeError("linking bitcode failed:\n" + r.stdout[:4000])
            more = self.missing(out)
            if not more:
                break
            parts += more
        return out

    def missing(self, bc):
        """Repository files the encoded code has come to need (a call into a file the spec does not list)."""
        r = sh(["llvm-nm-18", "--undefined-only", "--format=just-symbols", bc])
        syms = [x.strip() for x in r.stdout.splitlines() if x.strip().startswith("_Z") and "3psi" in x]
        if not syms:
            return []
        dem = sh(["llvm-cxxfilt-18"] + syms).stdout.splitlines()
        made = []
        for sym, d in zip(syms, dem):
            name = re.sub(r"\[abi:\w+\]", "", d.split("(")[0]).split("<")[0].split("::")[-1].strip()
            if not re.match(r"^\w+$", name):
                continue
            r = sh(["grep", "-rlE", r"\b%s\(" % name, os.path.join(REPO, "psi"), "--include=*.cc"])
            for f in sorted(r.stdout.split()):
                if re.search(r"_(test|benchmark)\.cc$", f) or f in self.units() or "psi::" + os.path.relpath(f, REPO) in self.tried:
                    continue
                o = os.path.join(self.work, "x%d.bc" % len(self.tried))
                self.tried.add("psi::" + os.path.relpath(f, REPO))
                if sh(["clang++"] + BC + self.common() + ["-fno-access-control", "-c", f, "-o", o]).returncode:
                    continue
                if sym in sh(["llvm-nm-18", "--defined-only", "--format=just-symbols", o]).stdout.split():
                    self.extra.append(f)
                    made.append(o)
                    break
        return made

    def compile_native(self, entry, threads):
        """The same harness and repository code, compiled natively."""
        san = [] if threads else ["-fsanitize=address,integer-divide-by-zero,unreachable,return,null,bounds",
                                  "-fno-sanitize-recover=all"]
        key = ("t" if threads else "a")
        odir = os.path.join(self.work, "nat_" + key)
        jobs = []
        if not os.path.exists(odir):
            os.makedirs(odir)
            for i, u in enumerate(self.units()):
                o = os.path.join(odir, "u%d.o" % i)
                jobs.append((["clang++", "-O1", "-g", "-w", "-fno-access-control"] + san + self.common() + ["-c", u, "-o", o], u))
        nat = os.path.join(odir, "native_%s.o" % entry)
        jobs.append((["clang++", "-std=c++17", "-O1", "-g", "-w", "-fno-access-control", "-DHARNESS_ENTRY=" + entry] + san +
                     (["-DNATIVE_THREADS"] if threads else []) +
                     ["-I" + os.path.join(VERIF, "lib"), "-c", os.path.join(VERIF, "lib", "native.cpp"), "-o", nat], "native"))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda j: sh(j[0]), jobs))
        for r, j in zip(res, jobs):
            if r.returncode:
                raise RuntimeError("native compile of %s failed:\n%s" % (j[1], r.stdout[:4000]))
        exe = os.path.join(odir, "replay_" + entry)
        objs = [os.path.join(odir, "u%d.o" % i) for i in range(len(self.units()))]
        r = sh(["clang++"] + san + [nat] + objs + ["-o", exe, "-lpthread"])
        if r.returncode:
            raise RuntimeError("native link failed:\n" + r.stdout[:4000])
        return exe


ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=41:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:"
        "allocator_may_return_null=1:detect_odr_violation=0")


def replay(nat, path, timeout=60):
    try:
        r = subprocess.run([nat, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, ASAN_OPTIONS=ASAN))
        return r.stdout.decode("utf8", "replace"), r.returncode
    except subprocess.TimeoutExpired:
        return "replay timed out (does not terminate)", 45


def use_threads(e):
    return e.get("threads", e.get("preempt") is not None)


class Natives:
    """Native replay programs, built once per entry."""

    def __init__(self, b):
        self.b, self.made = b, {}

    def __call__(self, fn, threads):
        if (fn, threads) not in self.made:
            self.made[(fn, threads)] = self.b.compile_native(fn, threads)
        return self.made[(fn, threads)]


def write_replay(path, pid, ent, v, params, preempt):
    with open(path, "w") as f:
        f.write("property %s\nentry %s\nkind %s\nmsg %s\n" % (pid, ent["fn"], v["kind"], v["msg"].replace("\n", " ")))
        for k, x in params.items():
            f.write("param %s=%d\n" % (k, x))
        f.write("preempt %d\n" % preempt)
        f.write("sched " + " ".join(map(str, v["sched"])) + "\n")
        for n, h in v["inputs"]:
            f.write("input %s %s\n" % (n, h))
        f.write("--- engine trace\n" + v["stack"] + "\n" + "\n".join(v["notes"]) + "\n")


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    keep, verbose = "--keep" in sys.argv, "--verbose" in sys.argv
    t0 = time.time()
    exe = ensure_engine()
    spec = load_spec(pid)
    work = tempfile.mkdtemp(prefix="psisym_%s_" % pid)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    code = 2
    try:
        code = decide(pid, tier, spec, work, exe, only, verbose, t0)
    except RuntimeError as e:
        print("NO-VERDICT property=%s %s" % (pid, e))
        write_evidence(pid, tier, spec, [], [], ["build failed: %s" % str(e)[:500]], time.time() - t0)
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(pid, tier, spec, work, exe, only, verbose, t0):
    b = Build(pid, spec, work)
    b.prepare()
    bc = b.compile_bc()
    ents = []
    for e in spec["entries"]:
        if only and e["fn"] != only and e.get("id") != only:
            continue
        if e.get("tier", tier) != tier and e.get("tier") == "thorough":
            continue
        par = dict(e.get("params", {}))
        par.update(e.get(tier, {}))
        variants = [par]
        if "sweep" in e:  # {"n": [1,2,3]} or per tier
            sw = e["sweep"].get(tier, e["sweep"]) if isinstance(e["sweep"], dict) and tier in e["sweep"] else e["sweep"]
            for k, vs in sw.items():
                variants = [dict(p, **{k: x}) for p in variants for x in vs]
        for p in variants:
            ents.append((e, p))
    # a quick run must end inside the 900 s a check is given
    limit = 600 if tier == "quick" else spec.get("thorough_limit", 3000)

    def run(job):
        i, (e, p) = job
        out = os.path.join(work, "o%d.json" % i)
        preempt = e.get("preempt", -1)
        if isinstance(preempt, dict):
            preempt = preempt[tier]
        left = max(30, limit - (time.time() - t0))
        cmd = [exe, bc, "--entry", e["fn"], "--out", out, "--scratch", work, "--max-time", str(int(left)),
               "--preempt", str(preempt), *(["--deviate"] if e.get("deviate") else []), "--mem-mb", str(e.get("mem_mb", 6000)),
               "--max-steps", str(e.get("max_steps", 40000000)), "--ext-s", str(e.get("ext_s", 120))]
        for k, x in p.items():
            cmd += ["--param", "%s=%d" % (k, x)]
        if verbose:
            cmd.append("--verbose")
        ts = time.time()
        r = sh(cmd)
        try:
            d = json.load(open(out))
        except Exception:
            d = {"complete": False, "violations": [], "incomplete": ["engine failed rc=%d: %s" % (r.returncode, r.stdout[-600:])], "reached": [], "functions": {}}
        d["_wall"] = time.time() - ts
        d["_log"] = r.stdout
        d["_preempt"] = preempt
        if verbose:
            sys.stdout.write(r.stdout)
        if verbose or os.environ.get("PSI_PROGRESS"):
            print("  %-28s %-40s paths=%s queries=%s unk=%s solver=%ss wall=%.1fs viol=%d %s" % (
                e["fn"], p, d.get("paths"), d.get("queries"), d.get("unknown"), d.get("solver_s"), d["_wall"], len(d["violations"]), d["incomplete"]), flush=True)
        return d

    natives = Natives(b)
    with cf.ThreadPoolExecutor(spec.get("jobs", NCPU)) as ex:
        res = list(ex.map(run, enumerate(ents)))
    violations, problems, findings = [], [], []
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf)).get("findings", []):
            known[k["id"]] = k
    nrep = 0
    seen_reach = {}
    for (e, p), d in zip(ents, res):
        seen_reach.setdefault(e["fn"], set()).update(d["reached"])
        for v in d["violations"]:
            if v["kind"] == "internal":
                problems.append("%s %s: engine cannot decide: %s at %s" % (e["fn"], p, v["msg"], v["where"]))
                continue
            path = os.path.join(VERIF, "evidence", "replay", "%s_%s_%d.txt" % (pid, e["fn"], nrep))
            nrep += 1
            write_replay(path, pid, e, v, p, d["_preempt"])
            threads = use_threads(e)
            nat = natives(e["fn"], threads)
            txt, rc = replay(nat, path)
            ok = rc not in (0, 43, 44)
            with open(path, "a") as f:
                f.write("--- native replay (exit %d)\n%s\n" % (rc, txt[-6000:]))
            if not ok:
                problems.append("%s %s: counterexample '%s' did not replay (exit %d), see %s" % (e["fn"], p, v["msg"], rc, path))
                continue
            fid = e.get("finding")
            if fid and fid in known and known[fid]["property"] == pid:
                findings.append((fid, known[fid]["what"], path))
            else:
                violations.append((v, path, e, p))
        if not d["complete"] and not d["violations"]:
            problems.append("%s %s: %s" % (e["fn"], p, "; ".join(d["incomplete"]) or "not complete"))
    if not violations and not problems and not only:
        for e in spec["entries"]:
            if e["fn"] in seen_reach and not e.get("finding"):
                miss = set(e.get("reach", ["end"])) - seen_reach[e["fn"]]
                if miss:
                    problems.append("%s: never reached %s (harness would be vacuous)" % (e["fn"], sorted(miss)))
    # the real code, compiled natively, must agree with the symbolic run on the
    # inputs and schedules of sampled completed paths
    validated = 0
    if not violations and not problems:
        jobs, per = [], {}
        for i, ((e, p), d) in enumerate(zip(ents, res)):
            for w in d.get("witnesses", [])[-2:]:
                if per.get(e["fn"], 0) < (3 if tier == "quick" else 12):
                    per[e["fn"]] = per.get(e["fn"], 0) + 1
                    path = os.path.join(VERIF, "evidence", "replay", "%s_%s_witness%d.txt" % (pid, e["fn"], len(jobs)))
                    write_replay(path, pid, e, {"kind": "witness", "msg": "completed path", "sched": w["sched"], "inputs": w["inputs"],
                                                "stack": "", "notes": []}, p, d["_preempt"])
                    jobs.append((e, p, path))
        for e in {id(j[0]): j[0] for j in jobs}.values():
            natives(e["fn"], use_threads(e))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            out = list(ex.map(lambda j: replay(natives(j[0]["fn"], use_threads(j[0])), j[2]), jobs))
        for (e, p, path), (txt, rc) in zip(jobs, out):
            if rc == 0:
                validated += 1
                os.remove(path)
                continue
            with open(path, "a") as f:
                f.write("--- native replay (exit %d)\n%s\n" % (rc, txt[-6000:]))
            if rc in (41, 42):
                violations.append(({"kind": "native", "msg": "the native build of the same code fails on a path the symbolic run completed",
                                    "where": (txt.strip().splitlines() or [""])[-1][:200]}, path, e, p))
            else:
                problems.append("%s %s: native run of a completed path differs (exit %d), see %s" % (e["fn"], p, rc, path))
    write_evidence(pid, tier, spec, list(zip(ents, res)), violations, problems, time.time() - t0, validated)
    for fid, what, path in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if violations:
        for v, path, e, p in violations:
            print("%s [%s %s] %s: %s at %s" % (pid, e["fn"], p, v["kind"], v["msg"], v["where"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        for x in problems:
            print("NO-VERDICT property=%s %s" % (pid, x))
        return 2
    tot = sum(d.get("queries", 0) for d in res)
    print("OK property=%s tier=%s entries=%d paths=%d queries=%d solver=%.1fs wall=%.1fs" % (
        pid, tier, len(res), sum(d.get("paths", 0) for d in res), tot, sum(d.get("solver_s", 0) for d in res), time.time() - t0))
    return 0


def write_evidence(pid, tier, spec, runs, violations, problems, wall, validated=0):
    fns = {}
    for (_, d) in runs:
        for f, l in d.get("functions", {}).items():
            if f.startswith(REPO + "/"):
                fns.setdefault(f[len(REPO) + 1:], set()).update(l)
    agg = lambda k: sum(d.get(k, 0) or 0 for _, d in runs)
    samples = []
    for ((e, p), d) in runs[:12]:
        samples.append({"entry": e["fn"], "params": p, "paths": d.get("paths"), "queries": d.get("queries"), "complete": d.get("complete"), "reached": d.get("reached")})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": agg("paths") + agg("assume_ended") + agg("forks"),
            "transitions": agg("steps"),
            "traces_validated_against_impl": validated + len(violations),
            "samples": samples,
            "paths_completed": agg("paths"), "paths_pruned_by_assumptions": agg("assume_ended"), "forks": agg("forks"),
            "assertions_checked": agg("asserts"), "assertion_queries": agg("assert_queries"),
            "solver_queries": agg("queries"), "sat": agg("sat"), "unsat": agg("unsat"), "unknown": agg("unknown"),
            "cache_hits": agg("cache_hits"), "external_solver_queries": agg("external"), "finite_domain_queries": agg("finite"),
            "solver_seconds": round(agg("solver_s"), 3),
            "functions_encoded": {k: sorted(v) for k, v in sorted(fns.items())},
            "bounds": spec.get("bounds", ""),
            "bounds_by_entry": [{"entry": e["fn"], "params": p, "preemptions": d.get("_preempt", -1), "decides": e.get("what", "")} for ((e, p), d) in runs],
            "states_means": "symbolic states: path prefixes at which the executor forked plus path ends; each stands for every input and schedule satisfying its path condition. transitions: LLVM instructions executed over them. traces_validated_against_impl: completed symbolic paths and counterexamples re-run on the native build of the same code with the same outcome",
            "undecided": problems,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "violation_list": [{"what": "%s: %s at %s" % (v["kind"], v["msg"], v["where"]), "replay": path} for v, path, _, _ in violations],
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
