#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

  check.py <property id> [--tier quick|thorough] [--keep] [--jobs N]

The library sources and the harness are compiled from /repo's working tree to LLVM bitcode, linked with a small
runtime, and executed by build/zsym.  Every violation the engine reports is replayed on a natively compiled
program (AddressSanitizer, UndefinedBehaviorSanitizer) before it counts.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZS_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
CXX = LLVM + "/clang++"
BUILD = VERIF + "/build"
ENGINE = BUILD + "/zsym"
SRC = REPO + "/runtime/src"
UB = "signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,bool,enum,bounds"
sys.path.insert(0, VERIF + "/tools")
import props  # noqa: E402


class Fail(Exception):
    pass


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                          timeout=timeout, **kw)


def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode != 0:
        raise Fail("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    must(["flock", BUILD + "/.lock", "make", "-s", "-j4", "-C", VERIF + "/engine"])


def parallel(cmds, workers=8):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(must, cmds))


def includes(p):
    inc = ["-I" + SRC, "-I" + VERIF + "/engine", "-I" + VERIF + "/harness", "-I" + REPO + "/runtime/test",
           "-I" + REPO + "/runtime/test/test_object", "-I" + REPO + "/3rdparty/cpp/sqlite"]
    return [i for i in inc if os.path.isdir(i[2:])]


def sources(p):
    s = sorted(glob.glob(SRC + "/zserio/*.cpp"))
    for pat in p.get("extra_sources", []):
        m = sorted(glob.glob(pat.replace("@REPO@", REPO).replace("@VERIF@", VERIF)))
        if not m:
            raise Fail("no source matches " + pat)
        s += m
    return s


def build_bitcode(p, work):
    flags = ["-std=c++17", "-O2", "-g1", "-Xclang", "-disable-llvm-passes",
             "-emit-llvm", "-c", "-w"] + includes(p) + p.get("flags", [])
    if p.get("ub", True):
        flags += ["-fsanitize=" + UB, "-fsanitize-trap=" + UB]
    srcs = sources(p)
    cmds, objs = [], []
    for i, s in enumerate(srcs):
        o = "%s/s%d.bc" % (work, i)
        objs.append(o)
        cmds.append([CXX] + flags + [s, "-o", o])
    hb = work + "/harness.bc"
    cmds.insert(0, [CXX] + flags + [VERIF + "/harness/" + p["harness"], "-o", hb])
    rt = work + "/rt.bc"
    cmds.append([CXX, "-std=c++17", "-O2", "-Xclang", "-disable-llvm-passes",
                 "-fno-builtin", "-emit-llvm", "-c", "-w", "-I" + VERIF + "/engine", VERIF + "/engine/rt.cpp", "-o", rt])
    parallel(cmds)
    linked, prep, out = work + "/linked.bc", work + "/prep.bc", work + "/prog.bc"
    must([LLVM + "/llvm-link", hb, rt] + objs + ["-o", linked])
    must([ENGINE, "--prep", linked, prep] + (["--keep-messages"] if p.get("keep_messages") else []))
    # raw: no pass which removes unused loads, so that every memory access of the source is checked
    passes = "globaldce,function(sroa),cgscc(inline),function(sroa,simplifycfg)" if p.get("raw") else "globaldce,default<O2>"
    must([LLVM + "/opt", "-passes=" + passes, "-vectorize-loops=false", "-vectorize-slp=false",
          "-unroll-threshold=0", prep, "-o", out])
    return out


def build_native(p, work):
    exe = work + "/replay"
    if os.path.exists(exe):
        return exe
    flags = ["-std=c++17", "-O0" if p.get("raw") else "-O1", "-g", "-w", "-fsanitize=address," + UB, "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"] + includes(p) + p.get("flags", [])
    cmds, objs = [], []
    for i, s in enumerate([VERIF + "/harness/" + p["harness"], VERIF + "/engine/native.cpp"] + sources(p)):
        o = "%s/n%d.o" % (work, i)
        objs.append(o)
        cmds.append([CXX] + flags + ["-c", s, "-o", o])
    parallel(cmds)
    must([CXX, "-fsanitize=address,undefined", "-rdynamic"] + objs + ["-o", exe + ".tmp", "-ldl", "-lpthread"])
    os.rename(exe + ".tmp", exe)
    return exe


def run_job(prog, work, n, job, deadline, opts=()):
    out = "%s/job%d.json" % (work, n)
    left = max(5.0, deadline - time.time())
    cmd = [ENGINE, prog, "--entry", job["entry"], "--out", out, "--max-time", "%.0f" % min(left, job.get("max_time", 1e9)),
           "--max-steps", str(job.get("max_steps", 20000000))] + list(opts)
    for k, v in job.get("params", {}).items():
        cmd += ["--param", "%s=%d" % (k, v)]
    if job.get("steps_are_violation"):
        cmd.append("--steps-are-violation")
    t = time.time()
    try:
        r = run(cmd, timeout=left + 60, preexec_fn=lambda: limit_memory(job.get("mem_gb", 8)))
        rc, log = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, log = 124, "timeout"
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
    return {"job": job, "rc": rc, "log": log[-3000:], "res": res, "wall": time.time() - t}


def limit_memory(gb):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


def inputs_to_tokens(v):
    return "\n".join(" ".join(str(x) for x in i["values"]) for i in v["inputs"] if i["values"]) + "\n"


def replay_native(p, exe, job, path):
    cmd = [exe, job["entry"], path] + ["%s=%d" % kv for kv in job.get("params", {}).items()]
    env = dict(os.environ)
    env["ASAN_SYMBOLIZER_PATH"] = LLVM + "/llvm-symbolizer"
    try:
        r = run(cmd, timeout=90, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def trivially(job):
    return "%s(%s)" % (job["entry"], ", ".join("%s=%d" % kv for kv in sorted(job.get("params", {}).items())))


def cross_validate(p, prog, exe, work, jobs, rng, count):
    """Run the same concrete inputs through the encoding and the native program; the traces must agree."""
    n_ok, bad = 0, []
    for k in range(count):
        job = rng.choice(jobs)
        path = "%s/xv%d.txt" % (work, k)
        with open(path, "w") as f:
            f.write(" ".join(str(rng.choice([0, 1, 2, 3, 5, 7, 8, 15, 127, 128, 255, rng.getrandbits(8), rng.getrandbits(16),
                                             rng.getrandbits(32), rng.getrandbits(64)])) for _ in range(400)) + "\n")
        r = run_job(prog, work, 10000 + k, job, time.time() + 60, ["--concrete", path])
        env = dict(os.environ, ZS_TRACE=path + ".out")
        try:
            nr = run([exe, job["entry"], path] + ["%s=%d" % kv for kv in job.get("params", {}).items()], timeout=60, env=env)
        except subprocess.TimeoutExpired:
            continue
        if nr.returncode == 42 or (r["res"] and r["res"]["paths"] == 0 and not r["res"]["violations"]):
            continue  # rejected by an assumption
        nat = [int(x) for x in open(path + ".out").read().split()] if os.path.exists(path + ".out") else []
        eng = r["res"]["outs"] if r["res"] else None
        same = eng is not None and ((r["rc"] == 0) == (nr.returncode == 0)) and (nr.returncode != 0 or eng == nat)
        if same:
            n_ok += 1
        else:
            bad.append("%s inputs %s: engine rc %s outs %s, native rc %s outs %s" % (
                trivially(job), path, r["rc"], eng, nr.returncode, nat))
    return n_ok, bad


def known_findings(pid):
    try:
        data = json.load(open(VERIF + "/known_findings.json"))
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if e.get("property") == pid and e.get("status") == "known"]


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    keep = False
    workers = 8
    only = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--keep":
            keep = True
        elif args[i] == "--only":
            only = args[i + 1]
            i += 1
        elif args[i] == "--jobs":
            workers = int(args[i + 1])
            i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = props.PROPS[pid]
    t0 = time.time()
    budget = 780 if tier == "quick" else float(os.environ.get("ZS_THOROUGH_BUDGET", "7200"))
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix="zs-%s-" % pid)
    try:
        return decide(pid, p, tier, seed, t0, deadline, work, workers, only)
    except Fail as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def decide(pid, p, tier, seed, t0, deadline, work, workers, only):
    ensure_engine()
    prog = build_bitcode(p, work)
    t_build = time.time() - t0
    jobs = [j for j in p["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
    jobs = [j for j in jobs if not (tier == "thorough" and j.get("tier") == "quick-only")]
    if only:
        jobs = [j for j in jobs if only in trivially(j)]
    known = {k["entry"]: k for k in known_findings(pid)}
    results = []
    violations, errors, knownlines = [], [], []
    exe = None
    nrep = 0
    repdir = BUILD + "/replay/" + pid
    shutil.rmtree(repdir, ignore_errors=True)
    seen_msgs = set()
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        futs = {}
        for n, j in enumerate(jobs):
            futs[ex.submit(run_job, prog, work, n, j, deadline)] = j
        stop = False
        for f in concurrent.futures.as_completed(futs):
            try:
                r = f.result()
            except concurrent.futures.CancelledError:
                continue
            results.append(r)
            j, res = r["job"], r["res"]
            if res is None:
                errors.append("%s: engine failed (rc %s): %s" % (trivially(j), r["rc"], r["log"][-800:]))
                continue
            isknown = j["entry"] in known and j.get("known")
            for v in res["violations"]:
                os.makedirs(repdir, exist_ok=True)
                key = (j["entry"], v["kind"], v["message"])
                if key in seen_msgs:
                    continue
                seen_msgs.add(key)
                if exe is None:
                    exe = build_native(p, work)
                path = "%s/%d.txt" % (repdir, nrep)
                nrep += 1
                with open(path, "w") as fo:
                    fo.write(inputs_to_tokens(v))
                rc, out = replay_native(p, exe, j, path)
                with open(path, "w") as fo:
                    fo.write("# property %s\n# harness %s, entry %s\n# %s: %s\n# at %s\n" % (
                        pid, p["harness"], trivially(j), v["kind"], v["message"], v["where"]))
                    for ln in v["trace"].splitlines()[:25]:
                        fo.write("#   %s\n" % ln)
                    fo.write("# reproduce: %s/tools/replay.sh %s %s %s\n" % (
                        VERIF, pid, path, " ".join([j["entry"]] + ["%s=%d" % kv for kv in j.get("params", {}).items()])))
                    fo.write("# native replay: exit %d\n" % rc)
                    for ln in out.splitlines()[:40]:
                        fo.write("#   %s\n" % ln)
                    for i in v["inputs"]:
                        fo.write("# input %s (%d bit): %s\n" % (i["name"], i["width"], " ".join(hex(x) for x in i["values"])))
                    fo.write(inputs_to_tokens(v))
                confirmed = rc not in (0, 42, 43, 45)
                text = "%s: %s: %s" % (trivially(j), v["kind"], v["message"])
                if confirmed and isknown and v["message"] == known[j["entry"]]["message"]:
                    knownlines.append("KNOWN-FINDING: property=%s %s" % (pid, known[j["entry"]]["what"]))
                elif confirmed:
                    violations.append((path, text, out[-1500:]))
                else:
                    errors.append("unconfirmed counterexample (native exit %d) %s, see %s" % (rc, text, path))
            if not res["violations"]:
                if res["status"] != "complete":
                    errors.append("%s: exploration incomplete: %s" % (trivially(j), "; ".join(res["incomplete"])))
                for lab in j.get("reach", []):
                    if not res["reach"].get(lab):
                        errors.append("%s: vacuous, label '%s' not reached" % (trivially(j), lab))
                if res["paths"] == 0:
                    errors.append("%s: no path completed" % trivially(j))
            if len(violations) >= 3 and not stop:
                stop = True
                for g in futs:
                    g.cancel()
    xv = (0, [])
    if not violations and not errors and (tier == "thorough" or os.environ.get("ZS_XV")):
        if exe is None:
            exe = build_native(p, work)
        xv = cross_validate(p, prog, exe, work, [j for j in jobs if not j.get("known")], random.Random(seed),
                            int(os.environ.get("ZS_XV", "60")))
        errors += xv[1]
    write_evidence(pid, p, tier, seed, t0, t_build, results, violations, errors, knownlines, xv)
    for k in sorted(set(knownlines)):
        print(k)
    for path, text, out in violations[:5]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + text)
        for ln in [x for x in out.splitlines() if "REPLAY" in x or "ERROR" in x or "runtime error" in x][:3]:
            print("  native: " + ln)
    for e in errors[:8]:
        print("ERROR property=%s %s" % (pid, e))
    tot = sum(r["wall"] for r in results)
    slow = sorted(results, key=lambda r: -r["wall"])[:3]
    print("%s %s: %d jobs, %d paths, %d violations, %d errors, build %.1fs, total %.1fs (engine cpu %.1fs; slowest %s)" % (
        pid, tier, len(results), sum(r["res"]["paths"] for r in results if r["res"]), len(violations), len(errors),
        t_build, time.time() - t0, tot, ", ".join("%s %.1fs" % (trivially(r["job"]), r["wall"]) for r in slow)))
    if violations:
        return 1
    return 2 if errors else 0


def write_evidence(pid, p, tier, seed, t0, t_build, results, violations, errors, knownlines, xv):
    def tot(k):
        return sum(r["res"][k] for r in results if r["res"])
    fns = set()
    asserts, reach = {}, {}
    samples = []
    for r in results:
        if not r["res"]:
            continue
        fns.update(r["res"]["functions"])
        for a, b in r["res"]["assertions"].items():
            asserts[a] = asserts.get(a, 0) + b
        for a, b in r["res"]["reach"].items():
            reach[a] = reach.get(a, 0) + b
        for s in r["res"]["samples"][:1]:
            if len(samples) < 6:
                samples.append({"entry": trivially(r["job"]), "path inputs": s})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": p.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": xv[0],
            "samples": samples,
            "explanation": "states are completed symbolic paths, each standing for every input that follows it; "
                           "transitions are executed LLVM instructions",
            "jobs": len(results),
            "jobs_complete": sum(1 for r in results if r["res"] and r["res"]["status"] == "complete"),
            "path_forks": tot("forks"),
            "assertions_checked": tot("asserts"),
            "assertions_decided_by_simplification": tot("asserts_simplified"),
            "assertions_decided_by_solver": tot("asserts_solver"),
            "solver_queries": tot("queries"),
            "queries_discharged_by_z3": tot("queries_z3"),
            "queries_answered_from_cache": tot("queries_cached"),
            "queries_answered_by_path_model_or_simplifier": tot("queries_trivial"),
            "z3_sat": tot("sat"), "z3_unsat": tot("unsat"), "z3_unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_seconds"), 3),
            "build_seconds": round(t_build, 2),
            "assertions": asserts,
            "reachability_witnesses": reach,
            "functions_encoded": sorted(fns)[:400],
            "functions_encoded_count": len(fns),
            "bounds": p.get("bounds", []),
            "outside_bounds": p.get("outside", []),
            "stubs": p.get("stubs", []) + props.COMMON_STUBS,
            "errors": errors[:10],
            "known_findings": sorted(set(knownlines)),
        },
        "assumptions": p.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    txt = json.dumps(ev, indent=1)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        f.write(txt + "\n")


if __name__ == "__main__":
    sys.exit(main())
