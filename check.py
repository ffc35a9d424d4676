#!/usr/bin/env python3
"""Driver of the property checks: builds the harnesses of one property from /repo's working tree, runs them, writes
the evidence file and prints the verdict.

  check.py C01              run the check of C01 (VERIF_SEED, VERIF_TIER from the environment)
  check.py C01 --replay F   re-run a saved failing case
  check.py --setup          check that the tools are there
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness", "gen"))
sys.dont_write_bytecode = True
import programs as gen_programs  # noqa: E402
import snippets as gen_snippets  # noqa: E402

REPO = os.environ.get("CO_ECS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"]
BASE = ["-std=c++20", "-O1", "-gline-tables-only", "-fno-strict-aliasing", "-Wno-everything",
        "-I" + REPO + "/include", "-I" + VERIF + "/harness"]
JOBS = 8


def reg(*extra):
    d = os.path.join(VERIF, "harness", "reg")
    base = [os.path.join(d, f) for f in sorted(os.listdir(d)) if re.match(r"(ops|create)_\d+\.cpp$|common\.cpp$", f)]
    return base + [os.path.join(d, e) for e in extra]


def h(*names):
    return [os.path.join(VERIF, "harness", n) for n in names]


PBT = h("pbt.cpp")
# binary name -> (sources, compile flags, link flags)
BINARIES = {
    "state": (lambda: reg("case_state.cpp") + PBT, SAN, SAN),
    "failure": (lambda: reg("case_failure.cpp") + PBT, SAN, SAN),
    "lifecycle": (lambda: reg("case_lifecycle.cpp") + PBT, SAN, SAN),
    "reserve": (lambda: reg("case_reserve.cpp") + PBT, SAN, SAN),
    "transfer": (lambda: reg("case_transfer.cpp") + PBT, SAN, SAN),
    "address": (lambda: reg("case_address.cpp") + PBT, SAN, SAN),
    "view": (lambda: reg("case_view.cpp") + PBT, SAN, SAN),
    "view_rv3": (lambda: reg("case_view.cpp") + PBT, SAN + ["-DCO_ECS_USE_RANGE_V3"], SAN),
    "command": (lambda: reg("case_command.cpp") + PBT, SAN, SAN),
    "hash": (lambda: h("cont/case_hash.cpp") + PBT, SAN, SAN),
    "sparse": (lambda: h("cont/case_sparse.cpp") + PBT, SAN, SAN),
    "sets": (lambda: h("cont/case_sets.cpp") + PBT, SAN, SAN),
    "alloc": (lambda: h("cont/case_alloc.cpp") + PBT, SAN, SAN),
    "archetypes": (lambda: h("reg/case_archetypes.cpp") + PBT, SAN, SAN),
    "mass": (lambda: h("reg/case_mass.cpp") + PBT, SAN, SAN),
    "handles": (lambda: reg("case_handles.cpp") + PBT, SAN, SAN),
}
# harnesses under the deterministic scheduler: race-checked by own callbacks, the TSan runtime is not linked
RACE = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
SCHED = h("sched/core.cpp", "sched/race.cpp") + PBT


def sched_bin(name, *srcs, flags=()):
    BINARIES[name] = (lambda: h(*srcs) + SCHED, lambda src: RACE + list(flags) if "/case_" in src else ["-O2"], ["-no-pie"])


sched_bin("queue", "sched/case_queue.cpp")
sched_bin("pool", "sched/case_pool.cpp")
sched_bin("threads", "sched/case_threads.cpp")
sched_bin("schedule", "sched/case_schedule.cpp")
sched_bin("parallel", "sched/case_parallel.cpp")
sched_bin("parallel_rv3", "sched/case_parallel.cpp", flags=["-DCO_ECS_USE_RANGE_V3"])

def programs(pid, name, opts, tier, seed, deadline):
    return gen_programs.check(REPO, pid, name, opts, tier, seed, deadline, os.path.join(VERIF, "replays"))


def snippets(pid, name, opts, tier, seed, deadline):
    return gen_snippets.check(REPO, pid, name, opts, tier, seed, deadline, os.path.join(VERIF, "replays"))


programs.replay = lambda path: gen_programs.replay(REPO, path)
snippets.replay = lambda path: gen_snippets.replay(REPO, path)
# a second, smaller run in which freed memory is used again at once: stale pointers then meet new objects
REUSE = {"tag": "addresses reused", "seed_offset": 2000, "scale": 0.3, "asan": ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"}
# property -> list of runs: (binary, harness name, {options})
CHECKS = {
    "C01": [("state", "state", {}), ("state", "state", REUSE), ("archetypes", "archetypes", {}), ("mass", "mass", {})],
    "C02": [("handles", "handles", {}), ("handles", "handles", REUSE), ("handles", "recycle", {}), ("mass", "mass", {})],
    "C03": [("lifecycle", "lifecycle", {}), ("lifecycle", "lifecycle", REUSE), ("mass", "mass", {})],
    "C09": [("reserve", "sequential", {}), ("reserve", "bulk", {}), ("threads", "concurrent", {})],
    "C05": [("transfer", "transfer", {}), ("transfer", "transfer", REUSE), ("archetypes", "archetypes", {}), ("mass", "mass", {})],
    "C07": [("address", "address", {}), ("address", "fit", {}), ("mass", "mass", {})],
    "C04": [("view", "view", {}), ("view", "view", REUSE), ("view_rv3", "view", {"tag": "range-v3", "seed_offset": 1000}), ("archetypes", "archetypes", {}), ("mass", "mass", {})],
    "C08": [("command", "command", {}), ("command", "command", REUSE), ("mass", "mass", {})],
    "C10": [("schedule", "schedule", {})],
    "C11": [("schedule", "overlap", {}), ("schedule", "patterns", {})],
    "C12": [("pool", "tree", {}), ("pool", "many", {})],
    "C13": [("parallel", "parallel", {}), ("parallel_rv3", "parallel", {"tag": "range-v3", "seed_offset": 1000, "scale": 0.2})],
    "C14": [("queue", "concurrent", {}), ("queue", "sequential", {})],
    "C15": [("hash", "hash_map", {})],
    "C16": [("sparse", "sparse_map", {})],
    "C17": [("sets", "component_sets", {})],
    "C18": [("alloc", "linear", {}), ("alloc", "stack", {}), ("alloc", "temp", {})],
    "C19": [(programs, "programs", {})],
    "C20": [(snippets, "snippets", {})],
    "C21": [("threads", "threads", {})],
    "C06": [("failure", "failure", {}), ("failure", "failure", REUSE)],
}
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest_tree(root):
    m = hashlib.sha256()
    for dp, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(dp, f)
            m.update(p.encode())
            with open(p, "rb") as fh:
                m.update(fh.read())
    return m.digest()


_common = None


def common_digest():
    """everything any harness source may include"""
    global _common
    if _common is None:
        m = hashlib.sha256()
        m.update(digest_tree(os.path.join(REPO, "include")))
        for dp, dn, fn in sorted(os.walk(os.path.join(VERIF, "harness"))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".hpp", ".inc")):
                    p = os.path.join(dp, f)
                    m.update(p.encode() + open(p, "rb").read())
        _common = m.digest()
    return _common


class BuildError(Exception):
    pass


def compile_one(src, flags):
    key = hashlib.sha256(common_digest() + open(src, "rb").read() + repr((src, flags)).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(src).replace(".", "_"), key))
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(["clang++"] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        os.rename(tmp, obj)
    return obj


def build(names):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    jobs, seen = {}, {}
    with ThreadPoolExecutor(JOBS) as ex:
        for n in names:
            srcs, cflags, lflags = BINARIES[n]
            srcs = srcs()
            for s in srcs:
                flags = BASE + (cflags(s) if callable(cflags) else cflags)
                k = (s, tuple(flags))
                if k not in seen:
                    seen[k] = ex.submit(compile_one, s, flags)
                jobs.setdefault(n, []).append(seen[k])
        objs = {n: [j.result() for j in js] for n, js in jobs.items()}
        links = []
        for n in names:
            key = hashlib.sha256(repr(objs[n]).encode()).hexdigest()[:24]
            out = os.path.join(BUILD, "bin", "%s-%s" % (n, key))
            links.append((n, out, ex.submit(link_one, n, objs[n], out)))
        return {n: (f.result(), out)[1] for n, out, f in links}


def link_one(name, objs, out):
    if os.path.exists(out):
        return
    r = sh(["clang++", "-fuse-ld=lld"] + objs + BINARIES[name][2] + ["-lpthread", "-ldl", "-o", out + ".tmp"])
    if r.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
    os.rename(out + ".tmp", out)


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:symbolize=0:detect_stack_use_after_return=0:handle_abort=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    return env


def prune():
    """keep the build directory small"""
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d):
            continue
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in fs)
        while fs and total > 1500e6:
            total -= os.path.getsize(fs[0])
            os.unlink(fs.pop(0))


def run_harness(pid, binpath, name, opts, tier, seed, deadline):
    frag = os.path.join(BUILD, "frag-%s-%s-%d.json" % (pid, name, os.getpid()))
    cap = opts.get("max_seconds", {}).get(tier) or (110 if tier == "quick" else 900)
    cap = max(5, min(cap, int(deadline - time.time())))
    cmd = [binpath, "--prop", pid, "--harness", name, "--tier", tier, "--seed", str(seed + opts.get("seed_offset", 0)), "--workers",
           str(opts.get("workers", 8)), "--scale", str(opts.get("scale", 1)), "--max-seconds", str(cap), "--shrink-seconds", str(opts.get("shrink", 40)),
           "--out", frag, "--replay-dir", os.path.join(VERIF, "replays")]
    out = ""
    for attempt in range(3):
        if os.path.exists(frag):
            os.unlink(frag)
        env = run_env()
        env["ASAN_OPTIONS"] += opts.get("asan", "")
        r = sh(cmd, env=env)
        out += r.stdout
        if r.returncode != 3:
            break
    res = {"rc": r.returncode, "out": out}
    if os.path.exists(frag):
        res.update(json.load(open(frag)))
        os.unlink(frag)
    if "tag" in opts and "harness" in res:
        res["harness"] += " (" + opts["tag"] + ")"
    if r.returncode == 3:
        # failed three times with the same seed, never at the same point: memory corruption or a race
        res["rc"] = 1
        path = os.path.join(VERIF, "replays", "%s-%s-unstable-%d.txt" % (pid, name, seed))
        with open(path, "w") as f:
            f.write("# fails on every full run, at varying cases; re-run:\n# " + " ".join(cmd) + "\n" + out[-20000:])
        res["replay"] = path
        res["message"] = "fails on every full run with this seed, not at the same case"
    return res


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def write_evidence(pid, tier, seed, frags, wall, violations, assumptions):
    ev, dn = 0, 0
    rules, samples, extra = [], [], []
    for f in frags:
        ev += f.get("evaluations", 0)
        dn += f.get("distinct_nontrivial", 0)
        rules.append("%s: %s" % (f.get("harness", "?"), f.get("rule", "")))
        samples += [{"harness": f.get("harness", "?"), "case": s} for s in f.get("samples", [])[:2]]
        extra.append({k: f[k] for k in ("harness", "evaluations", "nontrivial", "distinct_nontrivial", "labels", "wall_s",
                                        "status") if k in f})
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": " || ".join(rules), "samples": samples,
                     "harnesses": extra},
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


def main():
    if sys.argv[1:] == ["--setup"]:
        for t in ("clang++", "ld.lld"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        print("setup ok")
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 4 * 3600)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    prune()
    runs = CHECKS[pid]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        head = open(sys.argv[3], errors="replace").read(400)
        m = re.search(r"harness[ =:]+(\S+)", head)
        for b, name, opts in runs:
            if callable(b):
                if m is None or m.group(1) == name:
                    return b.replay(sys.argv[3])
                continue
            if m is None or m.group(1) == name:
                bins = build([b])
                env = run_env()
                env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("symbolize=0", "symbolize=1")
                return subprocess.run([bins[b], "--prop", pid, "--harness", name, "--replay", sys.argv[3]], env=env).returncode
        print("no harness for this replay file")
        return 2
    try:
        bins = build(sorted({b for b, _, _ in runs if not callable(b)}))
    except BuildError as e:
        print(e)
        print("ERROR: the harness of %s does not build" % pid)
        return 2
    print("built in %.1fs" % (time.time() - t0), flush=True)
    frags, bad, err = [], [], None
    for b, name, opts in runs:
        if tier not in opts.get("tiers", (tier,)):
            continue
        if callable(b):
            f = b(pid, name, opts, tier, seed, deadline)
        else:
            f = run_harness(pid, bins[b], name, opts, tier, seed, deadline)
        frags.append(f)
        sys.stdout.write(f["out"])
        sys.stdout.flush()
        if f["rc"] == 1:
            bad.append(f)
            break
        if f["rc"] != 0:
            err = f
            break
    viol = 0
    for f in bad:
        for kp, key, text in known_findings():
            if kp == pid and key == f.get("key"):
                print("KNOWN-FINDING: property=%s %s" % (pid, text))
                break
        else:
            viol += 1
            print("VIOLATION property=%s replay=%s" % (pid, f.get("replay", "none")))
    write_evidence(pid, tier, seed, frags, time.time() - t0, viol, ASSUMPTIONS.get(pid, []))
    if viol:
        return 1
    if err:
        print("ERROR: harness %s ended with status %s" % (err.get("harness"), err["rc"]))
        return 2
    print("%s: held on everything explored (%.1fs)" % (pid, time.time() - t0))
    return 0


SCHED_ASSUMES = ["one thread runs at a time under the harness's scheduler; atomics follow the C++11 model without load buffering",
                 "clang 18's instrumentation reports every memory access of the headers"]
ASSUMPTIONS = {p: SCHED_ASSUMES for p in ("C10", "C11", "C12", "C13", "C14", "C21")}
ASSUMPTIONS["C09"] = SCHED_ASSUMES[:1] + ["the sequential histories run on one thread"]
ASSUMPTIONS["C02"] = ["handle generations do not wrap around"]
ASSUMPTIONS["C19"] = ["one compiler builds the whole program; modules stay loaded while a registry uses their metadata"]
ASSUMPTIONS["C20"] = ["clang++ 18 and g++ 13 judge the programs"]
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C15", "C16", "C17", "C18"):
    ASSUMPTIONS.setdefault(_p, []).append("single-threaded use; bounds of the generators as in DESIGN.md")

if __name__ == "__main__":
    sys.exit(main())
