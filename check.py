#!/usr/bin/python3
"""Run one property's check:  check.py C07 [--tier quick|thorough] [--seed N]
                              check.py --replay FILE
                              check.py --selftest

Starts workers (PyPy, the interpreter the repository is installed in), each with
a private kernel cache, gives each a share of the property's case groups, merges
what their monitors observed, writes evidence/<id>.json and prints the verdict.
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}

sys.path.insert(0, HARNESS)
from table import TABLE  # noqa: E402


def known_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def gcc_lib(name):
    return subprocess.run(["gcc", f"-print-file-name={name}"], capture_output=True,
                          text=True).stdout.strip()


def worker_env(work, mode):
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "LANG", "TMPDIR", "USER")}
    cache, cfg = os.path.join(work, "cache"), os.path.join(work, "cfg")
    os.makedirs(cache, exist_ok=True)
    os.makedirs(cfg, exist_ok=True)
    env.update(
        PYTHONPATH=f"{REPO}:{os.path.join(VERIF, 'stubs')}", PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0", XDG_CACHE_HOME=cache, XDG_CONFIG_HOME=cfg, TMPDIR=work,
        OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false", OPENBLAS_NUM_THREADS="1",
        HDF5_USE_FILE_LOCKING="FALSE", SYMPY_CACHE_SIZE="None",
    )
    if mode == "asan":
        conf = {
            "compiler": {
                "os": "linux", "command": "g++",
                "flags": "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
                         "-fno-sanitize=alignment "
                         "-fsanitize-recover=address,undefined -DNDEBUG -fPIC -fopenmp "
                         "-std=c++11",
                "restrict_qualifier": "__restrict__"},
            "cache": {"object_cache": os.path.join(cache, "obj"),
                      "clear_cache_on_start": False,
                      "shared_library": os.path.join(cache, "cc.so")}}
        path = os.path.join(work, "pystencils.json")
        json.dump(conf, open(path, "w"))
        env["PYSTENCILS_CONFIG"] = path
        env["LD_PRELOAD"] = gcc_lib("libasan.so") + ":" + gcc_lib("libubsan.so")
        env["ASAN_OPTIONS"] = (
            "detect_leaks=0:halt_on_error=0:handle_segv=0:handle_abort=0:redzone=128:malloc_context_size=1:"
            "quarantine_size_mb=64:allocator_may_return_null=1:"
            f"log_path={os.path.join(work, 'asan')}")
        env["UBSAN_OPTIONS"] = f"print_stacktrace=1:log_path={os.path.join(work, 'asan')}"
    return env


SHORT = "worker time budget exhausted"


class Worker:
    def __init__(self, spec, prop, tier, seed, root, index, count, only=None, tag=""):
        self.work = os.path.join(root, f"w{index}{tag}")
        os.makedirs(self.work)
        self.only = only
        self.cfg = {
            "property": prop, "module": spec["module"], "tier": tier, "seed": seed,
            "known_keys": [k for k, _ in known_findings(prop)], "repo": REPO,
            "index": index, "count": count, "only": only, "work": self.work,
            "progress": os.path.join(self.work, "progress"),
            "out": os.path.join(self.work, "out.json"),
            "failfast": os.environ.get("VERIF_FAILFAST") and os.path.join(root, "stop"),
            "budget": spec.get("budget", {}).get(tier, 560 if tier == "quick" else 780),
        }
        path = os.path.join(self.work, "cfg.json")
        json.dump(self.cfg, open(path, "w"))
        self.log = open(os.path.join(self.work, "log"), "w+")
        self.proc = subprocess.Popen(
            [PY, os.path.join(HARNESS, "worker.py"), path],
            env=worker_env(self.work, spec.get("mode")), cwd=self.work, stdout=self.log,
            stderr=subprocess.STDOUT, start_new_session=True)

    def finish(self, deadline):
        try:
            self.proc.wait(max(1, deadline - time.time()))
            self.timed_out = False
        except subprocess.TimeoutExpired:
            self.timed_out = True
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.result = None
        if os.path.exists(self.cfg["out"]):
            self.result = json.load(open(self.cfg["out"]))
        self.started = []
        self.ended = []
        self.finished = False
        if os.path.exists(self.cfg["progress"]):
            for line in open(self.cfg["progress"]):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "start" in d:
                    self.started.append(d["start"])
                elif "end" in d:
                    self.ended.append(d["end"])
                elif "finished" in d:
                    self.finished = True
        self.log.flush()
        self.log.seek(0)
        self.text = self.log.read()[-3000:]
        self.log.close()

    def died_in(self):
        open_ = [g for g in self.started if g not in self.ended]
        return open_[-1] if open_ else None


def run_property(prop, tier, seed, only=None, quiet=False):
    spec = TABLE[prop]
    t0 = time.time()
    root = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    inconclusive, violations, results = [], [], []
    total = None
    try:
        n = 1 if only else min(8, spec.get("workers", 8))
        deadline = t0 + (700 if tier == "quick" else 860)
        ws = [Worker(spec, prop, tier, seed, root, i, n, only) for i in range(n)]
        queue = list(ws)
        retried = {}
        while queue:
            w = queue.pop(0)
            w.finish(deadline)
            if w.result:
                results.append(w.result)
                total = w.result.get("total_groups", total)
            if w.finished:
                continue
            rc = w.proc.returncode
            g = w.died_in()
            crash = rc is not None and rc < 0 and signal.Signals(-rc) in FATAL
            if w.timed_out or not crash or g is None:
                inconclusive.append({
                    "reason": "worker timed out" if w.timed_out else
                    f"worker ended early (rc={rc})", "group": g, "log": w.text[-1500:]})
                continue
            name = signal.Signals(-rc).name
            if retried.get(g):
                violations.append({"group": {"name": g}, "kind": "crash",
                                   "detail": {"signal": name, "log": w.text[-1500:]}})
                rest = None
            else:
                retried[g] = True
                queue.append(Worker(spec, prop, tier, seed, root, w.cfg["index"], n,
                                    [g], tag=f"r{len(retried)}"))
            if not w.only or len(w.only) > 1:
                done = set(w.ended) | {g}
                mine = [x for x in (w.result or {}).get("mine", []) if x not in done]
                if not w.result:
                    mine = None
                if mine:
                    queue.append(Worker(spec, prop, tier, seed, root, w.cfg["index"], n,
                                        mine, tag=f"c{len(retried)}"))
    finally:
        shutil.rmtree(root, ignore_errors=True)

    counters, kinds, distinct, samples, ratio, known, done, times = {}, {}, set(), [], {}, {}, [], {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["kinds"].items():
            kinds.setdefault(k, set()).update(v)
        distinct.update(r["distinct"])
        samples += r["samples"][:1]
        for k, v in r["ratio"].items():
            ratio[k] = max(v, ratio.get(k, 0))
        known.update(r["known"])
        violations += r["violations"]
        inconclusive += r["inconclusive"]
        done += r["done"]
        times.update(r["times"])
    if not violations:
        if total is None:
            inconclusive.append({"reason": "no worker reported"})
        elif not only and len(set(done)) < total:
            short = [x for x in inconclusive if x["reason"] == SHORT]
            if short and 2 * len(set(done)) >= total:
                # a slow machine: fewer groups explored, which the evidence states
                inconclusive = [x for x in inconclusive if x["reason"] != SHORT]
                if not inconclusive:
                    print(f"NOTE property={prop} time budget used up: "
                          f"{len(set(done))} of {total} groups explored")
            else:
                inconclusive.append({"reason": f"{len(set(done))} of {total} groups completed"})
        for name, least in spec["reach"].items():
            if not only and counters.get(name, 0) < least:
                inconclusive.append({"reason": f"monitor not reached: {name}="
                                               f"{counters.get(name, 0)} < {least}"})
    wall = time.time() - t0

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": counters.pop("evaluations", 0),
            "distinct_nontrivial": len(distinct),
            "rule": spec["rule"],
            "samples": samples[:6] or ["none"],
            "observed": {k: counters[k] for k in sorted(counters)},
            "distinct_seen": {k: len(v) for k, v in sorted(kinds.items())},
            "seen": {k: sorted(v)[:60] for k, v in sorted(kinds.items())
                     if len(v) <= 60},
            "largest_error_in_tolerance_units": {k: round(v, 4) for k, v in sorted(ratio.items())},
            "groups_completed": len(set(done)), "groups_total": total,
            "slowest_groups_s": dict(sorted(times.items(), key=lambda kv: -kv[1])[:8]),
            "known_findings_observed": sorted(known),
            "inconclusive": inconclusive[:10],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    if not only:
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, f".{prop}.{os.getpid()}.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, f"{prop}.json"))

    for key, what in known_findings(prop):
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {what}")
    if violations:
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(d, f"{prop}-{tier}-{seed}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, **v}, f, indent=1,
                          default=str)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['kind']} in group {v['group'].get('name')}: "
                  f"{json.dumps(v['detail'], default=str)[:700]}")
        return 1
    if inconclusive:
        for x in inconclusive[:6]:
            print(f"INCONCLUSIVE property={prop} {json.dumps(x, default=str)[:3000]}")
        return 2
    if not quiet:
        c = evidence["coverage"]
        print(f"HELD property={prop} tier={tier} seed={seed}: {c['evaluations']} cases, "
              f"{c['distinct_nontrivial']} distinct non-trivial, groups {c['groups_completed']}, "
              f"{wall:.1f}s")
    return 0


def selftest():
    """What setup needs: interpreter, compiler, sanitizer runtimes, importable repo."""
    ok = True
    for t in ([PY, "-c", "import numpy, pystencils, h5py, scipy, pyfftw"], ["g++", "--version"]):
        r = subprocess.run(t, capture_output=True, text=True)
        if r.returncode:
            ok = False
            print("setup:", t, r.stderr[-500:])
    for lib in ("libasan.so", "libubsan.so", "libtsan.so"):
        if not os.path.isabs(gcc_lib(lib)):
            ok = False
            print("setup: missing", lib)
    print("setup", "ok" if ok else "failed")
    return 0 if ok else 1


def main():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    a = sys.argv[1:]
    if "--selftest" in a:
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    if "--replay" in a:
        d = json.load(open(a[a.index("--replay") + 1]))
        return run_property(d["property"], d["tier"], d["seed"], [d["group"]["name"]])
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    return run_property(a[0], tier, seed, only)


sys.exit(main())
