#!/usr/bin/python3
"""Plant a bug from a spec and confirm it in a scratch copy.

  plant.py make SPEC.py ID      write seeded/<id>/ from the spec, confirm, run its check
  plant.py confirm ID           re-confirm an existing seeded bug (patch, build, tests, demo)
  plant.py check ID [PROP...]   run checks (default: the bug's property) against the bug

SPEC.py defines BUGS={ID: {...}} with PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text),
and optionally NUMBA=True (the demo ships a numba stand-in).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO_SH = """#!/bin/bash
# cwd: the repository.  Scratch files stay in a temporary directory.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD:$here/stubs" PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
export XDG_CACHE_HOME="$work/cache" XDG_CONFIG_HOME="$work/config" TMPDIR="$work"
/opt/venv/bin/python "$here/demo.py" "$work"
"""


def sh(cmd, cwd=None, timeout=1500, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True,
                       timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr


def copy_repo():
    d = tempfile.mkdtemp(prefix="bug-")
    dst = os.path.join(d, "repo")
    sh(["cp", "-a", "/repo", dst])
    return d, dst


def script(name, repo):
    text = open(f"/opt/vp/{name}").read().replace("/repo", repo)
    f = os.path.join(os.path.dirname(repo), name)
    open(f, "w").write(text)
    return f


def demo(bug, repo):
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        dst = os.path.join(d, "x")
        shutil.copytree(os.path.join(SEEDED, bug), dst,
                        ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        t = time.time()
        rc, out = sh(["bash", os.path.join(dst, "demo.sh")], cwd=repo, timeout=300)
        return rc, out, time.time() - t
    finally:
        shutil.rmtree(d)


def confirm(bug, repo):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    rc, out, s = demo(bug, "/repo")
    print(f"{bug}: demo on unchanged tree rc={rc} ({s:.0f}s)", "" if rc == 0 else out[-1500:], flush=True)
    ok = rc == 0
    rc, out, s = demo(bug, repo)
    print(f"{bug}: demo on patched tree rc={rc} ({s:.0f}s): {out.strip().splitlines()[-1:]}", flush=True)
    ok &= rc != 0
    if rc and "Assertion" not in out:
        print(out[-1500:])
    rc, out = sh(["bash", script("build.sh", repo)])
    print(f"{bug}: build rc={rc}", "" if rc == 0 else out[-800:], flush=True)
    ok &= rc == 0
    res = os.path.join(os.path.dirname(repo), "o.json")
    rc, out = sh(["bash", script("test.sh", repo), res])
    r = json.load(open(res))
    passed = set(r.get("passed", [])) if isinstance(r, dict) else set()
    bad = [t for t in base if t not in passed]
    print(f"{bug}: tests: {len(passed)} passed, {len(bad)} stable failing {bad[:4]}", flush=True)
    ok &= not bad
    print(f"{bug}: {'CONFIRMED' if ok else 'REJECTED'}", flush=True)
    return ok


def check(bug, repo, props=(), tier="quick", seed="1"):
    meta = json.load(open(os.path.join(SEEDED, bug, "meta.json")))
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=seed, VERIF_TIER=tier)
    env["VERIF_EVID"] = os.path.dirname(repo)
    for p in props or [meta["property"]]:
        t = time.time()
        rc, out = sh(["/usr/bin/python3", os.path.join(VERIF, "check.py"), p, "--tier", tier,
                      "--seed", seed], env=env)
        line = next((l for l in out.splitlines() if l.startswith("VIOLATION")), "")
        print(f"{bug}: check {p} rc={rc} ({time.time()-t:.0f}s) {'CAUGHT' if rc == 1 and line else 'MISSED'}", flush=True)
        print("    " + "\n    ".join(out.strip().splitlines()[-6:])[:900], flush=True)


def main():
    cmd, arg, rest = sys.argv[1], sys.argv[2], sys.argv[3:]
    d, repo = copy_repo()
    try:
        if cmd == "make":
            ns = {}
            exec(open(arg).read(), ns)
            ns.update(ns["BUGS"][rest[0]])
            bug = ns["ID"] = rest[0]
            for f, old, new in ns["EDITS"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                assert s.count(old) == 1, (f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            out = os.path.join(SEEDED, bug)
            os.makedirs(out, exist_ok=True)
            rc, diff = sh(["git", "diff"], cwd=repo)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
            open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"].lstrip())
            if ns.get("NUMBA"):
                shutil.copytree(os.path.join(VERIF, "stubs"), os.path.join(out, "stubs"),
                                dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
            json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"],
                       "what_it_breaks": ns["BREAKS"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            confirm(bug, repo)
            check(bug, repo)
        else:
            bug = arg
            rc, out = sh(["git", "apply", os.path.join(SEEDED, bug, "patch.diff")], cwd=repo)
            assert rc == 0, out
            if cmd == "confirm":
                confirm(bug, repo)
            else:
                check(bug, repo, rest, seed=os.environ.get("SEED", "1"), tier=os.environ.get("TIER", "quick"))
    finally:
        shutil.rmtree(d)


main()
