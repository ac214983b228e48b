"""Runs this worker's share of one property's groups inside /opt/venv (PyPy)."""
import gc
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")
os.environ.pop("LD_PRELOAD", None)      # for us only, not for the compilers we start


def share(groups, index, count):
    """Longest-first assignment of groups to `count` workers; the share of `index`."""
    load = [0.0] * count
    mine = []
    for g in sorted(groups, key=lambda g: (-g.get("cost", 1.0), g["name"])):
        k = load.index(min(load))
        load[k] += g.get("cost", 1.0)
        if k == index:
            mine.append(g)
    return mine


def resident():
    """This process's memory in MB."""
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGESIZE") >> 20


def main():
    cfg = json.load(open(sys.argv[1]))
    import numpy as np

    np.seterr(all="ignore")
    import sopht

    src = os.path.realpath(sopht.__file__)
    assert src.startswith(os.path.realpath(cfg["repo"]) + os.sep), src
    from core import Inconclusive, Mon, Violation

    mod = importlib.import_module("props." + cfg["module"])
    groups = mod.groups(cfg["property"], cfg["tier"])
    names = [g["name"] for g in groups]
    assert len(set(names)) == len(names), "duplicate group names"
    if cfg["only"]:
        mine = [g for g in groups if g["name"] in cfg["only"]]
    else:
        mine = share(groups, cfg["index"], cfg["count"])
    mon = Mon(cfg["property"], cfg["tier"], cfg["seed"], cfg["known_keys"])
    mon.work = cfg["work"]
    out = {"inconclusive": [], "done": [], "times": {}, "total_groups": len(groups),
           "mine": [g["name"] for g in mine]}
    prog = open(cfg["progress"], "a", buffering=1)

    def flush():
        out.update(mon.result())
        tmp = cfg["out"] + ".tmp"
        with open(tmp, "w") as f:
            json.dump(out, f, default=str)
        os.replace(tmp, cfg["out"])

    flush()
    deadline = time.time() + cfg["budget"]
    failfast = cfg["failfast"]           # stop everywhere at the first violation
    repo = os.path.realpath(cfg["repo"]) + os.sep
    for g in mine:
        if failfast and os.path.exists(failfast):
            break
        if time.time() > deadline:
            out["inconclusive"].append({"group": g, "reason": "worker time budget exhausted"})
            break
        prog.write(json.dumps({"start": g["name"]}) + "\n")
        t = time.time()
        rng = np.random.default_rng([cfg["seed"], zlib.crc32(g["name"].encode()), 20240229])
        mon.group = g
        try:
            mod.run(mon, rng, g, cfg["tier"])
            mon.count("groups_completed")
            out["done"].append(g["name"])
        except Violation as v:
            if len(mon.violations) < 20:
                mon.violations.append({"group": g, "kind": v.kind, "detail": v.detail})
        except Inconclusive as e:
            out["inconclusive"].append({"group": g, "reason": str(e)})
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            text = traceback.format_exc()[-2500:]
            if tb and os.path.realpath(tb[-1].filename).startswith(repo):
                # raised by the code under test itself
                mon.violations.append({"group": g, "kind": "exception",
                                       "detail": {"error": repr(e), "trace": text}})
            else:
                out["inconclusive"].append({"group": g, "reason": "harness error: " + text})
        if mon.violations and failfast:
            open(failfast, "w").close()
        out["times"][g["name"]] = round(time.time() - t, 2)
        if resident() > 450:             # files and arrays nobody refers to any more
            gc.collect()
        prog.write(json.dumps({"end": g["name"]}) + "\n")
        flush()
    flush()
    prog.write(json.dumps({"finished": True}) + "\n")
    prog.close()
    os._exit(0)


main()
