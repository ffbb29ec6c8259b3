#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]   decide one property for /repo's current tree
python3 check.py setup                         build the MIR driver and the library"""

import ctypes
import importlib
import json
import os
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from analyzer import build, spec  # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.txt")

TRUSTED = [
    "rustc nightly: type checking, trait selection and MIR construction of /repo and of the harness (driver/main.rs exports them as JSON)",
    "analyzer/: transfer functions for MIR, models of the library functions listed in analyzer/models.py, integer/linear reasoning in analyzer/expr.py and analyzer/facts.py",
    "the specification written in analyzer/props/",
    "64-bit target (usize is 64 bits)",
]


def known(pid):
    """Known findings of the property: {key: text}"""
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                r[key.strip()] = text.strip()
    return r


def decide(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    m = importlib.import_module("analyzer.props." + pid.lower())
    c = spec.Check(pid, tier)

    limit = 780 if tier == "thorough" else 660
    me = threading.get_ident()
    clock = threading.Timer(limit, lambda: ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(spec.Enough)))
    clock.daemon = True
    clock.start()
    try:
        m.check(c)
    except spec.Enough as e:
        c.add("end", "open", "not explored further after " + (str(e) or "%d s" % limit))
    except build.CompileError as e:
        c.violation("compile", "the library, or a client written against its documented API, no longer compiles:\n" + e.text[:4000])
    except (build.BuildError, OSError, MemoryError, subprocess.SubprocessError):
        raise
    except Exception as e:
        # code of a shape the analysis is not prepared for: no verdict about the rest of it
        if os.environ.get("SQV_DEBUG"):
            raise
        traceback.print_exc()
        c.add("end", "open", "the analysis ended early: %s %s" % (type(e).__name__, str(e)[:300]))
    clock.cancel()
    kn = known(pid)
    seen, fresh = set(), []
    for key, text in c.viol:
        if key in kn:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, key, kn[key]))
            seen.add(key)
        else:
            fresh.append((key, text))
    nk = sum(1 for n, v, d in c.obs if v == "violated")
    n = {v: sum(1 for o in c.obs if o[1] == v) for v in ("proved", "violated", "open")}
    opens = ["%s: %s" % (a, d[:400]) for a, v, d in c.obs if v == "open"]
    level = getattr(m, "LEVEL", "proof")
    cov = {
        "obligations": len(c.obs), "discharged": n["proved"], "open": n["open"], "violated": n["violated"],
        "known_findings": len(seen),
        "open_obligations": opens[:60],
        "functions_analysed": len(c.functions),
        "functions_of_repo": sorted(f for f in c.functions if "sqrid" in f)[:400],
        "entry_points": len(c.roots), "paths": c.npaths,
        "unmodelled_calls": sorted(c.unmodelled)[:40],
        "sites": c.sites,
        "samples": c.samples,
        "checker_cmd": "python3 check.py %s %s" % (pid, tier),
        "trusted_base": TRUSTED + getattr(m, "TRUSTED", []),
        "rule": (m.__doc__ or "").strip(),
        "explanation": "static analysis of the MIR of /repo's current tree: " + (m.__doc__ or "").strip(),
        "notes": c.notes,
        "source_digest": build.source_digest(),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(m, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 3), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d proved, %d open, %d violated (%d known), %d functions, %d paths, %.1f s" % (
        pid, len(c.obs), n["proved"], n["open"], n["violated"], nk - len(fresh), len(c.functions), c.npaths, time.time() - t0))
    for o in opens[:10]:
        print("open: " + o)
    if fresh:
        rp = os.path.join(HERE, "evidence", "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("python3 check.py %s %s\n\n" % (pid, tier))
            for key, text in fresh:
                f.write("[%s]\n%s\n\n" % (key, text))
        done = set()
        for key, text in fresh:
            if key in done:
                continue
            done.add(key)
            if len(done) <= 12:
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  [%s] %s" % (key, text[:1500]))
        return 1
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        build.driver()
        try:
            build.workdir()
            build.dump_crate()
        except build.CompileError as e:
            print(e.text)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return decide(sys.argv[1], tier)


RC = [2]


def guarded():
    try:
        RC[0] = main()
    except SystemExit as e:
        RC[0] = e.code or 0
    except BaseException:
        traceback.print_exc()
        RC[0] = 2


if __name__ == "__main__":
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=guarded)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(RC[0])
