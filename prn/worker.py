"""Runs one shard of one property's cases; writes a JSON result."""
import argparse
import gc
import importlib
import json
import os
import random
import sys
import time
import traceback

from .monitor import Monitor, Violation


def coverage_on(repo):
    """line coverage of the repository through sys.monitoring (each line reported once: negligible cost)"""
    mon = sys.monitoring
    seen = {}
    root = os.path.join(repo, "Python", "research", "scripts") + os.sep
    try:
        mon.use_tool_id(mon.COVERAGE_ID, "prn")
    except ValueError:
        return None

    def line(code, ln):
        f = code.co_filename
        if f.startswith(root):
            seen.setdefault(f[len(root):], set()).add(ln)
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return seen


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("--out", required=True)
    ap.add_argument("--beat", default=None)
    ap.add_argument("--deadline", type=float, default=600)
    ap.add_argument("--known", default="")
    a = ap.parse_args()
    repo = os.environ.get("PRN_REPO", "/repo")
    seen = coverage_on(repo)
    prop = importlib.import_module(f"prn.props.{a.prop.lower()}").PROP
    mon = Monitor(k for k in a.known.split(",") if k)
    fixed = prop.fixed()
    total = len(fixed) + prop.cases[a.tier]
    t0 = time.time()
    res = {"violation": None, "evaluations": 0, "truncated": False}
    indices = [a.case] if a.case is not None else range(a.shard, total, a.nshards)
    beat = open(a.beat, "w") if a.beat else None
    gc.disable()
    for n, i in enumerate(indices):
        if time.time() - t0 > a.deadline:
            res["truncated"] = True
            break
        if beat:
            beat.seek(0)
            beat.write(f"{i} {time.time()}\n")
            beat.flush()
        rng = random.Random(f"{a.prop}:{a.seed}:{i}")
        mon.trail = []
        try:
            if i < len(fixed):
                fixed[i](mon, rng)
            else:
                prop.case(mon, rng, i - len(fixed), a.tier)
            res["evaluations"] += 1
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            kind = "violation" if isinstance(e, Violation) else f"unexpected {type(e).__name__}"
            res["violation"] = {
                "case": i, "kind": kind, "message": str(e)[:4000],
                "history": mon.trail[-60:],
                "traceback": traceback.format_exc()[-6000:]}
            break
        if n % 20 == 0:
            gc.collect()
    res.update(events=mon.events, checks=mon.checks, sigs=sorted(mon.sigs), samples=mon.samples,
               known=mon.known_hits, wall=time.time() - t0,
               lines={f: sorted(s) for f, s in (seen or {}).items()})
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(a.out + ".tmp", a.out)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
