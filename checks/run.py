#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

exit 0: property held on everything observed; 1: VIOLATION line printed; 2: no verdict (monitors saw too little).
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("PRN_REPO", "/repo")


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3].strip()
    return out


def child_env(scratch, hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), BROWSER="true", PRN_REPO=REPO,
               PRN_SCRATCH=scratch, PYTHONUTF8="1", LC_ALL="C.UTF-8")
    env.pop("PYTHONOPTIMIZE", None)
    return env


def spawn(prop, tier, seed, scratch, tag, hashseed, extra, known):
    wd = os.path.join(scratch, f"wd{tag}")
    os.makedirs(wd, exist_ok=True)
    out = os.path.join(scratch, f"out{tag}.json")
    beat = os.path.join(scratch, f"beat{tag}")
    err = open(os.path.join(scratch, f"err{tag}"), "w")
    cmd = [PY, "-m", "prn.worker", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--beat", beat,
           "--known", ",".join(known)] + extra
    p = subprocess.Popen(cmd, cwd=wd, env=child_env(scratch, hashseed), stdout=err, stderr=err,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    return {"p": p, "out": out, "beat": beat, "hashseed": hashseed, "tag": tag, "err": err.name}


def kill(s):
    try:
        os.killpg(s["p"].pid, 9)
    except (ProcessLookupError, PermissionError):
        pass
    s["p"].wait()


def read_beat(s):
    try:
        i, t = open(s["beat"]).read().split()[:2]
        return int(i), float(t)
    except Exception:
        return None, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=8)
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier
    known = known_findings(prop)
    scratch = tempfile.mkdtemp(prefix=f"prn-{prop}-")
    t0 = time.time()
    try:
        # meta data of the property, read in a child so that the parent never imports the code under test
        meta = json.loads(subprocess.run(
            [PY, "-c", "import importlib,json,sys\nP=importlib.import_module('prn.props.'+sys.argv[1].lower()).PROP\n"
             "print(json.dumps(dict(rule=P.rule,need=P.need,cases=P.cases,fixed=len(P.fixed()),assumptions=P.assumptions,"
             "case_limit=P.case_limit,deadline=P.deadline)))", prop],
            env=child_env(scratch, 0), cwd=scratch, stdout=subprocess.PIPE, text=True, check=True).stdout.strip().splitlines()[-1])
        if a.replay:
            r = json.load(open(a.replay))
            s = spawn(prop, r["tier"], r["seed"], scratch, "R", r["hashseed"], ["--case", str(r["case"])], known)
            try:
                s["p"].wait(timeout=meta["case_limit"])
            except subprocess.TimeoutExpired:
                kill(s)
                print(f"VIOLATION property={prop} replay={a.replay}")
                print("replay: case did not terminate")
                return 1
            res = json.load(open(s["out"]))
            if res["violation"]:
                print(f"VIOLATION property={prop} replay={a.replay}")
                print(json.dumps(res["violation"], indent=1))
                return 1
            print("replay: no violation")
            return 0

        shards = [spawn(prop, tier, seed, scratch, k, (seed * 97 + k * 1009 + 1) % 4294967295,
                        ["--shard", str(k), "--nshards", str(a.shards), "--deadline", str(meta["deadline"][tier])], known)
                  for k in range(a.shards)]
        live = list(shards)
        bad = None
        broken = []
        while live and bad is None:
            time.sleep(0.05)
            for s in list(live):
                if s["p"].poll() is not None:
                    live.remove(s)
                    if not os.path.exists(s["out"]):
                        i, _ = read_beat(s)
                        broken.append((s, i))
                        continue
                    s["res"] = json.load(open(s["out"]))
                    if s["res"]["violation"]:
                        bad = (s, s["res"]["violation"])
                        break
                else:
                    i, t = read_beat(s)
                    if t and time.time() - t > meta["case_limit"]:
                        kill(s)
                        live.remove(s)
                        broken.append((s, i))
        for s in live:
            kill(s)
        if bad is None:
            # a worker died or hung: run that single case alone to tell a property violation from an accident
            for s, i in broken:
                if i is None:
                    continue
                s2 = spawn(prop, tier, seed, scratch, f"X{s['tag']}", s["hashseed"], ["--case", str(i)], known)
                try:
                    rc = s2["p"].wait(timeout=meta["case_limit"])
                    if not os.path.exists(s2["out"]):
                        bad = (s, {"case": i, "kind": "crash", "message": f"interpreter died, status {rc}",
                                   "history": [], "traceback": open(s2["err"]).read()[-4000:]})
                    else:
                        r2 = json.load(open(s2["out"]))
                        if r2["violation"]:
                            bad = (s, r2["violation"])
                except subprocess.TimeoutExpired:
                    kill(s2)
                    bad = (s, {"case": i, "kind": "hang", "message": f"case did not terminate in {meta['case_limit']} s",
                               "history": [], "traceback": ""})
                if bad:
                    break
        done = [s["res"] for s in shards if "res" in s]
        events, sigs, lines, kn = {}, set(), {}, {}
        for r in done:
            for k, v in r["events"].items():
                events[k] = events.get(k, 0) + v
            sigs.update(r["sigs"])
            kn.update(r["known"])
            for f, ls in r["lines"].items():
                lines.setdefault(f, set()).update(ls)
        evaluations = sum(r["evaluations"] for r in done)
        checks = sum(r["checks"] for r in done)
        samples = [x for r in done for x in r["samples"]][:6]
        truncated = any(r["truncated"] for r in done)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": meta["rule"],
                "samples": samples, "oracle_checks": checks, "events": dict(sorted(events.items())),
                "planned_cases": meta["cases"][tier] + meta["fixed"], "truncated_by_deadline": truncated,
                "hash_seeds": [s["hashseed"] for s in shards],
                "repo_lines_executed": {f: len(ls) for f, ls in sorted(lines.items())},
                "known_findings_observed": kn},
            "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 3),
            "violations": 0 if bad is None else 1}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{prop} tier={tier} seed={seed}: {evaluations} cases, {len(sigs)} distinct non-trivial, {checks} oracle checks, "
              f"{sum(len(l) for l in lines.values())} repo lines executed, {ev['wall_s']} s")
        print("observed: " + ", ".join(f"{k}={v}" for k, v in sorted(events.items())))
        for k in sorted(kn):
            print(f"KNOWN-FINDING: property={prop} {known[k]}")
        if bad:
            s, v = bad
            rp = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, f"{prop}-{tier}-{seed}-{v['case']}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "case": v["case"], "hashseed": s["hashseed"],
                           "violation": v}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"{v['kind']}: {v['message'][:1500]}")
            for h in v["history"][-12:]:
                print("   ", h[:300])
            if v["kind"] != "violation":
                print(v["traceback"][-1500:])
            return 1
        if broken:
            print(f"INCONCLUSIVE: {len(broken)} worker(s) ended abnormally")
            for s, i in broken:
                print(open(s["err"]).read()[-1500:])
            return 2
        missing = {k: (events.get(k, 0), n) for k, n in meta["need"].items() if events.get(k, 0) < n}
        if missing or evaluations == 0 or checks == 0 or not sigs:
            print(f"INCONCLUSIVE: monitors observed too little: {missing}")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE: the check itself failed")
        rc = 2
    sys.exit(rc)
