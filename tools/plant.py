"""Development tool: turn the bug definitions in tools/bugs_*.py into /verif/seeded/<id>/ after confirming each one in a scratch copy.
plant.py [--check] [ID...]     (no check of the manifest uses this)"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
SH = '''#!/bin/bash
# run with cwd = the repository
D="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)"; trap 'rm -rf "$S"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/Python/research:$PWD/Python/research/scripts/demo" BROWSER=true PYTHONHASHSEED=0
cd "$S" && /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))


def tests(copy):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", BROWSER="true", PIP_NO_INDEX="1")
    x = copy + "/../" + os.path.basename(copy) + ".xml"
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + x, "scripts/test"], cwd=copy + "/Python/research", env=e)
    import xml.etree.ElementTree as T
    good = {c.get("classname") + "::" + c.get("name") for c in T.parse(x).iter("testcase") if not list(c)}
    os.remove(x)
    miss = sorted(BASE - good)
    return not miss, " ".join(miss)[:400]


def original_lines(copy, files):
    """every line of the files taken away is one of the original repository"""
    import difflib
    bad, gone = [], 0
    for f in set(files):
        p = "Python/research/scripts/" + f
        blame = sh(["git", "blame", "-s", "-l", "HEAD", "--", p], cwd=copy).stdout.splitlines()
        mine = set(sh("git log --format=%H 000ecf5..HEAD", cwd=copy).stdout.split())
        old = sh(["git", "show", "HEAD:" + p], cwd=copy).stdout.splitlines()
        new = open(copy + "/" + p).read().splitlines()
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
            if tag in ("replace", "delete"):
                for i in range(i1, i2):
                    gone += 1
                    if blame[i].split()[0].lstrip("^") in mine:
                        bad.append(old[i].strip())
    return bad, gone


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    bugs = []
    for f in sorted(glob.glob(V + "/tools/bugs_*.py")):
        s = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        bugs += m.BUGS
    ids = [b["id"] for b in bugs]
    assert len(set(ids)) == len(ids)
    for b in bugs:
        if args and b["id"] not in args and b["property"] not in args:
            continue
        copy = tempfile.mkdtemp(prefix="plant-")
        try:
            sh(["git", "clone", "-q", "/repo", copy])
            bad = None
            for f, old, new in b["edits"]:
                p = copy + "/Python/research/scripts/" + f
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"{s.count(old)} matches of {old!r}"
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(b["id"], "BAD EDIT", bad)
                continue
            diff = sh(["git", "diff"], cwd=copy).stdout
            # touched lines must be lines of the original repository
            bad, gone = original_lines(copy, [e[0] for e in b["edits"]])
            if bad or not gone:
                print(b["id"], "NOT ORIGINAL", bad, gone)
            ok, out = tests(copy)
            d = tempfile.mkdtemp(prefix="demo-")
            open(d + "/demo.sh", "w").write(SH)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write(b["demo"])
            with_bug = sh(["bash", d + "/demo.sh"], cwd=copy, timeout=300)
            without = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
            good = ok and with_bug.returncode != 0 and without.returncode == 0
            msg = f"tests={'pass' if ok else 'FAIL'} demo bug={with_bug.returncode} clean={without.returncode}"
            if good:
                dst = f"{V}/seeded/{b['id']}"
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(d, dst)
                open(dst + "/patch.diff", "w").write(diff)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            shutil.rmtree(d)
            if check and good:
                r = sh([PY, V + "/checks/run.py", b["property"], "--tier", "quick"], cwd=V, env=dict(os.environ, PRN_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"))
                hit = r.returncode == 1 and f"VIOLATION property={b['property']} " in r.stdout
                msg += " CAUGHT" if hit else f" MISSED rc={r.returncode}"
                if not hit:
                    msg += "\n" + r.stdout[-800:]
            print(b["id"], b["property"], msg, flush=True)
            if not good:
                print(out if not ok else with_bug.stdout[-800:] + "--\n" + without.stdout[-800:])
        finally:
            shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    main()
