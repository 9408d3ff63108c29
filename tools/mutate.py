"""Development tool (no check uses it): AST mutants of the repository, filtered by its stable tests, judged by the checks that execute the mutated line.
mutate.py OUT.jsonl FILE... [--jobs N] [--full] [--limit M] [--seed S] [--skip N]"""
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plant
PY = "/opt/venv/bin/python"
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Add,
       ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
WRAP = {"list", "dict", "set", "frozenset", "tuple", "sorted", "deepcopy", "copy", "int", "float", "abs", "str", "repr", "reversed"}
SWAP = {"all": "any", "any": "all", "min": "max", "max": "min"}
METH = {"copy", "deepCopy", "strip", "items"}


def variants(n):
    """mutated replacements of node n (new nodes), with a label"""
    if isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            m = copy.deepcopy(n); m.ops[i] = CMP[type(o)](); yield m, "cmp"
        if len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
            m = copy.deepcopy(n); m.ops[0] = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}[type(n.ops[0])](); yield m, "cmpneg"
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq):
            f = lambda x: ast.Call(ast.Name("str", ast.Load()), [copy.deepcopy(x)], [])
            yield ast.Compare(f(n.left), [ast.Eq()], [f(n.comparators[0])]), "streq"
    elif isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield m, "andor"
        for i in range(len(n.values)):
            vs = n.values[:i] + n.values[i + 1:]
            yield (copy.deepcopy(vs[0]) if len(vs) == 1 else ast.BoolOp(copy.deepcopy(n.op), copy.deepcopy(vs))), "dropop"
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        yield copy.deepcopy(n.operand), "unop"
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
        if not (isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr))):
            m = copy.deepcopy(n); m.op = BIN[type(n.op)](); yield m, "binop"
            yield copy.deepcopy(n.left), "binleft"
            if not isinstance(n.op, ast.Mult): yield copy.deepcopy(n.right), "binright"
    elif isinstance(n, ast.Constant):
        if isinstance(n.value, bool): yield ast.Constant(not n.value), "bool"
        elif isinstance(n.value, (int, float)): yield ast.Constant(n.value + 1), "num+"; yield ast.Constant(n.value - 1), "num-"
        elif isinstance(n.value, str) and n.value and len(n.value) < 12: yield ast.Constant(n.value + "_"), "strc"
        elif n.value is None: yield ast.Constant(0), "none0"
    elif isinstance(n, ast.IfExp):
        yield copy.deepcopy(n.body), "ifbody"; yield copy.deepcopy(n.orelse), "ifelse"
    elif isinstance(n, (ast.If, ast.While)):
        for b in ((True, False) if isinstance(n, ast.If) else (False,)):
            m = copy.deepcopy(n); m.test = ast.Constant(b); yield m, f"if{b}"
        if isinstance(n, ast.If) and n.orelse:
            m = copy.deepcopy(n); m.orelse = []; yield m, "noelse"
    elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        for g, c in enumerate(n.generators):
            for i in range(len(c.ifs)):
                m = copy.deepcopy(n); del m.generators[g].ifs[i]; yield m, "dropfilter"
        if isinstance(n, ast.SetComp): m = ast.ListComp(copy.deepcopy(n.elt), copy.deepcopy(n.generators)); yield m, "set2list"
        if isinstance(n, ast.ListComp): m = ast.SetComp(copy.deepcopy(n.elt), copy.deepcopy(n.generators)); yield m, "list2set"
    elif isinstance(n, ast.Call):
        if isinstance(n.func, ast.Name):
            if n.func.id in WRAP and len(n.args) == 1: yield copy.deepcopy(n.args[0]), "unwrap"
            if n.func.id in SWAP: m = copy.deepcopy(n); m.func.id = SWAP[n.func.id]; yield m, "swapfn"
        if isinstance(n.func, ast.Attribute) and n.func.attr in METH and not n.args: yield copy.deepcopy(n.func.value), "unmeth"
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            m = copy.deepcopy(n); m.args[0], m.args[1] = m.args[1], m.args[0]; yield m, "argswap"
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n); del m.keywords[i]; yield m, "dropkw"
    elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
        yield ast.Pass(), "delstmt"
    elif isinstance(n, (ast.AugAssign, ast.Assert, ast.Raise, ast.Delete)):
        yield ast.Pass(), "delstmt"
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
        yield ast.Pass(), "delstmt"
    elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
        yield ast.Return(None), "retnone"
    elif isinstance(n, ast.Break): yield ast.Continue(), "brk"
    elif isinstance(n, ast.Continue): yield ast.Pass(), "cont"
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        yield copy.deepcopy(n.value), "noslice"
    elif isinstance(n, ast.For):
        m = copy.deepcopy(n); m.iter = ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(ast.Name("list", ast.Load()), [m.iter], [])], []); yield m, "revfor"


def mutants(src):
    tree = ast.parse(src)
    out = []
    def walk(node, path):
        for field, value in ast.iter_fields(node):
            items = value if isinstance(value, list) else [value]
            for i, c in enumerate(items):
                if isinstance(c, ast.AST):
                    p = path + [(field, i if isinstance(value, list) else None)]
                    if field in ("annotation", "returns", "decorator_list"): continue
                    if isinstance(c, ast.JoinedStr): continue
                    if hasattr(c, "lineno"):
                        for m, lab in variants(c): out.append((p, m, lab, c.lineno, getattr(c, "end_lineno", c.lineno), ast.unparse(c)))
                    walk(c, p)
    walk(tree, [])
    for p, m, lab, l0, l1, old in out:
        t = copy.deepcopy(tree)
        par = t
        for f, i in p[:-1]:
            par = getattr(par, f) if i is None else getattr(par, f)[i]
        f, i = p[-1]
        if i is None: setattr(par, f, m)
        else: getattr(par, f)[i] = m
        ast.fix_missing_locations(t)
        try: text = ast.unparse(t)
        except Exception: continue
        yield text, lab, l0, l1, old, (ast.unparse(ast.fix_missing_locations(copy.deepcopy(m))) if not isinstance(m, ast.Pass) else "pass")


def coverage(props, cache):
    if os.path.exists(cache): return json.load(open(cache))
    cov = {}
    env = dict(os.environ, PYTHONPATH=V, PRN_REPO="/repo", PYTHONHASHSEED="1", BROWSER="true", PYTHONDONTWRITEBYTECODE="1")
    def one(p):
        d = tempfile.mkdtemp(prefix="cov"); out = d + "/o.json"
        lines = {}
        for shard in ("0", "1"):
            subprocess.run([PY, "-m", "prn.worker", p, "--out", out, "--nshards", "8", "--shard", shard], cwd=d, env=dict(env, PRN_SCRATCH=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for f, ls in json.load(open(out))["lines"].items():
                lines.setdefault(f, set()).update(ls)
        shutil.rmtree(d)
        return p, lines
    with cf.ThreadPoolExecutor(8) as ex:
        for p, lines in ex.map(one, props):
            for f, ls in lines.items():
                for l in ls: cov.setdefault(f, {}).setdefault(str(l), []).append(p)
    json.dump(cov, open(cache, "w"))
    return cov


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("files", nargs="+")
    ap.add_argument("--jobs", type=int, default=4); ap.add_argument("--full", action="store_true")
    ap.add_argument("--limit", type=int, default=0); ap.add_argument("--seed", default="m"); ap.add_argument("--notests", action="store_true")
    a = ap.parse_args()
    work = tempfile.mkdtemp(prefix="mut-")
    props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    cov = coverage(props, "/tmp/mut/cov.json")
    todo = []
    for f in a.files:
        src = open("/repo/Python/research/scripts/" + f).read()
        for t in mutants(src): todo.append((f,) + t)
    random.Random(a.seed).shuffle(todo)
    if a.limit: todo = todo[:a.limit]
    print(len(todo), "mutants", flush=True)
    slots = list(range(a.jobs))
    for k in slots:
        shutil.copytree("/repo", f"{work}/r{k}", symlinks=True)
        shutil.copytree(V, f"{work}/v{k}", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        os.makedirs(f"{work}/v{k}/evidence")
    out = open(a.out, "a")
    stat = {}

    def one(job):
        f, text, lab, l0, l1, old, new = job
        k = slots.pop()
        p = f"{work}/r{k}/Python/research/scripts/{f}"
        orig = open(p).read()
        rec = {"file": f, "line": l0, "op": lab, "old": old[:300], "new": new[:300]}
        try:
            runs = {}
            for l in range(l0, l1 + 1):
                for q in cov.get(f, {}).get(str(l), []): runs[q] = runs.get(q, 0) + 1
            rec["covered"] = len(runs)
            open(p, "w").write(text)
            if not a.notests and not plant.tests(f"{work}/r{k}")[0]: rec["res"] = "tests"; return rec
            if not runs: rec["res"] = "uncovered"; return rec
            order = sorted(runs, key=lambda q: (len([1 for x in cov[f].values() if q in x]) * -1, q))
            rec["res"] = "SURVIVED"
            for q in order:
                if a.full:
                    r = subprocess.run([PY, f"{work}/v{k}/checks/run.py", q, "--tier", "quick"], env=dict(os.environ, PRN_REPO=f"{work}/r{k}", VERIF_SEED="1"),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode == 1 and "VIOLATION" in r.stdout: rec["res"] = q; break
                    if r.returncode != 0: rec.setdefault("noverdict", []).append(q)
                    continue
                d = tempfile.mkdtemp(prefix="w", dir=work)   # a quarter of the quick check's cases, of both parities
                try:
                  for shard in ("3", "4"):
                    subprocess.run([PY, "-m", "prn.worker", q, "--out", d + "/o.json", "--nshards", "8", "--shard", shard], cwd=d, timeout=60, stdin=subprocess.DEVNULL,
                                   env=dict(os.environ, PYTHONPATH=f"{work}/v{k}", PRN_REPO=f"{work}/r{k}", PYTHONHASHSEED="3125", BROWSER="true", PRN_SCRATCH=d, PYTHONUTF8="1", LC_ALL="C.UTF-8",
                                            PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    if not os.path.exists(d + "/o.json") or json.load(open(d + "/o.json"))["violation"]: rec["res"] = q; break
                    os.remove(d + "/o.json")
                  if rec["res"] == q: break
                except subprocess.TimeoutExpired:
                    rec["res"] = q + " hang"; break
                finally:
                    shutil.rmtree(d, ignore_errors=True)
            return rec
        except Exception as e:
            rec["res"] = "ERR " + repr(e)[:200]; return rec
        finally:
            open(p, "w").write(orig); slots.append(k)
    t0 = time.time()
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for i, r in enumerate(ex.map(one, todo)):
            out.write(json.dumps(r) + "\n"); out.flush()
            key = r["res"] if r["res"] in ("tests", "uncovered", "SURVIVED") else "caught"
            stat[key] = stat.get(key, 0) + 1
            if i % 20 == 0: print(i, round(time.time() - t0), stat, flush=True)
    print("done", stat, round(time.time() - t0))
    shutil.rmtree(work)


if __name__ == "__main__":
    main()
