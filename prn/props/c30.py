import contextlib
import io
import logging
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings
import webbrowser
from fractions import Fraction
from itertools import product
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
from .. import lib  # noqa: E402
from ..base import Prop  # noqa: E402
from ..lib import attempt, canon, canon_set  # noqa: E402
from ..model import MS, Dir, condition, count_all, factor_split  # noqa: E402
from ..factors import product as fproduct  # noqa: E402
from .c20 import text as ctext  # noqa: E402

with contextlib.redirect_stdout(io.StringIO()):
    from scripts.experiments import comparing_with_bayes_network as bayes  # noqa: E402
    from scripts.experiments import comparing_with_markov_network as markov  # noqa: E402
    from scripts.experiments import random_variables_distribution_for_all_outcomes as rvd  # noqa: E402
    from scripts.playaround import number_of_subgraphs as subgraphs  # noqa: E402
    from scripts.examples import building_net_from_coin_toss as coins  # noqa: E402

webbrowser.open = lambda *a, **k: True
ORDER = ["D", "I", "G", "S", "L"]
# the tables are swapped by replacing the modules' data; where that is kept elsewhere, only the shipped tables can be used
SWAP = all(hasattr(m, n) for m, n in ((bayes, "net_config"), (bayes, "prop_factor"), (markov, "edges")))
PARENTS = {"D": [], "I": [], "G": ["I", "D"], "S": ["I"], "L": ["G"]}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


@contextlib.contextmanager
def put(module, **names):
    """the module's data replaced for a while"""
    old = {k: getattr(module, k) for k in names}
    try:
        for k, v in names.items():
            setattr(module, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(module, k, v)


def called(f, *a):
    with quiet():
        return attempt(f, *a)


COINS = {"1¢": ("V1", "1"), "5¢": ("V2", "2"), "25¢": ("V3", "3")}


def toss_sample(line):
    w = line.split(" ")

    def node(c, v):
        return COINS[c][0], {"H": "h", "T": "t"}[v] + COINS[c][1]
    if len(w) == 2:
        return MS([node(*w)])
    return MS((), [(frozenset((node(*w[:2]), node(*w[3:]))), "r1" if int(w[0][:-1]) < int(w[3][:-1]) else "r2")])


def toss_outcomes(record):
    out = {}
    for line in record:
        m = toss_sample(line)
        out[m] = out.get(m, 0) + 1
    return out


class Bayes:
    """tables as integers out of f: t[var][parent values][value]"""

    def __init__(self, cards, t, f):
        self.cards, self.t, self.f = cards, t, f

    @staticmethod
    def random(rng, f, wide=False):
        cards = {"D": rng.randint(1, 3), "I": rng.randint(2, 3), "G": rng.randint(2, 4), "S": rng.randint(2, 3), "L": rng.randint(2, 3)}
        if wide:     # one variable with more than ten values
            cards = dict.fromkeys(ORDER, 2)
            cards[rng.choice(ORDER)] = rng.randint(11, 13)
        t = {}
        for v in ORDER:
            t[v] = {}
            for ps in product(*[range(cards[p]) for p in PARENTS[v]]):
                cut = sorted(rng.sample(range(1, f), cards[v] - 1))
                t[v][ps] = [b - a for a, b in zip([0] + cut, cut + [f])]
        return Bayes(cards, t, f)

    def config(self):
        return {v: (self.cards[v], [[self.t[v][ps][k] / self.f for ps in product(*[range(self.cards[p]) for p in PARENTS[v]])] for k in range(self.cards[v])],
                    PARENTS[v] or None, [self.cards[p] for p in PARENTS[v]] or None) for v in ORDER}

    def outcomes(self):
        out = {}
        for v in ORDER:
            for ps, col in self.t[v].items():
                for k, c in enumerate(col):
                    n = (v, f"{v}({k})")
                    m = MS([n], [(frozenset((n, (p, f"{p}({x})"))), Dir(p, v, "r")) for p, x in zip(PARENTS[v], ps)])
                    out[m] = c
        return out

    def joint(self):
        out = {}
        for xs in product(*[range(self.cards[v]) for v in ORDER]):
            a = dict(zip(ORDER, xs))
            w = 1
            for v in ORDER:
                w *= self.t[v][tuple(a[p] for p in PARENTS[v])][a[v]]
            out[xs] = w
        return out

    def marginals(self, ev):
        acc, total = {v: {} for v in ORDER}, 0
        for xs, w in self.joint().items():
            a = dict(zip(ORDER, xs))
            if all(a[v] == x for v, x in ev.items()):
                total += w
                for v in ORDER:
                    acc[v][a[v]] = acc[v].get(a[v], 0) + w
        return {v: {x: Fraction(w, total) for x, w in d.items()} for v, d in acc.items()}

    def nudged(self, rng):
        """one unit moved within one column"""
        t = {v: {ps: list(c) for ps, c in d.items()} for v, d in self.t.items()}
        while True:
            v = rng.choice(ORDER)
            col = t[v][rng.choice(sorted(t[v]))]
            if len(col) < 2:
                continue
            i, j = rng.sample(range(len(col)), 2)
            if col[i] > 1:
                col[i] -= 1
                col[j] += 1
                return Bayes(self.cards, t, self.f), v


class C30(Prop):
    id = "C30"
    rule = ("case = random tables (and cardinalities) put in place of those shipped with the experiments; the relation graph and the pgmpy network that the "
            "experiment makes are compared entry by entry with the tables, and its comparisons are run on agreeing pairs (tables with exact binary fractions) and on "
            "pairs that differ by one unit in one entry; coin-toss records against the samples they describe; enumeration of typed graphs; non-trivial when a "
            "comparison was seen to succeed or to refuse; distinct by tables")
    cases = {"quick": 640, "thorough": 6400}
    need = {"bayes_encoded": 150, "markov_encoded": 150, "entries": 5000, "agree": 100, "differ_refused": 200, "inference_refused": 100, "separation_held": 100,
            "separation_refused": 60, "shipped": 4, "toss": 1000, "fraction_refused": 100, "toss_pair": 300, "d_separation": 60, "d_separation_refused": 30,
            "example": 3, "many_values": 15, "cancelling": 20}
    if not SWAP:
        need = {k: n for k, n in need.items() if k in ("shipped", "toss", "toss_pair", "example")}
    assumptions = ["pgmpy computes exactly on tables of binary fractions", "variable names of the shipped networks are kept"]
    case_limit = 300

    def fixed(self):
        def shipped_bayes(mon, rng):
            bn, rg = mon.accepted(called(bayes.make_bayes_network), "shipped Bayesian network"), mon.accepted(called(bayes.make_relation_graph), "shipped relation graph")
            for f in (bayes.comparing_joint_probability, bayes.comparing_inference):
                mon.accepted(called(f, bn, rg), f"shipped comparison {f.__name__}")
            mon.accepted(called(bayes.comparing_d_separation, rg), "shipped comparison of d-separation")
            mon.event("shipped", 3)
            mon.nontrivial("shipped bayes")

        def shipped_markov(mon, rng):
            mn, rg = mon.accepted(called(markov.make_markov_network), "shipped Markov network"), mon.accepted(called(markov.make_relation_graph), "shipped relation graph")
            for f in (markov.comparing_variable_joint_probability, markov.comparing_inference):
                mon.accepted(called(f, mn, rg), f"shipped comparison {f.__name__}")
            mon.accepted(called(markov.markov_separation, mn), "shipped separation")
            mon.accepted(called(markov.relation_graph_separation, rg), "shipped separation")
            mon.event("shipped", 4)

        def uniform(mon, rng):
            mon.accepted(called(rvd.random_variables_distribution_for_all_outcomes), "distribution over all outcomes")
            mon.event("shipped")

        def enum(n):
            def f(mon, rng):
                net = mon.accepted(called(subgraphs.make_all_sub_graphs, n), f"typed graphs over {n} nodes")
                copies, alone = {}, set()
                for i in net.get_nodes():
                    node, k = i.split("_")
                    copies.setdefault(int(k), [set(), set()])[0].add(node)
                for e in net.edges:
                    (a, k), (b, k2) = e["from"].split("_"), e["to"].split("_")
                    mon.eq(k, k2, "edge between two graphs")
                    copies[int(k)][1].add((frozenset((a, b)), e["title"]))
                alone = copies.pop(0, [set(), set()])
                mon.eq((alone[0], alone[1]), ({f"N{i}" for i in range(1, n + 1)}, set()), "single nodes")
                pairs = [frozenset((f"N{i}", f"N{j}")) for i in range(1, n + 1) for j in range(1, i)]
                want = {frozenset((p, t) for p, t in zip(pairs, ts) if t) for ts in product((None, "AB", "BA"), repeat=len(pairs))} - {frozenset()}
                mon.eq(len(copies), len(want), "number of typed graphs")
                mon.eq({frozenset(c[1]) for c in copies.values()}, want, "typed graphs")
                for ns, es in copies.values():
                    mon.eq(ns, {x for p, _ in es for x in p}, "nodes of a typed graph")
                mon.event("typed_graphs", len(copies))
            return f
        def example(name, expect):
            def f(mon, rng):
                wd, old = tempfile.mkdtemp(dir=os.environ.get("PRN_SCRATCH")), os.getcwd()
                os.chdir(wd)
                try:
                    with quiet() as t:
                        mon.accepted(attempt(runpy.run_module, f"scripts.examples.{name}", run_name="__main__"), f"example {name}")
                    pages = os.listdir(".")
                finally:
                    os.chdir(old)
                    shutil.rmtree(wd, ignore_errors=True)
                record = coins.experiment_results
                full = toss_outcomes(record)
                want = expect(full)
                total = sum(want.values())
                got = []
                for line in t.getvalue().splitlines():
                    m = re.fullmatch(r"\s+ω = (.*), c = (\d+), P\(ω\) = (.*)", line)
                    if m:
                        got.append((m.group(1), int(m.group(2)), float(m.group(3))))
                mon.eq(sorted(got), sorted((ctext(o), c, c / total) for o, c in want.items()), f"printed by {name}")
                mon.eq(len(pages), 1, f"pages written by {name}")
                mon.event("example")
            return f

        def power(mon, rng):
            code = ("import sys; sys.path.insert(0, %r)\n"
                    "from scripts.experiments import outcomes_space_power as m\n"
                    "m.outcomes_space_power()\n" % os.path.join(lib.REPO, "Python", "research"))
            p = subprocess.Popen([sys.executable, "-u", "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
            kill = threading.Timer(25, p.kill)
            kill.start()
            try:
                for line in p.stdout:
                    m = re.match(r"\[make_relation_graph\] n_var = (\d+),\s+n_val_with_u = (\d+), n_rel = (\d+), n_generated = (\d+), n_counted = (\d+)", line)
                    if m:
                        nv, nx, nr, made, counted = map(int, m.groups())
                        want = count_all({i: list(range(nx - 1)) for i in range(nv)}, list(range(nr)))
                        mon.eq((made, counted), (want, want), f"outcomes over {nv} variables of {nx - 1} values and {nr} relations")
                        mon.event("space_power")
                        if nv >= 4:
                            break
                kill.cancel()
                if p.poll() is None:
                    p.kill()
                else:
                    p.wait()
                    mon.ok(p.returncode in (0, -9), lambda: f"the space power experiment failed: {p.stderr.read()[-300:]}")
            finally:
                kill.cancel()
                p.kill()
                p.wait()
        given = MS((), [(frozenset((("V1", "h1"), ("V2", "h2"))), "r1")])
        return [shipped_bayes, shipped_markov, uniform, enum(2), enum(3), enum(4), power,
                example("building_net_from_coin_toss", lambda o: o),
                example("building_net_with_conditional_probability", lambda o: condition(o, given)),
                example("building_net_with_joint_probability", lambda o: fproduct(factor_split(o)))]

    def both(self, mon, b):
        with put(bayes, net_config=b.config(), prop_factor=b.f):
            rg = mon.accepted(called(bayes.make_relation_graph), "encoding as relation graph")
            bn = mon.accepted(called(bayes.make_bayes_network), "encoding for pgmpy")
        return rg, bn

    def bayes_case(self, mon, rng):
        exact = rng.random() < .6
        wide = rng.random() < .1
        b = Bayes.random(rng, rng.choice([16] if wide else [8, 16]) if exact else 2 ** rng.choice([10, 18]), wide)
        mon.event("many_values", wide)
        mon.log("tables", b.t)
        rg, bn = self.both(mon, b)
        mon.eq(canon_set(rg.outcomes), b.outcomes(), "outcomes of the encoded network")
        mon.eq(rg.variables, frozenset((v, frozenset(f"{v}({k})" for k in range(b.cards[v]))) for v in ORDER), "variables of the encoded network")
        for v in ORDER:
            f = bn.get_cpds(v).to_factor()
            for ps, col in b.t[v].items():
                for k, c in enumerate(col):
                    mon.eq(float(f.get_value(**{v: k, **dict(zip(PARENTS[v], ps))})), c / b.f, f"entry {v}={k} given {ps} for pgmpy")
                    mon.event("entries")
        mon.eq({frozenset(e) for e in bn.edges()}, {frozenset((p, v)) for v in ORDER for p in PARENTS[v]}, "links of the network")
        mon.event("bayes_encoded")
        with put(bayes, net_config=b.config(), prop_factor=b.f):
            if exact:
                mon.accepted(called(bayes.comparing_joint_probability, bn, rg), "comparison of equal joint distributions")
                mon.event("agree")
            other, where = b.nudged(rng)
            rg2, bn2 = self.both(mon, other)
            x, y = (bn, rg2) if rng.random() < .5 else (bn2, rg)
            mon.refused(called(bayes.comparing_joint_probability, x, y), f"comparison of joint distributions that differ at {where}")
            mon.event("differ_refused")
            if any(b.marginals(ev)[v] != other.marginals(ev)[v] for ev in ({"I": 0}, {"I": 0, "G": 0}) for v in ORDER):
                mon.refused(called(bayes.comparing_inference, x, y), f"comparison of inference in networks that differ at {where}")
                mon.event("inference_refused")
        if rng.random() < .25:
            self.cancelling(mon, rng)
        odd = Bayes(b.cards, {v: {ps: list(c) for ps, c in d.items()} for v, d in b.t.items()}, b.f)    # an entry that takes a fraction of a unit
        v = rng.choice([x for x in ORDER if b.cards[x] > 1])
        col = odd.t[v][rng.choice(sorted(odd.t[v]))]
        d = rng.choice([.5, .25, 1 / 64, 2 ** -12, 2 ** -20])
        col[0], col[1] = col[0] + d, col[1] - d
        with put(bayes, net_config=odd.config(), prop_factor=b.f):
            mon.refused(called(bayes.make_relation_graph), f"encoding {d} units as a count")
        mon.event("fraction_refused")
        prior, gi = b.marginals({}), b.marginals({"I": 0})
        holds = prior["S"] != gi["S"] and b.marginals({"G": 0})["D"] != b.marginals({"G": 0, "I": 0})["D"] and b.marginals({"L": 0})["D"] != b.marginals({"L": 0, "I": 0})["D"]
        if holds:
            mon.accepted(called(bayes.comparing_d_separation, rg), "d-separation")
            mon.event("d_separation")
        if rng.random() < .5:    # SAT made independent of intelligence: the claimed influence is not there
            t = dict(b.t)
            t["S"] = {ps: b.t["S"][(0,)] for ps in b.t["S"]}
            rg3, _ = self.both(mon, Bayes(b.cards, t, b.f))
            mon.refused(called(bayes.comparing_d_separation, rg3), "d-separation without influence")
            mon.event("d_separation_refused")
        mon.nontrivial("bayes", repr(b.t))

    def cancelling(self, mon, rng):
        """two entries moved so that nothing changes given I alone: only the posterior given I and G tells the networks apart"""
        b = Bayes.random(rng, 16)
        b.cards["D"] = 2
        for v in ("D", "G"):
            b.t[v] = {ps: None for ps in product(*[range(b.cards[p]) for p in PARENTS[v]])}
            for ps in b.t[v]:
                k = b.cards[v]
                cut = sorted(rng.sample(range(2, 15, 2), k - 1))
                b.t[v][ps] = [y - x for x, y in zip([0] + cut, cut + [16])]
        b.t["D"][()] = [8, 8]
        other = Bayes(b.cards, {v: {ps: list(c) for ps, c in d.items()} for v, d in b.t.items()}, b.f)
        at = rng.randrange(b.cards["I"])
        lo, hi = rng.sample(range(b.cards["G"]), 2)
        for d, s in ((0, 1), (1, -1)):
            col = other.t["G"][(at, d)]
            col[lo] += s
            col[hi] -= s
        assert b.marginals({}) == other.marginals({}) and b.marginals({"I": 0}) == other.marginals({"I": 0}) and b.joint() != other.joint()
        rg, bn = self.both(mon, b)
        rg2, bn2 = self.both(mon, other)
        x, y = (bn, rg2) if rng.random() < .5 else (bn2, rg)
        with put(bayes, net_config=b.config(), prop_factor=b.f):
            if b.marginals({"I": 0, "G": 0}) != other.marginals({"I": 0, "G": 0}):
                mon.refused(called(bayes.comparing_inference, x, y), "comparison of inference in networks that differ given I and G only")
            mon.refused(called(bayes.comparing_joint_probability, x, y), "comparison of joint distributions with equal marginals")
        mon.event("cancelling")

    def markov_case(self, mon, rng):
        exact = rng.random() < .4
        if exact:    # totals are powers of two
            k = rng.choice([3, 6, 10, 12])
            ps = [rng.choice([1, 2 ** k - 1, rng.randint(1, 2 ** k - 1)]) for _ in range(4)]
            ps[rng.randrange(4)] = 2 ** (k - 1)
            tabs = [[p, 2 ** k - p, 2 ** k - p, p] for p in ps]
        else:
            hi = rng.choice([5, 100, 1000])
            tabs = [[rng.randint(1, hi) for _ in range(4)] for _ in range(4)]
        pairs = [["A", "B"], ["B", "C"], ["C", "D"], ["D", "A"]]
        edges = list(zip(pairs, tabs))
        mon.log("tables", tabs)

        def made(es):
            with put(markov, edges=es):
                return mon.accepted(called(markov.make_markov_network), "encoding for pgmpy"), mon.accepted(called(markov.make_relation_graph), "encoding as relation graph")

        def outs(es):
            return {MS((), [(frozenset(((a, f"{a}({i})"), (b, f"{b}({j})"))), "r")]): t[2 * i + j] for (a, b), t in es for i in range(2) for j in range(2)}
        mn, rg = made(edges)
        mon.eq(canon_set(rg.outcomes), outs(edges), "outcomes of the encoded network")
        for f, (p, t) in zip(mn.factors, edges):
            for i in range(2):
                for j in range(2):
                    mon.eq(float(f.get_value(**{p[0]: i, p[1]: j})), float(t[2 * i + j]), f"entry {p} {i} {j} for pgmpy")
                    mon.event("entries")
        mon.event("markov_encoded")
        if exact:
            mon.accepted(called(markov.comparing_variable_joint_probability, mn, rg), "comparison of equal joint distributions")
            mon.accepted(called(markov.comparing_inference, mn, rg), "comparison of equal inference")
            mon.event("agree")
        i, j = rng.randrange(4), rng.randrange(4)
        t2 = [list(t) for t in tabs]
        t2[i][j] += 1
        mn2, rg2 = made(list(zip(pairs, t2)))
        x, y = (mn, rg2) if rng.random() < .5 else (mn2, rg)
        mon.refused(called(markov.comparing_variable_joint_probability, x, y), f"comparison of joint distributions that differ at {pairs[i]}[{j}]")
        mon.event("differ_refused")

        def post(ts):
            w = {}
            for b, c, d in product(range(2), repeat=3):
                w[b, c, d] = ts[0][b] * ts[1][2 * b + c] * ts[2][2 * c + d] * ts[3][2 * d]
            s = sum(w.values())
            return {k: Fraction(v, s) for k, v in w.items()}
        if post(tabs) != post(t2):
            mon.refused(called(markov.comparing_inference, x, y), f"comparison of inference in networks that differ at {pairs[i]}[{j}]")
            mon.event("inference_refused")
        mon.accepted(called(markov.relation_graph_separation, rg), "separation in a cycle")
        mon.accepted(called(markov.markov_separation, mn), "separation in a cycle (pgmpy)")
        mon.event("separation_held")
        cross = [rng.randint(1, 9) for _ in range(4)]
        if cross[0] * cross[3] != cross[1] * cross[2]:
            _, rg3 = made(edges + [(["B", "D"], cross)])
            mon.refused(called(markov.relation_graph_separation, rg3), "separation despite a direct link")
            mon.event("separation_refused")
        mon.nontrivial("markov", repr(tabs))

    def coin_case(self, mon, rng):
        cs = {"1¢": ("V1", "1"), "5¢": ("V2", "2"), "25¢": ("V3", "3")}

        def node(c, v):
            return cs[c][0], {"H": "h", "T": "t"}[v] + cs[c][1]
        record, want = [], {}
        for _ in range(rng.choice([1, 5, 30])):
            a, b = rng.sample(list(cs), 2)
            va, vb = rng.choice("HT"), rng.choice("HT")
            if rng.random() < .5:
                record.append(f"{a} {va}")
                m = MS([node(a, va)])
            else:
                record.append(f"{a} {va} then {b} {vb}")
                m = MS((), [(frozenset((node(a, va), node(b, vb))), "r1" if int(a[:-1]) < int(b[:-1]) else "r2")])
                mon.event("toss_pair")
            want[m] = want.get(m, 0) + 1
            mon.event("toss")
        g = mon.accepted(called(coins.build_relation_net, list(record)), f"network of {record}")
        mon.eq(canon_set(g.outcomes), want, f"outcomes of {record}")
        with quiet() as f:
            coins.describe_relation_net(g)
        got = sorted(x.strip() for x in f.getvalue().splitlines() if x.startswith(" "))
        mon.eq(got, sorted(f"ω = {s}, c = {want[canon(s)]}, P(ω) = {want[canon(s)] / len(record)}" for s in g.outcomes.samples()), "description of the network")

    def case(self, mon, rng, i, tier):
        if SWAP:
            (self.bayes_case if i % 2 else self.markov_case)(mon, rng)
        self.coin_case(mon, rng)
        mon.sample(mon.trail[-1][:300] if mon.trail else "shipped tables")


PROP = C30()
