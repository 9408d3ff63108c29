from fractions import Fraction
from itertools import product
from .. import gen, lib
from ..base import Prop
from ..lib import attempt, canon
from ..model import MS, Dir


class C15(Prop):
    id = "C15"
    rule = ("case = a random connected Bayesian network (integer tables with zeros, up to 3 parents) or pairwise Markov network, encoded as in the repository's "
            "experiments; joint and posterior marginals for random evidences along several inference routes (join then condition, condition then join, step "
            "by step, in different orders) are compared with exact enumeration of the tables; non-trivial when an evidence changed the marginal of "
            "another variable; distinct by tables and evidence")
    cases = {"quick": 2800, "thorough": 22400}
    need = {"bayes": 200, "markov": 200, "posterior": 1500, "route_join_first": 800, "route_condition_first": 800, "route_stepwise": 500, "zeros": 200,
            "changed": 500, "joint_entries": 5000, "collider": 60, "loop": 60, "edge_evidence": 300, "large": 2, "wide": 20}
    case_limit = 300

    def fixed(self):
        def student(mon, rng):
            tabs = {"D": ([], {(): [60, 40]}), "I": ([], {(): [70, 30]}),
                    "G": (["I", "D"], {(0, 0): [30, 40, 30], (0, 1): [5, 25, 70], (1, 0): [90, 8, 2], (1, 1): [50, 30, 20]}),
                    "S": (["I"], {(0,): [95, 5], (1,): [20, 80]}),
                    "L": (["G"], {(0,): [10, 90], (1,): [40, 60], (2,): [99, 1]})}
            voc = gen.Vocab({"D": [0, 1], "I": [0, 1], "G": [0, 1, 2], "S": [0, 1], "L": [0, 1]}, ["r"], "fixed")
            self.bayes(mon, rng, voc, list("DIGSL"), tabs)

        def misconception(mon, rng):
            voc = gen.Vocab({v: [0, 1] for v in "ABCD"}, ["r"], "fixed")
            t = {("A", "B"): [30, 5, 1, 10], ("B", "C"): [100, 1, 1, 100], ("C", "D"): [1, 100, 100, 1], ("D", "A"): [100, 1, 1, 100]}
            self.markov(mon, rng, voc, {p: {(x, y): ws[2 * x + y] for x in (0, 1) for y in (0, 1)} for p, ws in t.items()})

        def markov(pairs, vals):
            def f(mon, rng):
                vs = sorted({v for p in pairs for v in p})
                voc = gen.Vocab({v: list(range(vals.get(v, 1))) for v in vs}, ["r"], "fixed")
                self.markov(mon, rng, voc, {(u, v): {(x, y): 1 + (5 * i + 3 * x + 7 * y) % 9 for x in range(vals.get(u, 1)) for y in range(vals.get(v, 1))}
                                            for i, (u, v) in enumerate(pairs)})
                mon.event("large")
            return f

        def naive(n):
            def f(mon, rng):
                kids = [f"k{i}" for i in range(n)]
                voc = gen.Vocab({"h": [0, 1], **{k: [0, 1] for k in kids}}, ["r"], "fixed")
                self.bayes(mon, rng, voc, ["h"] + kids, {"h": ([], {(): [3, 7]}), **{k: (["h"], {(0,): [1 + i, 20 - i], (1,): [11, 10]}) for i, k in enumerate(kids)}})
                mon.event("large")
            return f
        letters = [f"v{i:02}" for i in range(14)]
        return [student, misconception,
                markov([("h", v) for v in letters], {"h": 3}),                                       # many factors on one variable
                markov(list(zip(letters, letters[1:])), {v: 2 for v in letters[::3]}),               # a long chain
                markov([(u, v) for i, u in enumerate("abcde") for v in "abcde"[i + 1:]], {v: 2 for v in "abcde"}),   # all pairs
                markov(list(zip(letters, letters[1:] + letters[:1])), {v: 2 for v in letters[::2]}),  # a long loop
                naive(8)]

    # ---- the two kinds of network
    def bayes(self, mon, rng, voc, order, tabs):
        lab = voc.rels[0]
        out = {}
        for v in order:
            pa, rows = tabs[v]
            for key, ws in rows.items():
                for x, w in zip(voc.vars[v], ws):
                    if w:
                        pn = [(p, voc.vars[p][k]) for p, k in zip(pa, key)]
                        m = MS((), [(frozenset((n, (v, x))), Dir(n[0], v, lab)) for n in pn]) if pa else MS([(v, x)])
                        out[m] = out.get(m, 0) + w

        def weight(a):   # a: variable -> value index
            w = Fraction(1)
            for v in order:
                pa, rows = tabs[v]
                ws = rows[tuple(a[p] for p in pa)]
                w *= Fraction(ws[a[v]], sum(ws))
            return w
        pairs = [(p, v) for v in order for p in tabs[v][0]]
        mon.event("bayes")
        mon.event("collider", any(len(tabs[v][0]) > 1 for v in order))
        mon.event("zeros", any(0 in ws for v in order for ws in tabs[v][1].values()))
        self.infer(mon, rng, voc, order, out, weight, {frozenset(p): Dir(p[0], p[1], lab) for p in pairs})

    def markov(self, mon, rng, voc, tabs):
        out, rels = {}, {}
        for (u, v), t in tabs.items():
            r = gen.relation(rng, voc, (u, 0), (v, 0), .3)
            rels[frozenset((u, v))] = r
            for (x, y), w in t.items():
                if w:
                    out[MS((), [(frozenset(((u, voc.vars[u][x]), (v, voc.vars[v][y]))), r)])] = w
        order = sorted({v for p in tabs for v in p}, key=repr)

        def weight(a):
            w = Fraction(1)
            for (u, v), t in tabs.items():
                w *= t[(a[u], a[v])]
            return w
        mon.event("markov")
        mon.event("loop", len(tabs) >= len(order))
        mon.event("zeros", any(0 in t.values() for t in tabs.values()))
        self.infer(mon, rng, voc, order, out, weight, rels)

    # ---- inference
    def posterior(self, worlds, ev):
        sel = [(a, w) for a, w in worlds if all(a[v] == x for v, x in ev.items())]
        z = sum(w for _, w in sel)
        res = {}
        for a, w in sel:
            for v, x in a.items():
                res.setdefault(v, {})
                res[v][x] = res[v].get(x, 0) + w
        return {v: {x: p / z for x, p in d.items()} for v, d in res.items()}

    def compare(self, mon, g, want, what):
        got = mon.accepted(attempt(g.marginal_variables_probability), what)
        mon.eq(set(got), set(want), f"{what}: variables")
        for v, d in want.items():
            mon.eq(set(got[v]), set(d), f"{what}: values of {v!r}")
            for x, p in d.items():
                mon.close(got[v][x], p, f"{what}: P({v!r}={x!r})")
        mon.event("posterior")

    def infer(self, mon, rng, voc, order, out, weight, rels):
        worlds = []
        for idx in product(*[range(len(voc.vars[v])) for v in order]):
            w = weight(dict(zip(order, idx)))
            if w:
                worlds.append(({v: voc.vars[v][k] for v, k in zip(order, idx)}, w))
        if not worlds:
            return
        z = sum(w for _, w in worlds)
        mon.log("tables", out)
        b = lib.rgb(voc, rng=rng)
        g = lib.graph(rng, b, out, voc)
        j = mon.accepted(attempt(g.make_joined), f"joint of {out}")
        got = {}
        for s, p in j.outcomes.probabilities():
            m = canon(s)
            got[frozenset(m.nodes)] = p
            mon.eq({frozenset(v for v, _ in ep): r for ep, r in m.edges}, rels, "relations of a joint outcome")
        mon.eq(set(got), {frozenset(a.items()) for a, _ in worlds}, f"support of the joint of {out}")
        for a, w in worlds:
            mon.close(got[frozenset(a.items())], w / z, f"joint probability of {a}")
        mon.event("joint_entries", len(worlds))
        prior = self.posterior(worlds, {})
        self.compare(mon, j, prior, "prior marginals")
        for _ in range(3):
            a, _w = rng.choice(worlds)
            k = rng.randint(1, min(3, len(order)))
            ev = {v: a[v] for v in rng.sample(order, k)}
            want = self.posterior(worlds, ev)
            steps = list(ev.items())
            rng.shuffle(steps)
            mon.log("evidence", steps)
            # condition the factors one variable at a time, then join
            x = g
            for v, val in steps:
                x = x.conditional_graph(x.sample_builder().build_single_node(v, val)).relation_graph()
            mon.log("conditioned factors")
            self.compare(mon, mon.accepted(attempt(x.make_joined), "joining conditioned factors"), want, f"condition on {steps} then join")
            mon.event("route_condition_first")
            # join after every step, as the experiments do
            x = g
            for v, val in steps:
                x = x.conditional_graph(x.sample_builder().build_single_node(v, val)).relation_graph().make_joined()
            self.compare(mon, x, want, f"condition on {steps} joining after each step")
            # join, then condition step by step
            x = j
            for v, val in steps:
                x = x.conditional_graph(lib.build(rng, j, MS([(v, val)]), voc=voc)).relation_graph()
            self.compare(mon, x, want, f"join then condition on {steps}")
            mon.event("route_join_first")
            # join, condition on a connected piece of a joint outcome at once and in two parts
            whole = MS(a.items(), [(frozenset(((u, a[u]), (v, a[v]))), r) for (u, v), r in ((tuple(p), r) for p, r in rels.items())])
            e = gen.subsample(rng, whole)
            want = self.posterior(worlds, dict(e.nodes))
            c = j.conditional_graph(lib.build(rng, b, e, voc=voc))
            self.compare(mon, c, want, f"condition on {e} at once")
            mon.event("edge_evidence", bool(e.edges))
            e1 = gen.subsample(rng, e)
            c1 = j.conditional_graph(lib.build(rng, b, e1, voc=voc)).relation_graph().conditional_graph(lib.build(rng, b, e, voc=voc))
            self.compare(mon, c1, want, f"condition on {e1} then {e}")
            mon.event("route_stepwise")
            changed = any(want[v] != prior[v] for v in order if v not in dict(e.nodes))
            mon.event("changed", changed)
            if changed:
                mon.nontrivial(repr(sorted(out.items(), key=repr)), repr(e))
        mon.sample(f"{out}"[:500])

    def case(self, mon, rng, i, tier):
        wide = rng.random() < .02
        voc = gen.vocab(rng, nv=(6, 9), nval=(1, 2), profiles=["plain", "int", "words", "digits", "mixed", "tok"]) if wide else gen.vocab(rng, nv=(2, 5), nval=(1, 3))
        mon.event("wide", wide)
        order = list(voc.vars)
        rng.shuffle(order)
        pz = rng.choice([0, 0, .15, .35])
        hi = rng.choice([4, 100, 10**6])
        if rng.random() < .5:
            tabs = {}
            for k, v in enumerate(order):
                pa = rng.sample(order[:k], rng.randint(1, min(2 if wide else 3, k))) if k else []
                n = len(voc.vars[v])
                rows = {}
                for key in product(*[range(len(voc.vars[p])) for p in pa]):
                    ws = [0 if rng.random() < pz else rng.randint(1, hi) for _ in range(n)]
                    if not any(ws):
                        ws[rng.randrange(n)] = 1
                    rows[key] = ws
                # counts must be proportional to the table: bring all rows of a family to one total
                from math import lcm
                tot = lcm(*[sum(ws) for ws in rows.values()])
                tabs[v] = (pa, {key: [w * (tot // sum(ws)) for w in ws] for key, ws in rows.items()})
            self.bayes(mon, rng, voc, order, tabs)
        else:
            edges = {(order[rng.randrange(k)], order[k]) for k in range(1, len(order))}
            for u in range(len(order)):
                for v in range(u):
                    if rng.random() < (.1 if wide else .35) and (order[v], order[u]) not in edges and (order[u], order[v]) not in edges:
                        edges.add((order[u], order[v]))
            tabs = {}
            for u, v in sorted(edges, key=repr):
                t = {(x, y): (0 if rng.random() < pz else rng.randint(1, hi)) for x in range(len(voc.vars[u])) for y in range(len(voc.vars[v]))}
                if not any(t.values()):
                    t[(0, 0)] = 1
                tabs[(u, v)] = t
            self.markov(mon, rng, voc, tabs)


PROP = C15()
