from fractions import Fraction
from .. import gen, lib, obs
from ..base import Prop
from ..lib import attempt, canon_set
from ..model import MS, Dir, condition, activation
from .c08 import outcome_pool, evidence_for


class C11(Prop):
    id = "C11"
    rule = ("case = activation graphs of graphs conditioned on evidences taken from the outcomes, without and with relation filters, compared weight by "
            "weight with exact fractions and edge by edge with exact counts; includes relation chains of several hundred steps; non-trivial when some "
            "value outside the evidence got a weight strictly between 0 and 1; distinct by outcomes, evidence and filter")
    cases = {"quick": 7200, "thorough": 57600}
    need = {"activated": 3000, "filtered": 1000, "filter_blocks": 300, "outer_layer": 500, "weights": 15000, "edges": 4000, "disjoint_outcome": 500,
            "query_edges": 800, "fractional": 1500, "long_chain": 1, "beyond_floats": 100, "directed_filter": 100}
    assumptions = ["evidence and conditioned outcomes are not empty", "no outcome gives one variable two values"]

    def fixed(self):
        def chain(n, start):
            def f(mon, rng):
                voc = gen.big_vocab(rng, n, nval=2, nrel=2)
                vs = list(voc.vars)
                nodes = [(v, 0) for v in vs]
                edges = {frozenset((nodes[i], nodes[i + 1])): voc.rels[i % 2] for i in range(n - 1)}
                o = MS(nodes, edges.items())
                ev = MS([nodes[start]])
                b = lib.rgb(voc)
                g = lib.graph(rng, b, {o: 3}, voc)
                c = g.conditional_graph(lib.build(rng, b, ev, "add"))
                self.judge(mon, c, {o: 3}, ev, voc, None)
                mon.event("long_chain")
            return f
        return [chain(300, 0), chain(600, 100), chain(1300, 0)]

    def judge(self, mon, c, out, ev, voc, filt, name=None):
        args = {}
        if filt is not None:
            args["relation_filter"] = {lib.rel_in(r) for r in filt}
        if name:
            args["name"] = name
        g = mon.accepted(attempt(c.activation_graph, **args), f"activation given {ev} with filter {filt}")
        wn, we = activation(voc.vars, ev, out, (lambda r: True) if filt is None else (lambda r: r in filt))
        mon.eq(len(g.nodes), len(wn), "number of activation nodes")
        mon.eq(len(g.edges), len(we), f"number of activation edges given {ev} filter {filt}")
        gn, ge = obs.activation_out(g)
        mon.eq(set(gn), set(wn), "variables of the activation graph")
        mon.eq(set(ge), set(we), "variable pairs of the activation graph")
        frac = False
        for n in g.nodes:
            want, q = wn[n.variable]
            mon.eq(len(n.values), len(want), f"values of {n.variable!r}")
            got = dict(n.values)
            mon.eq(set(got), set(want), f"values of {n.variable!r}")
            for x, w in want.items():
                mon.close(got[x], w, f"weight of {n.variable!r}={x!r} given {ev} with filter {filt}")
                frac |= 0 < w < 1 and not q
            mon.eq(n.in_query, q, f"query mark of {n.variable!r}")
            mon.event("weights", len(want))
        for k, (d, q) in we.items():
            mon.eq(ge[k][0], d, f"relations between {set(k)!r} given {ev} with filter {filt}")
            mon.eq(ge[k][1], q, f"query mark of edge {set(k)!r}")
            mon.event("edges")
            mon.event("query_edges", q)
        mon.eq(g.number_of_outcomes, sum(out.values()), "number of outcomes of the activation graph")
        mon.eq(set(g.variables), set(voc.vars), "variables")
        mon.eq(g.name, name or c.name, "name of the activation graph")
        mon.event("activated")
        mon.event("fractional", frac)
        return frac

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(2, 6), nval=(1, 3), big=.03)
        b = lib.rgb(voc, rng=rng)
        out = outcome_pool(rng, voc, gen.many(rng, [2, 6, 15]), huge=.2 if rng.random() < .05 else 0)
        if rng.random() < .1:
            out[MS()] = gen.count(rng)
        g = lib.graph(rng, b, out, voc)
        rels = {r for o in out for _, r in o.edges} | set(voc.rels)
        for _ in range(3):
            ev = evidence_for(rng, voc, {k: v for k, v in out.items() if k.nodes})
            want = condition(out, ev)
            if not want:
                continue
            c = g.conditional_graph(lib.build(rng, b, ev, voc=voc))
            filt = None
            if rng.random() < .5:
                rl = sorted(rels, key=repr)
                filt = set(rng.sample(rl, rng.randint(1, len(rl))))
                mon.event("filtered")
                mon.event("directed_filter", any(isinstance(r, Dir) for r in filt))
                mon.event("filter_blocks", any(r not in filt for o in want for _, r in o.edges))
            mon.event("beyond_floats", sum(want.values()) > 10**400)
            mon.log("activate", want, "given", ev, "filter", filt)
            f = self.judge(mon, c, want, ev, voc, filt, rng.choice([None, "A"]))
            mon.event("outer_layer", sum(len(o.layers(ev.nodes, lambda r: filt is None or r in filt)) > 1 for o in want))
            mon.event("disjoint_outcome", sum(not o.vars() & ev.vars() for o in want))
            mon.eq(canon_set(c.outcomes), want, "activation changed the outcomes")
            if f:
                mon.nontrivial(repr(want), repr(ev), repr(filt))
        mon.sample(f"{out}"[:400])


PROP = C11()
