from fractions import Fraction
from .. import gen, lib, obs
from ..base import Prop
from ..lib import attempt, canon_set
from ..model import MS, condition, folded
from .c08 import outcome_pool, evidence_for


class C10(Prop):
    id = "C10"
    rule = ("case = folded graphs of a relation graph and of graphs conditioned from it, compared node by node and edge by edge with an independent "
            "aggregation in exact integers; non-trivial when some variable pair carries several relations or several value pairs; distinct by outcomes")
    cases = {"quick": 7200, "thorough": 57600}
    need = {"folded": 3000, "nodes": 8000, "edges": 6000, "edge_multi": 2000, "unobserved": 2000, "marginal_values": 15000, "conditional": 1000,
            "empty_conditional": 10, "lookup": 8000, "equal_graphs": 300, "unequal_graphs": 500, "beyond_floats": 100}
    assumptions = ["declared values are not the reserved label 'unobserved'"]

    def judge(self, mon, g, out, voc, name=None):
        f = mon.accepted(attempt(g.folded_graph, name) if name else attempt(g.folded_graph), "folding")
        nodes, edges = folded(out)
        total = sum(out.values())
        mon.eq(len(f.nodes), len(nodes), "number of folded nodes")
        mon.eq(len(f.edges), len(edges), "number of folded edges")
        gn, ge = obs.folded_out(f)
        mon.eq({v: d for v, (d, _) in gn.items()}, {v: {(v, x): c for x, c in d.items()} for v, d in nodes.items()}, "folded nodes")
        mon.eq(ge, edges, "folded edges")
        mon.eq(f.number_of_outcomes, total, "number of outcomes of the folded graph")
        mon.eq(set(f.variables), set(nodes), "variables of the folded graph")
        single = all(o.single_valued() for o in out)
        for n in f.nodes:
            v = n.variable
            mon.eq(len(n.value_nodes), len(nodes[v]), f"value entries of {v!r}")
            mon.eq(set(n.values), set(voc.vars[v]), f"declared values of {v!r}")
            mon.ok(f.folded_node(v) is not None and f.folded_node(v) == n, lambda: f"lookup of {v!r}")
            mon.event("lookup")
            if single:
                un = total - sum(nodes[v].values())
                mon.eq(n.unobserved_count(), un, f"unobserved count of {v!r}")
                md = mon.accepted(attempt(n.marginal_distribution), f"marginal distribution of {v!r}")
                mon.eq(set(md), set(voc.vars[v]) | {"unobserved"}, f"keys of the marginal of {v!r}")
                for x in voc.vars[v]:
                    mon.close(md[x], Fraction(nodes[v].get(x, 0), total), f"marginal of {v!r}={x!r}")
                mon.close(md["unobserved"], Fraction(un, total), f"unobserved share of {v!r}")
                mon.close(sum(md.values()), 1, f"sum of the marginal of {v!r}")
                mon.event("marginal_values", len(md))
                mon.event("unobserved", un > 0)
        for e in f.edges:
            mon.eq(len(e.relation_edges), len(edges[e.endpoints]), f"relation entries of {e.endpoints!r}")
        for v in voc.vars:
            if v not in nodes:
                mon.ok(f.folded_node(v) is None, lambda: f"folded node for {v!r}, which never occurs")
        mon.event("folded")
        mon.event("nodes", len(nodes))
        mon.event("edges", len(edges))
        mon.event("edge_multi", sum(len(d) > 1 for d in edges.values()))
        if name:
            mon.eq(f.name, name, "name of the folded graph")
        return f, (nodes, edges)

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(1, 6), nval=(1, 4), big=.03)
        b = lib.rgb(voc, rng=rng)
        out = outcome_pool(rng, voc, gen.many(rng, [1, 2, 6, 15]), p_multi=.04, huge=.2 if rng.random() < .05 else 0)
        if rng.random() < .1:
            out[MS()] = gen.count(rng)
        g = lib.graph(rng, b, out, voc)
        mon.event("beyond_floats", sum(out.values()) > 10**400)
        mon.log("fold", out)
        f, m = self.judge(mon, g, out, voc, rng.choice([None, "F"]))
        if any(len(d) > 1 for d in m[1].values()):
            mon.nontrivial(repr(out))
        # the same outcomes again, built in another way and order: same folded graph
        f2, _ = self.judge(mon, lib.graph(rng, g.builder() if rng.random() < .0 else lib.rgb(voc, rng=rng), out, voc), out, voc)
        mon.ok(f == f2, "folded graphs of equal outcomes differ")
        mon.event("equal_graphs")
        for _ in range(2):
            src = {k: v for k, v in out.items() if k.nodes}
            ev = evidence_for(rng, voc, src)
            want = condition(out, ev)
            c = g.conditional_graph(lib.build(rng, b, ev, voc=voc))
            mon.log("fold given", ev)
            fc, mc = self.judge(mon, c, want, voc)
            mon.event("conditional")
            mon.event("empty_conditional", not want)
            mon.eq(fc == f, mc == m, "equality of folded graphs")
            mon.event("unequal_graphs", mc != m)
            mon.eq(canon_set(c.outcomes), want, "folding changed the outcomes")
        mon.eq(canon_set(g.outcomes), out, "folding changed the outcomes")
        mon.sample(f"{out}"[:400])


PROP = C10()
