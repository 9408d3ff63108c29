import os
from .. import gen, lib, obs
from ..base import Prop
from ..lib import attempt, canon, canon_set, rel_in, rel_out, node_out, edge_out
from ..model import MS, condition, folded
from .c08 import outcome_pool, evidence_for


def ntext(n):
    return f"({n[0]}_{n[1]})"


def etext(e):
    a, b = sorted(ntext(n) for n in e[0])
    return f"{a}--{{{rel_in(e[1])}}}--{b}"


def text(ms):
    return "{" + "; ".join(sorted(etext(e) for e in ms.edges) if ms.edges else [ntext(n) for n in ms.nodes]) + "}"


def view(ms):
    if ms.edges:
        return frozenset((ep, r) for ep, r in ms.edges)
    return next(iter(ms.nodes)) if ms.nodes else None


def view_out(v):
    return frozenset((ep, rel_out(r)) for ep, r in v) if isinstance(v, frozenset) else v


class C20(Prop):
    id = "C20"
    rule = ("case = samples and graphs over hostile labels (separators, equal text, mixed types, empty strings); every view, listing, name, representation and "
            "description is compared with one recomputed from plain content, and every view or builder is used to rebuild an equal object; non-trivial when "
            "the graph holds at least three outcomes with relations; distinct by outcomes")
    cases = {"quick": 5200, "thorough": 41600}
    need = {"sample": 1700, "rebuilt": 8000, "graph": 1000, "conditional": 1000, "named": 1000, "auto_named": 2000, "directed": 1500, "folded_text": 3000,
            "active_text": 2000, "printed_lines": 5000, "wide": 15, "deep": 8}

    def sample(self, mon, rng, b, g, m, s, name):
        mon.eq(s.text_view(), text(m), f"text view of {m}")
        want = name if name else text(m)
        if name:
            mon.event("named")
        else:
            mon.event("auto_named")
        mon.eq((s.name, repr(s), str(s)), (want,) * 3, f"name of {m}")
        v = s.edges_set_view()
        mon.eq(view_out(v), view(m), f"edge-set view of {m}")
        if m.edges:
            r = mon.accepted(attempt(g.sample_builder().build_from_edges, v), f"rebuilding {m} from its edge-set view")
            mon.eq(len(v), len(m.edges), "entries of the edge-set view")
        elif m.nodes:
            r = g.sample_builder().build_single_node(*v)
        else:
            r = g.sample_builder().build_empty()
        mon.ok(r == s and hash(r) == hash(s) and canon(r) == m, lambda: f"{m} rebuilt from its view is {canon(r)}")
        mon.event("rebuilt")
        if m.nodes:
            x = s.builder().build()
            mon.ok(x == s and canon(x) == m and x.name == s.name, lambda: f"{m} rebuilt from its builder is {x}")
            x = s.builder().set_name("renamed").build()
            mon.ok(x == s and x.name == "renamed", "renamed copy")
            x = s.builder().set_name(None).build()
            mon.eq(x.name, text(m), "automatic name after dropping the name")
            t = s.builder()
            mon.eq([t.set_name(n).build().name for n in ("one", None, "two")], ["one", text(m), "two"], "names of samples built one after the other from one builder")
            mon.event("rebuilt", 2)
        mon.eq(sorted(map(repr, s.nodes)), sorted(map(ntext, m.nodes)), f"representations of the nodes of {m}")
        mon.eq(sorted(map(repr, s.edges)), sorted(map(etext, m.edges)), f"representations of the relations of {m}")
        for n in s.nodes:
            mon.eq(n.var_val(), node_out(n), "variable and value of a node")
            mon.eq(n.string_id, f"{n.variable}_{n.value}", "string id")
        for e in s.edges:
            mon.eq({node_out(e.a), node_out(e.b)}, {node_out(x) for x in e.endpoints}, "both ends of a relation")
            mon.ok(e.a != e.b and e.opposite_endpoint(e.a) == e.b and e.opposite_endpoint(e.b) == e.a and e.is_endpoint(e.a) and e.is_endpoint(e.b), "ends of a relation")
            mon.event("directed", isinstance(e.relation, lib.DirectedRelation))
        mon.event("sample")

    def listing(self, mon, x, out, names, what):
        mon.eq(x.print_samples(), os.linesep.join(sorted(f"{names[o]}({c})" for o, c in out.items())), f"{what}: printed samples")
        mon.event("printed_lines", len(out))
        mon.eq(repr(x.outcomes), "{\n" + "\n".join(sorted(f"    {names[o]}: {c}" for o, c in out.items())) + "\n}", f"{what}: representation of the set")
        es = x.outcomes_as_edges_sets()
        mon.eq(frozenset((view_out(e), c) for e, c in es), frozenset((view(o), c) for o, c in out.items()), f"{what}: edge-set listing")
        mon.eq(len(es), len(out), f"{what}: entries of the edge-set listing")
        vs = {}
        for o in out:
            for v, val in o.nodes:
                vs.setdefault(v, set()).add(val)
        mon.eq(x.included_variables(), frozenset((v, frozenset(s)) for v, s in vs.items()), f"{what}: occurring variables and values")
        rels = {r for o in out for _, r in o.edges}
        mon.eq(frozenset(map(rel_out, x.included_relations())), frozenset(rels), f"{what}: occurring relations")
        f = x.folded_graph()
        nodes, edges = folded(out)
        mon.eq(sorted(map(repr, f.nodes)), sorted("(%s:{%s})" % (v, ",".join(sorted(f"{a}({c})" for a, c in d.items()))) for v, d in nodes.items()),
               f"{what}: representations of folded nodes")
        want = []
        for k, d in edges.items():
            a, c = sorted(str(v) for v in k)
            want.append("(%s)--{%s}--(%s)" % (a, ",".join(sorted(f"{rel_in(r)}({n})" for (_, r), n in d.items())), c))
        mon.eq(sorted(map(repr, f.edges)), sorted(want), f"{what}: representations of folded edges")
        mon.event("folded_text", len(nodes) + len(edges))
        return vs, rels

    def case(self, mon, rng, i, tier):
        wide = rng.random() < .01
        voc = gen.big_vocab(rng, rng.randint(32, 70), rng.randint(1, 20), 4, words=rng.random() < .5) if wide else gen.vocab(rng, nv=(1, 5), nval=(1, 3), big=.03)
        b = lib.rgb(voc, rng=rng)
        deep = not wide and rng.random() < .004
        if deep:
            voc = gen.big_vocab(rng, rng.randint(12, 30), rng.randint(6, 20), 4, words=rng.random() < .5)
            b = lib.rgb(voc, rng=rng)
        out = ({gen.msample(rng, voc, 1, 3): gen.count(rng) for _ in range(rng.randint(260, 420))} if deep else
               {gen.msample(rng, voc, 31, density=rng.choice([0, .05])): gen.count(rng) for _ in range(3)} if wide else
               outcome_pool(rng, voc, gen.many(rng, [1, 3, 8]), p_multi=.03))
        mon.event("wide", wide)
        mon.event("deep", deep)
        if rng.random() < .1:
            out[MS()] = gen.count(rng)
        names, samples = {}, {}
        for k, m in enumerate(sorted(out, key=repr)):
            name = rng.choice([f"N{k}", f"N{k}", f"{{N{k}}}", f"{{(N{k})--{{r}}--(x)}}"]) if rng.random() < .3 else None
            x = b.sample_builder().set_name(name)
            if not m.nodes:
                s = x.build_empty()
            elif not m.edges:
                s = x.build_single_node(*next(iter(m.nodes)))
            elif rng.random() < .5:
                s = x.build_from_edges(lib.edges_in(m.edges))
            else:
                for ep, r in gen.ordered_edges(rng, m.edges):
                    lib.add_edge(rng, x, ep, r)
                s = x.build()
            names[m] = name or text(m)
            samples[m] = (s, name)
            b.add_outcome(s, out[m])
        gname = rng.choice([None, "G", "g 1"])
        if rng.random() < .3:   # names given along the way do not stick
            h = b.set_name("earlier").build()
            mon.eq((h.name, b.build().name), ("earlier",) * 2, "name given to the builder")
            mon.event("renamed_builder")
        g = b.set_name(gname).build()
        mon.log("graph", out)
        mon.eq((g.name, repr(g)), (gname or f"relation_graph_with_{sum(out.values())}_outcomes",) * 2, "name of the graph")
        for m, (s, name) in samples.items():
            self.sample(mon, rng, b, g, m, s, name)
        self.listing(mon, g, out, names, "graph")
        d = g.describe()
        mon.eq({k: d.get(k) for k in ("name", "number_of_variables", "number_of_relations", "number_of_outcomes", "variables", "relations")},
               {"name": g.name, "number_of_variables": len(voc.vars), "number_of_relations": len(voc.rels), "number_of_outcomes": sum(out.values()),
                "variables": {str(v) for v in voc.vars}, "relations": {str(r) for r in voc.rels}}, "description of the graph")
        mon.eq(g.variables, frozenset((v, frozenset(x)) for v, x in voc.vars.items()), "declared variables")
        mon.eq(g.relations, frozenset(voc.rels), "declared relations")
        g2 = g.builder().build()
        mon.ok(g2.outcomes == g.outcomes and hash(g2.outcomes) == hash(g.outcomes) and canon_set(g2.outcomes) == out and g2.name == g.name
               and g2.variables == g.variables and g2.relations == g.relations, "graph rebuilt from its own builder")
        g3 = g.relation_graph(rng.choice([None, "other"]))
        mon.ok(g3.outcomes == g.outcomes and g3.name in (g.name, "other"), "graph converted to a relation graph")
        mon.eq(canon_set(g.outcomes.builder().build()), out, "set rebuilt from its builder")
        self.listing(mon, g2, out, names, "rebuilt graph")
        mon.event("graph")
        for _ in range(2):
            src = {k: v for k, v in out.items() if k.nodes}
            ev = evidence_for(rng, voc, src)
            want = condition(out, ev)
            e = lib.build(rng, b, ev, "add", voc)
            c = g.conditional_graph(e, rng.choice([None, "C"]))
            vs, rels = self.listing(mon, c, want, names, "conditional graph")
            d = c.describe()
            mon.eq({k: d.get(k) for k in ("query", "number_outcomes", "included_variables", "included_relations")},
                   {"query": text(ev), "number_outcomes": sum(want.values()), "included_variables": {str(v) for v in vs},
                    "included_relations": {str(rel_in(r)) for r in rels}}, "description of the conditional graph")
            r = c.relation_graph()
            mon.ok(canon_set(r.outcomes) == want and r.name == c.name and r.variables == g.variables and r.relations == g.relations,
                   "conditional graph converted to a relation graph")
            mon.eq(c.relation_graph("R2").name, "R2", "name given at conversion")
            self.listing(mon, r, want, names, "converted graph")
            if want:
                mon.eq(canon_set(c.builder().build().outcomes), want, "graph rebuilt from the builder of a conditional graph")
            if want and ev.nodes and all(o.single_valued() for o in want) and ev.single_valued():
                a = c.activation_graph()
                for n in a.nodes:
                    mon.eq(repr(n), "%s(%s:{%s})" % ("Q" if n.in_query else "", n.variable, ",".join(sorted(f"{v}({w})" for v, w in n.values))), "active node text")
                    mon.event("active_text")
                for x in a.edges:
                    p, q = sorted(str(v) for v in x.endpoints)
                    mon.eq(repr(x), "(%s)--%s{%s}--(%s)" % (p, "Q" if x.in_query else "", ",".join(sorted(f"{r}({n})" for r, n in x.relations)), q), "active edge text")
                    mon.event("active_text")
            mon.event("conditional")
        if sum(bool(o.edges) for o in out) >= 3:
            mon.nontrivial(repr(sorted(out.items(), key=repr)))
        mon.sample(g.print_samples()[:400])


PROP = C20()
