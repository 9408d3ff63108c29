from copy import copy
from .. import gen, lib
from ..base import Prop
from ..lib import attempt, rel_in, rel_out, node_out, edge_out
from ..model import MS, Dir, condition
from .c08 import outcome_pool, evidence_for
from scripts.relnet.graph_components import ValueNode, RelationEdge, DirectedRelation, BuilderComponentsProvider
from scripts.relnet.variables_graph import VariableNode, VariableEdge, VariablesGraph
from scripts.relnet.folded_graph import FoldedNode, FoldedEdge, FoldedGraph
from scripts.relnet.activation_graph import ActiveNode, ActiveEdge, ActivationGraph


def vn(n):
    return ValueNode(*n)


def re_(e):
    return RelationEdge(frozenset(map(vn, e[0])), rel_in(e[1]))


class Look:
    """foreign object with the attributes of a component"""

    def __init__(self, o):
        self.__dict__.update(getattr(o, "__dict__", {}))


class C29(Prop):
    id = "C29"
    rule = ("case = a batch of near-identical descriptions of nodes, relations, edges and derived graphs over hostile labels, each built twice from scratch; all "
            "pairs are compared and hashed and the verdict is checked against equality of the plain descriptions; the network's own provider is asked for "
            "declared and undeclared parts; non-trivial when the batch holds unequal components that print alike or share their hash; distinct by batch")
    cases = {"quick": 2400, "thorough": 24000}
    need = {"equal": 20000, "unequal": 200000, "print_alike": 2000, "cross_kind": 50000, "foreign": 20000, "look_alike": 5000, "copy_refused": 10000, "opposite": 5000,
            "no_end": 5000, "given": 3000, "not_given": 5000, "graphs_equal": 3000, "graphs_unequal": 10000, "edge_only": 500, "from_graph": 1000}
    assumptions = ["labels compare and hash consistently"]

    def descriptions(self, rng, voc):
        """[(kind, content, make)]"""
        out = []
        vs = list(voc.vars)

        def node():
            v = rng.choice(vs)
            return v, rng.choice(voc.vars[v])

        def two():
            a, b = rng.sample(vs, 2)
            return (a, rng.choice(voc.vars[a])), (b, rng.choice(voc.vars[b]))

        def rel(a, b):
            return gen.relation(rng, voc, a, b, .5)
        for _ in range(rng.randint(2, 5)):
            n = node()
            out.append(("value", n, lambda n=n: ValueNode(*n)))
            v = rng.choice(vs)
            out.append(("variable", v, lambda v=v: VariableNode(v)))
            d = {x: rng.choice([0.0, .25, .5, 1.0]) for x in rng.sample(voc.vars[v], rng.randint(1, len(voc.vars[v])))}
            q = rng.random() < .5
            out.append(("active", (v, frozenset(d.items()), q), lambda v=v, d=d, q=q: ActiveNode(v, dict(d), q)))
            if len(d) > 3 or rng.random() < .2:   # differs in one entry only
                d2 = dict(d)
                x = rng.choice(sorted(d, key=repr))
                d2[x] = d[x] + .125
                out.append(("active", (v, frozenset(d2.items()), q), lambda v=v, d=d2, q=q: ActiveNode(v, dict(d), q)))
            f = {(v, x): rng.randint(1, 2) for x in rng.sample(voc.vars[v], rng.randint(1, len(voc.vars[v])))}
            out.append(("folded", (v, frozenset(f.items())), lambda v=v, f=f: FoldedNode(v, set(voc.vars[v]), {vn(k): c for k, c in f.items()}, 10)))
            if len(f) > 3 or rng.random() < .2:
                f2 = dict(f)
                f2[rng.choice(sorted(f, key=repr))] += 1
                out.append(("folded", (v, frozenset(f2.items())), lambda v=v, f=f2: FoldedNode(v, set(voc.vars[v]), {vn(k): c for k, c in f.items()}, 100)))
            if len(vs) < 2:
                continue
            a, b = two()
            for x, y in ((a, b), (b, a)):
                if rng.random() < .6:
                    lab = rng.choice(voc.rels)
                    out.append(("directed", (x[0], y[0], lab), lambda x=x, y=y, lab=lab: DirectedRelation(x[0], y[0], lab)))
            e = (frozenset((a, b)), rel(a, b))
            out.append(("relation", e, lambda e=e: re_(e)))
            if rng.random() < .5:
                e2 = (e[0], rel(a, b))
                out.append(("relation", e2, lambda e=e2: re_(e)))
            ends = frozenset((a[0], b[0]))
            out.append(("pair", ends, lambda ends=ends: VariableEdge(set(ends))))
            fe = {}
            for _ in range(rng.choice([1, 1, 2, 2, 12])):
                p, r = ((a[0], rng.choice(voc.vars[a[0]])), (b[0], rng.choice(voc.vars[b[0]])))
                fe[(frozenset((p, r)), rel(p, r))] = rng.randint(1, 2)
            out.append(("folded_pair", (ends, frozenset(fe.items())), lambda ends=ends, fe=fe: FoldedEdge(set(ends), {re_(k): c for k, c in fe.items()})))
            ae = {rel(a, b): rng.randint(1, 2) for _ in range(rng.choice([1, 1, 2, 2, 12]))}
            if rng.random() < .3:
                ae2 = dict(ae)
                ae2[rng.choice(sorted(ae, key=repr))] += 1
                out.append(("active_pair", (ends, frozenset(ae2.items()), q), lambda ends=ends, ae=ae2, q=q: ActiveEdge(set(ends), {rel_in(k): c for k, c in ae.items()}, q)))
                fe2 = dict(fe)
                fe2[rng.choice(sorted(fe, key=repr))] += 1
                out.append(("folded_pair", (ends, frozenset(fe2.items())), lambda ends=ends, fe=fe2: FoldedEdge(set(ends), {re_(k): c for k, c in fe.items()})))
            out.append(("active_pair", (ends, frozenset(ae.items()), q), lambda ends=ends, ae=ae, q=q: ActiveEdge(set(ends), {rel_in(k): c for k, c in ae.items()}, q)))
        return out

    def compare(self, mon, ds):
        objs = [(k, c, make()) for k, c, make in ds] + [(k, c, make()) for k, c, make in ds]
        alike = False
        for i, (k, c, o) in enumerate(objs):
            for k2, c2, p in objs[i:]:
                want = k == k2 and c == c2
                mon.ok((o == p) is want and (p == o) is want, lambda: f"{k} {c!r} == {k2} {c2!r} must be {want}")
                mon.ok((o != p) is (not want), lambda: f"{k} {c!r} != {k2} {c2!r} must be {not want}")
                if want:
                    mon.eq(hash(o), hash(p), f"hashes of two equal {k} {c!r}")
                    mon.ok(len({o, p}) == 1 and repr(o) == repr(p), lambda: f"equal {k} {c!r} collapse in a set and print alike")
                    mon.event("equal")
                else:
                    mon.event("unequal")
                    mon.event("cross_kind", k != k2)
                    if k == k2 and (repr(o) == repr(p) or hash(o) == hash(p)):
                        alike = True
                        mon.event("print_alike")
            for x in (None, 0, "x", c, repr(o), (o,), frozenset((o,))):
                mon.ok((o == x) is False and (o != x) is True, lambda: f"{k} {c!r} == {x!r}")
                mon.event("foreign")
            for x in (Look(o),):
                mon.ok((o == x) is False, lambda: f"{k} {c!r} equals a foreign object")
                mon.event("look_alike")
            mon.refused(attempt(copy, o), f"copying {k} {c!r}")
            mon.event("copy_refused")
        return alike, objs

    def ends(self, mon, objs):
        nodes = [(c, o) for k, c, o in objs if k == "value"]
        for k, c, o in objs:
            if k == "variable":
                mon.eq((o.variable, repr(o)), (c, f"({c})"), "variable node")
            if k == "pair":
                mon.eq((o.endpoints, repr(o)), (c, "(%s)--(%s)" % tuple(sorted(map(str, c)))), "variable edge")
            if k == "directed":
                mon.eq((o.source_variable, o.target_variable, o.relation, repr(o)), c + (f"{c[2]}[{c[0]}->{c[1]}]",), "directed relation")
            if k != "relation":
                continue
            mon.eq(edge_out(o), c, "content of a relation edge")
            a, b = tuple(c[0])
            mon.ok({node_out(o.a), node_out(o.b)} == {a, b}, "ends of a relation edge")
            for x, y in ((a, b), (b, a)):
                mon.ok(o.is_endpoint(vn(x)) is True, "end not recognised")
                mon.eq(node_out(mon.accepted(attempt(o.opposite_endpoint, vn(x)), "opposite end")), y, f"opposite of {x!r} in {c!r}")
                mon.event("opposite")
            for n, p in nodes:
                if n not in c[0]:
                    mon.ok(o.is_endpoint(p) is False, lambda: f"{n!r} taken as an end of {c!r}")
                    mon.refused(attempt(o.opposite_endpoint, p), f"opposite of {n!r} in {c!r}")
                    mon.event("no_end")

    def graphs(self, mon, rng, voc, ds, provider):
        for cls, nk, ek in ((VariablesGraph, "variable", "pair"), (FoldedGraph, "folded", "folded_pair"), (ActivationGraph, "active", "active_pair")):
            ns, es = [], []
            for k, c, make in ds:
                if k == nk and all((c if nk == "variable" else c[0]) != (x if nk == "variable" else x[0]) for x, _ in ns):
                    ns.append((c, make))
                if k == ek:
                    es.append((c, make))
            pool = []
            for j in range(4):
                n = rng.sample(ns, rng.randint(0, len(ns)))
                e = rng.sample(es, rng.randint(0, len(es)))
                if j and rng.random() < .5:
                    n = pool[0][0]
                elif j and rng.random() < .5:
                    e = pool[0][1]
                pool.append((n, e))
            made = []
            for n, e in pool + [rng.choice(pool)]:
                g = cls(provider, 10, {m() for _, m in n}, {m() for _, m in e}, f"G{rng.randrange(5)}")
                made.append((({c for c, _ in n}, {c for c, _ in e}), g))
            for i, (c, g) in enumerate(made):
                for c2, h in made[i:]:
                    want = c == c2
                    mon.ok((g == h) is want and (h == g) is want and (g != h) is (not want), lambda: f"{cls.__name__} {c!r} == {c2!r} must be {want}")
                    mon.event("graphs_equal" if want else "graphs_unequal")
                    mon.event("edge_only", not want and c[0] == c2[0])
                mon.ok((g == g.name) is False and (g == None) is False and (g == Look(g)) is False, "graph compared with something else")  # noqa: E711
                mon.eq(set(g.variables), {x if nk == "variable" else x[0] for x in c[0]}, "variables of the graph")
                mon.eq(repr(g), g.name, "representation of a derived graph")
                mon.refused(attempt(copy, g), "copying a derived graph")

    def provider(self, mon, rng, voc):
        p = BuilderComponentsProvider({v: set(x) for v, x in voc.vars.items()}, set(voc.rels))

        def declared():
            mon.eq(p.variables(), frozenset((v, frozenset(x)) for v, x in voc.vars.items()), "declared variables")
            mon.eq(p.relations(), frozenset(voc.rels), "declared relations")
        declared()
        made = {}
        nobody = gen.Same(99)
        for _ in range(12):
            v = rng.choice(list(voc.vars))
            x = rng.choice(voc.vars[v])
            kind = rng.choice(["node", "node", "edge", "edge", "edge", "bad_var", "bad_value", "bad_rel", "bad_dir", "swapped", "not_made"])
            if kind == "node":
                n = mon.accepted(attempt(p.get_node, v, x), f"node {v!r}={x!r}")
                mon.eq((node_out(n), n == vn((v, x))), ((v, x), True), "node given")
                made[(v, x)] = n
                mon.event("given")
            elif kind == "bad_var":
                mon.refused(attempt(p.get_node, nobody, x), "undeclared variable")
                mon.event("not_given")
            elif kind == "bad_value":
                others = [y for w in voc.vars for y in voc.vars[w] if y not in voc.vars[v]] + [nobody]
                mon.refused(attempt(p.get_node, v, rng.choice(others)), "undeclared value")
                mon.event("not_given")
            elif kind == "swapped":
                if x not in voc.vars or v not in voc.vars[x]:
                    mon.refused(attempt(p.get_node, x, v), "value for a variable")
                    mon.event("not_given")
            else:
                free = [(w, y) for w in voc.vars for y in voc.vars[w]]
                pairs = [(a, b) for a in made for b in made if a[0] != b[0]]
                if kind == "not_made":
                    pairs = [(a, b) for a in free for b in free if a[0] != b[0] and (a not in made or b not in made)]
                if not pairs:
                    continue
                a, b = rng.choice(pairs)
                na, nb = made.get(a) or vn(a), made.get(b) or vn(b)
                r = gen.relation(rng, voc, a, b, .5)
                if kind == "bad_rel":
                    r = rng.choice([nobody, Dir(a[0], b[0], nobody)])
                elif kind == "bad_dir":
                    o = rng.choice([w for w in voc.vars if w not in (a[0], b[0])] + [nobody])
                    r = rng.choice([Dir(o, b[0], rng.choice(voc.rels)), Dir(a[0], o, rng.choice(voc.rels))])
                res = attempt(p.get_edge, frozenset((na, nb)), rel_in(r))
                if kind == "edge":
                    e = mon.accepted(res, f"relation {a!r} {r!r} {b!r}")
                    mon.eq(edge_out(e), (frozenset((a, b)), r), "relation given")
                    mon.event("given")
                else:
                    mon.refused(res, f"{kind}: {a!r} {r!r} {b!r}")
                    mon.event("not_given")
        declared()

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(1, 4), nval=(1, 3), big=.05)
        ds = self.descriptions(rng, voc)
        mon.log("components", [(k, c) for k, c, _ in ds])
        alike, objs = self.compare(mon, ds)
        self.ends(mon, objs)
        p = BuilderComponentsProvider({v: set(x) for v, x in voc.vars.items()}, set(voc.rels))
        self.graphs(mon, rng, voc, ds, p)
        self.provider(mon, rng, voc)
        # components handed out by networks
        b = lib.rgb(voc, rng=rng)
        out = outcome_pool(rng, voc, 4)
        g = lib.graph(rng, b, out, voc)
        for s in g.outcomes.samples():
            for n in s.nodes:
                mon.ok(n == vn(node_out(n)) and hash(n) == hash(vn(node_out(n))) and n in s.nodes, "node of a sample")
                mon.refused(attempt(copy, n), "copying a node")
            for e in s.edges:
                f = re_(edge_out(e))
                mon.ok(e == f and f == e and hash(e) == hash(f) and f in s.edges and e.is_endpoint(vn(node_out(e.a))), "relation of a sample")
                mon.refused(attempt(copy, e), "copying a relation")
            mon.refused(attempt(copy, s), "copying a sample")
            mon.event("from_graph")
        f = g.folded_graph()
        mon.ok(f == g.folded_graph("other") and not (f != g.folded_graph()), "folding twice")
        for x in (g, f):
            mon.refused(attempt(copy, x), "copying a graph")
        ev = evidence_for(rng, voc, {k: v for k, v in out.items() if k.nodes})
        if ev.nodes and condition(out, ev):
            c = g.conditional_graph(lib.build(rng, b, ev, "add", voc))
            mon.refused(attempt(copy, c), "copying a conditional graph")
            a = c.activation_graph()
            mon.ok(a == c.activation_graph(name="other") and a == c.activation_graph(), "activating twice")
            mon.ok((a == f) is False or not (a.nodes or a.edges), "activation graph equals a folded graph")
            mon.refused(attempt(copy, a), "copying an activation graph")
        if alike:
            mon.nontrivial(repr([(k, c) for k, c, _ in ds]))
        mon.sample([(k, c) for k, c, _ in ds][:8])


PROP = C29()
