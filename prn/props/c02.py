from copy import copy
from .. import gen, lib
from ..base import Prop
from ..lib import canon, attempt
from ..model import MS, Dir, edges_connected


UNKNOWN = "unknown-label-zz"


def unknown(rng, declared):
    """a label that was not declared"""
    return rng.choice([UNKNOWN] * 3 + [x for x in (None, "", 0, False, -1, (), "None", "u") if x not in declared])


def check_attrs(mon, s, ms):
    mon.eq(canon(s), ms, "content of built sample")
    mon.eq(s.included_variables, ms.vars(), "variables of built sample")
    mon.eq(set(s.values()), ms.values(), "values of built sample")
    mon.ok(bool(s.is_single_node) is (not ms.edges), lambda: f"single-node flag of {ms}: {s.is_single_node}")
    single = ms.single_valued()
    for v, x in ms.nodes:
        mon.ok(s.have_value(v, x) and s.have_variable(v), lambda: f"presence of {v!r}={x!r} in {ms}")
        got = s.value_for_variable(v)
        mon.ok((v, got) in ms.nodes and (not single or got is x or got == x), lambda: f"value of {v!r} in {ms}: {got!r}")
    mon.ok(s.value_for_variable(UNKNOWN) is None and not s.have_variable(UNKNOWN), "value of a variable that is not there")
    mon.ok(bool(s.is_k_0) is (not ms.nodes), lambda: f"empty flag of {ms}: {s.is_k_0}")


class Model:
    """reference for relation-by-relation construction"""

    def __init__(self, voc):
        self.voc = voc
        self.ms = MS()

    def valid_parts(self, endpoints, rel):
        eps = set(endpoints)
        if len(eps) != 2 or len({v for v, _ in eps}) != 2:
            return False
        for v, x in eps:
            if v not in self.voc.vars or x not in self.voc.vars[v]:
                return False
        if isinstance(rel, Dir):
            vs = {v for v, _ in eps}
            return rel.label in self.voc.rels and rel.source in vs and rel.target in vs
        return rel in self.voc.rels

    def add(self, endpoints, rel):
        if not self.valid_parts(endpoints, rel):
            return False
        eps = frozenset(endpoints)
        if self.ms.nodes and not (eps & self.ms.nodes):
            return False
        if eps in self.ms.pair_map():
            return False
        self.ms = MS(self.ms.nodes | eps, self.ms.edges | {(eps, rel)})
        return True


def random_request(rng, voc, ms):
    """(endpoints, relation) - valid or invalid in one of many ways"""
    kind = rng.choice(["ok"] * 6 + ["dup", "samevar", "unkvar", "unkval", "unkrel", "one", "three", "dirbad", "free", "dirok", "foreignval", "dup_dir"])
    nodes = sorted(ms.nodes, key=repr)
    vs = list(voc.vars)

    def node(v=None):
        v = rng.choice(vs) if v is None else v
        return (v, rng.choice(voc.vars[v]))
    a = rng.choice(nodes) if nodes and rng.random() < .85 else node()
    others = [v for v in vs if v != a[0]]
    bn = (rng.choice(nodes) if nodes and rng.random() < .3 else node(rng.choice(others))) if others else node()
    rel = gen.relation(rng, voc, a, bn, .25)
    if kind == "ok" or kind == "free":
        if kind == "free":
            a = node()
        return {a, bn}, gen.relation(rng, voc, a, bn, .25)
    if kind in ("dup", "dup_dir") and ms.edges:
        ep, r = rng.choice(sorted(ms.edges, key=repr))
        if kind == "dup_dir" and isinstance(r, Dir):
            return set(ep), Dir(r.target, r.source, r.label)
        return set(ep), (r if rng.random() < .5 else rng.choice(voc.rels))
    if kind == "samevar":
        return {a, (a[0], rng.choice(voc.vars[a[0]]))}, rel
    if kind == "unkvar":
        return {a, (unknown(rng, voc.vars), rng.choice(voc.vars[a[0]]))}, rng.choice(voc.rels)
    if kind == "unkval":
        return {a, (bn[0], unknown(rng, voc.vars[bn[0]]))}, rng.choice(voc.rels)
    if kind == "foreignval":
        return {a, (bn[0], rng.choice(voc.vars[a[0]]))}, rng.choice(voc.rels)
    if kind == "unkrel":
        return {a, bn}, (unknown(rng, voc.rels) if rng.random() < .5 else Dir(a[0], bn[0], unknown(rng, voc.rels)))
    if kind == "one":
        return {a}, rng.choice(voc.rels)
    if kind == "three":
        return {a, bn, node()}, rng.choice(voc.rels)
    if kind == "dirbad":
        far = [v for v in vs if v not in (a[0], bn[0])]
        v = rng.choice(far) if far else UNKNOWN
        return {a, bn}, (Dir(v, bn[0], rng.choice(voc.rels)) if rng.random() < .5 else Dir(a[0], v, rng.choice(voc.rels)))
    return {a, bn}, Dir(a[0], bn[0], rng.choice(voc.rels))


def do_request(rng, sb, endpoints, rel):
    if isinstance(rel, Dir) and len(endpoints) == 2 and rng.random() < .5:
        e = list(endpoints)
        if {rel.source, rel.target} == {e[0][0], e[1][0]} and e[0][0] != e[1][0]:
            s, t = (e[0], e[1]) if e[0][0] == rel.source else (e[1], e[0])
            return attempt(sb.add_directed_relation, s, t, rel.label)
    return attempt(sb.add_relation, set(endpoints), lib.rel_in(rel))


class C02(Prop):
    id = "C02"
    rule = ("case = one history of valid and invalid construction requests (duplicate pair, same variable, unknown variable/value/"
            "relation, wrong arity, foreign direction, disconnected) against a reference acceptor, plus edge-set builds and "
            "connectivity queries; non-trivial when both accepted and refused requests occurred; distinct by the request history")
    cases = {"quick": 9600, "thorough": 76800}
    need = {"accepted": 5000, "refused": 4000, "edge_set_ok": 500, "edge_set_refused": 500, "conn_query": 2000, "multi_valued": 50, "from_sample": 500, "from_single": 300, "edge_set_onto_part": 1500}

    def fixed(self):
        return [self.big_chain, self.vocabulary]

    def big_chain(self, mon, rng):
        n = 2500
        voc = gen.Vocab({i: [0] for i in range(n)}, ["r"], "chain")
        b = lib.rgb(voc)
        edges = [(frozenset(((i, 0), (i + 1, 0))), "r") for i in range(n - 1)]
        s = mon.accepted(attempt(b.sample_builder().build_from_edges, lib.edges_in(edges)), "chain of 2500 nodes")
        check_attrs(mon, s, MS((), edges))
        cut = edges[:1200] + edges[1201:]
        mon.refused(attempt(b.sample_builder().build_from_edges, lib.edges_in(cut)), "broken chain")
        mon.event("big_chain")
        mon.nontrivial("bigchain")

    def vocabulary(self, mon, rng):
        R = lib.RelationGraphBuilder
        mon.refused(attempt(R, {}, {"r"}), "empty vocabulary")
        mon.refused(attempt(R, {"a": {1}}, set()), "no relations")
        mon.refused(attempt(R, {"a": set()}, {"r"}), "variable without values")
        mon.refused(attempt(R, {"a": {1}, "b": set()}, {"r"}), "second variable without values")
        mon.refused(attempt(R), "nothing given")
        b = R({"a": {1}, "b": {2}}, {"r"})
        mon.refused(attempt(b.sample_builder().build), "building an empty builder")
        mon.refused(attempt(b.build), "building a graph without outcomes")
        check_attrs(mon, b.sample_builder().build_empty(), MS())

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(1, 6), nval=(1, 4), big=.03) if i % 50 else gen.big_vocab(rng, 25)
        b = lib.rgb(voc, rng=rng)
        sb = b.sample_builder()
        m = Model(voc)
        acc = ref = 0
        hist = []
        if rng.random() < .15:      # go on from a sample that was built before
            first = gen.msample(rng, voc) if rng.random() < .4 else MS([(v, rng.choice(voc.vars[v])) for v in [rng.choice(list(voc.vars))]])
            s = lib.build(rng, b, first, voc=voc)
            sb, m.ms = (s.builder() if rng.random() < .7 else b.sample_builder().join_sample(s)), first
            hist.append(repr(first))
            mon.event("from_sample")
            mon.event("from_single", not first.edges)
        for step in range(rng.choice([4, 8, 15, 30])):
            eps, rel = random_request(rng, voc, m.ms)
            before = m.ms
            want = m.add(eps, rel)
            mon.log("add", sorted(map(repr, eps)), rel, "->", want)
            got = do_request(rng, sb, eps, rel)
            hist.append((sorted(map(repr, eps)), repr(rel), want))
            if want:
                r = mon.accepted(got, f"relation {rel!r} between {eps!r} on {before}")
                mon.ok(r is sb, "construction call must return the builder")
                acc += 1
                if not m.ms.single_valued():
                    mon.event("multi_valued")
            else:
                mon.refused(got, f"relation {rel!r} between {eps!r} on {before}")
                ref += 1
            if m.ms.nodes and rng.random() < .5:
                check_attrs(mon, sb.build(), m.ms)
            if rng.random() < .05:
                sb = copy(sb)
        if m.ms.nodes:
            check_attrs(mon, sb.build(), m.ms)
            mon.ok(m.ms.connected(), "model invariant")
        else:
            mon.refused(attempt(sb.build), "building an empty builder")
        mon.event("accepted", acc)
        # single nodes
        for _ in range(2):
            v = rng.choice(list(voc.vars) + [unknown(rng, voc.vars)])
            x = rng.choice((voc.vars.get(v) or [0]) + [unknown(rng, voc.vars.get(v) or [0])])
            got = attempt(b.sample_builder().build_single_node, v, x)
            if v in voc.vars and x in voc.vars[v]:
                check_attrs(mon, mon.accepted(got, f"single node {v!r}={x!r}"), MS([(v, x)]))
            else:
                mon.refused(got, f"single node {v!r}={x!r}")
        # edge sets
        for _ in range(3):
            self.edge_set(mon, rng, voc, b)
        if acc and ref:
            mon.nontrivial(voc.sig(), hist)
        mon.sample(hist[:8])

    def edge_set(self, mon, rng, voc, b):
        m = Model(voc)
        kind = rng.choice(["ok", "ok", "two", "dup", "bad", "empty", "multi"])
        base = gen.msample(rng, voc) if kind != "multi" else gen.multi_msample(rng, voc)
        edges = set(base.edges)
        if kind == "two":
            edges |= gen.msample(rng, voc).edges
        if kind == "dup" and edges:
            ep, r = rng.choice(sorted(edges, key=repr))
            a, c = tuple(ep)
            edges.add((ep, gen.relation(rng, voc, a, c, .5)))
        if kind == "bad":
            eps, rel = random_request(rng, voc, base)
            edges.add((frozenset(eps), rel))
        if kind == "empty":
            edges = set()
        pairs = [ep for ep, _ in edges]
        valid = bool(edges) and all(m.valid_parts(ep, r) for ep, r in edges) and len(set(pairs)) == len(pairs)
        if edges and all(len(ep) == 2 for ep in pairs):
            conn = edges_connected(edges)
            got = mon.accepted(attempt(lib.SampleGraphBuilder.is_edges_connected, lib.edges_in(edges)), "connectivity query")
            mon.ok(bool(got) is conn, lambda: f"connectivity of {sorted(map(repr, edges))} must be {conn}")
            mon.event("conn_query")
        else:
            conn = False
        for ep in pairs:
            good = len(ep) == 2 and len({v for v, _ in ep}) == 2
            got = attempt(lib.SampleGraphBuilder.validate_endpoints, frozenset(ep))
            mon.accepted(got, f"endpoints {ep!r}") if good else mon.refused(got, f"endpoints {ep!r}")
        waive = rng.random() < .4
        want = valid and (conn or waive)
        sb = b.sample_builder()
        got = attempt(sb.build_from_edges, lib.edges_in(edges), False) if waive else attempt(sb.build_from_edges, lib.edges_in(edges))
        what = f"edge set {sorted(map(repr, edges))} (connectivity check {'waived' if waive else 'on'})"
        if want:
            check_attrs(mon, mon.accepted(got, what), MS((), edges))
            mon.event("edge_set_ok")
        else:
            mon.refused(got, what)
            mon.event("edge_set_refused")
        # an edge set for a builder that holds a part of the sample already, and going on from there
        world = gen.msample(rng, voc, kmin=2)
        if not world.edges:
            return
        part = gen.subsample(rng, world)
        sb = b.sample_builder().join_sample(lib.build(rng, b, part, voc=voc))
        more = {e for e in gen.subsample(rng, world).edges}
        if more and edges_connected(more) and part.nodes & {n for ep, _ in more for n in ep}:
            s = mon.accepted(attempt(sb.build_from_edges, lib.edges_in(more)), lambda: f"edge set {more} for a builder holding {part}")
            both = part.union(MS((), more))
            check_attrs(mon, s, both)
            left = [e for e in world.edges if e not in both.edges]
            if left:
                ep, r = rng.choice(sorted(left, key=repr))
                if ep & both.nodes:
                    mon.accepted(attempt(lib.add_edge, rng, sb, ep, r), lambda: f"relation {(ep, r)} after the edge set")
                    both = both.union(MS(ep, [(ep, r)]))
            old = rng.choice(sorted(both.edges, key=repr))
            mon.refused(attempt(sb.add_relation, set(old[0]), lib.rel_in(old[1])), lambda: f"relation {old} given once more after the edge set")
            check_attrs(mon, sb.build(), both)
            mon.event("edge_set_onto_part")


PROP = C02()
