"""Executable reference model: plain data only (tuples, frozensets, ints, Fractions).

Nothing here imports the code under test.
A node is (variable, value); an edge is (frozenset of two nodes, relation); a relation is a plain label or a Dir.
"""
from dataclasses import dataclass
from fractions import Fraction
from itertools import combinations, product
from typing import Any


@dataclass(frozen=True)
class Dir:
    """directed relation"""
    source: Any
    target: Any
    label: Any

    def __repr__(self):
        return f"Dir({self.label!r}:{self.source!r}->{self.target!r})"


class MS:
    """model of a sample"""
    __slots__ = ("nodes", "edges", "_h")

    def __init__(self, nodes=(), edges=()):
        self.edges = frozenset(edges)
        self.nodes = frozenset(nodes) | frozenset(n for ep, _ in self.edges for n in ep)
        self._h = hash((self.nodes, self.edges))

    def __eq__(self, o):
        return isinstance(o, MS) and self.nodes == o.nodes and self.edges == o.edges

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.edges:
            return "MS{" + "; ".join(sorted(
                "--".join(sorted(repr(n) for n in ep)) + f"[{r!r}]" for ep, r in self.edges)) + "}"
        return "MS{" + ", ".join(sorted(repr(n) for n in self.nodes)) + "}"

    def __reduce__(self):   # the cached hash is only valid in one process
        return MS, (self.nodes, self.edges)

    @property
    def hash(self):
        return frozenset([("n", n) for n in self.nodes] + [("e", e) for e in self.edges])

    def vars(self):
        return frozenset(v for v, _ in self.nodes)

    def single_valued(self):
        return len(self.vars()) == len(self.nodes)

    def values(self):
        return set(self.nodes)

    def value_of(self, var):
        for v, x in self.nodes:
            if v == var:
                return x
        return None

    def union(self, o):
        return MS(self.nodes | o.nodes, self.edges | o.edges)

    def contains(self, o):
        return o.nodes <= self.nodes and o.edges <= self.edges

    def pair_map(self):
        return {ep: r for ep, r in self.edges}

    def conflict(self, o):
        a, b = self.pair_map(), o.pair_map()
        return any(ep in b and b[ep] != r for ep, r in a.items())

    def endpoint_vars(self):
        return frozenset(frozenset(v for v, _ in ep) for ep, _ in self.edges)

    def connected(self):
        return edges_connected(self.edges, self.nodes)

    def similarity(self, o):
        a, b = self.hash, o.hash
        if not (a | b):
            return Fraction(1)
        return Fraction(len(a & b), len(a | b))

    def replaced(self, rep):
        def n(x):
            return (x[0], rep[x[0]]) if x[0] in rep else x
        return MS((n(x) for x in self.nodes), ((frozenset(n(x) for x in ep), r) for ep, r in self.edges))

    def layers(self, center, rel_ok):
        """[(node -> set of edges leading to the previous layers)] by distance from center"""
        inside = set(center)
        out = []
        while True:
            belt = {}
            for ep, r in self.edges:
                if rel_ok(r):
                    d = [x for x in ep if x not in inside]
                    if len(d) == 1:
                        belt.setdefault(d[0], set()).add((ep, r))
            if not belt:
                return out
            out.append(belt)
            inside |= set(belt)


def edges_connected(edges, nodes=None):
    adj = {}
    for ep, _ in edges:
        a, b = tuple(ep)
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    allnodes = set(adj) | set(nodes or ())
    if not allnodes:
        return False
    seen, todo = set(), [next(iter(allnodes))]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(adj.get(x, ()))
    return seen == allnodes


def join_verdict(base: MS, s: MS):
    """None when the join must be refused, else the union"""
    if not s.nodes:
        return None
    if not s.edges:
        if base.nodes and not s.nodes <= base.nodes:
            return None
        return base.union(s)
    if base.nodes and not (base.nodes & s.nodes):
        return None
    if base.conflict(s):
        return None
    allnodes = base.nodes | s.nodes
    new = s.nodes - base.nodes
    for v, x in new:
        if sum(1 for w, _ in allnodes if w == v) > 1:
            return None
    return base.union(s)


def condition(outcomes, ev: MS):
    return {o: c for o, c in outcomes.items() if o.contains(ev) or not (o.vars() & ev.vars())}


def marginals(outcomes, variables, unobserved):
    total = sum(outcomes.values())
    acc = {}
    for o, c in outcomes.items():
        for v, x in o.nodes:
            if v in variables:
                acc.setdefault(v, {})
                acc[v][x] = acc[v].get(x, 0) + c
    out = {}
    for v, d in acc.items():
        s = sum(d.values())
        if unobserved:
            r = {x: Fraction(c, total) for x, c in d.items()}
            r["u"] = Fraction(total - s, total)
        else:
            r = {x: Fraction(c, s) for x, c in d.items()}
        out[v] = r
    return out


def groups(outcomes):
    """list of (variables, {sample: count}); transitive closure of sharing a related variable pair"""
    items = list(outcomes.items())
    keys = [o.endpoint_vars() if o.edges else None for o, _ in items]
    parent = list(range(len(items)))

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i
    owner = {}
    for i, (o, _) in enumerate(items):
        for k in ([("p", p) for p in keys[i]] if keys[i] is not None else [("s", o.vars())]):
            if k in owner:
                parent[find(i)] = find(owner[k])
            else:
                owner[k] = i
    g = {}
    for i, (o, c) in enumerate(items):
        g.setdefault(find(i), {})[o] = c
    return [(frozenset(v for o in d for v in o.vars()), d) for d in g.values()]


def factor_split(outcomes):
    """list of {sample: count}, or None when not factorised"""
    acc = {}
    for o, c in outcomes.items():
        if not o.nodes:
            return None
        k = ("p", o.endpoint_vars()) if o.edges else ("s", o.vars())
        acc.setdefault(k, {})[o] = c
    ks = [k[1] for k in acc if k[0] == "p"]
    for a, b in combinations(ks, 2):
        if a & b:
            return None
    return list(acc.values())


def agree(samples):
    val = {}
    for s in samples:
        for v, x in s.nodes:
            if v in val:
                if val[v] != x:
                    return False
            else:
                val[v] = x
    return True


def join_on(outcomes, var):
    """single-variable join (values agreeing unions of one outcome per group)"""
    rest = {o: c for o, c in outcomes.items() if var not in o.vars()}
    hit = {o: c for o, c in outcomes.items() if var in o.vars()}
    if not hit:
        return dict(outcomes)
    for combo in product(*[list(d.items()) for _, d in groups(hit)]):
        if agree([o for o, _ in combo]):
            u, n = MS(), 1
            for o, c in combo:
                u = u.union(o)
                n *= c
            rest[u] = rest.get(u, 0) + n
    return rest


def folded(outcomes):
    nodes, edges = {}, {}
    for o, c in outcomes.items():
        for v, x in o.nodes:
            nodes.setdefault(v, {})
            nodes[v][x] = nodes[v].get(x, 0) + c
        for ep, r in o.edges:
            k = frozenset(v for v, _ in ep)
            edges.setdefault(k, {})
            edges[k][(ep, r)] = edges[k].get((ep, r), 0) + c
    return nodes, edges


def activation(vocab, ev: MS, outcomes, rel_ok):
    total = sum(outcomes.values())
    w = {v: {x: Fraction(0) for x in xs} for v, xs in vocab.items()}
    rel = {}
    for o, c in outcomes.items():
        sim = o.similarity(ev)
        out_edges = set()
        for layer in o.layers(ev.nodes, rel_ok):
            for (v, x), es in layer.items():
                w[v][x] += sim * c
                out_edges |= es
        for v, x in ev.nodes & o.nodes:
            w[v][x] += c
        for ep, r in out_edges | set(ev.edges):
            k = frozenset(v for v, _ in ep)
            rel.setdefault(k, {})
            rel[k][r] = rel[k].get(r, 0) + c
    evpairs = ev.endpoint_vars()
    evv = ev.vars()
    return ({v: ({x: q / total for x, q in d.items()}, v in evv) for v, d in w.items()},
            {k: (d, k in evpairs) for k, d in rel.items()})


def all_samples(vocab, rels):
    """every connected sample over the vocabulary, one value per variable (independent of the code under test)"""
    vs = list(vocab)
    for k in range(1, len(vs) + 1):
        for sub in combinations(vs, k):
            pairs = list(combinations(range(k), 2))
            shapes = []
            for choice in product([None] + list(range(len(rels))), repeat=len(pairs)):
                es = [(p, r) for p, r in zip(pairs, choice) if r is not None]
                if k == 1 or (es and edges_connected([(frozenset(p), r) for p, r in es], range(k))):
                    shapes.append(es)
            for vals in product(*[vocab[v] for v in sub]):
                nodes = list(zip(sub, vals))
                for es in shapes:
                    yield MS(nodes, ((frozenset((nodes[i], nodes[j])), rels[r]) for (i, j), r in es))


def count_all(vocab, rels):
    """closed-form number of connected samples (recurrence for connected labelled graphs with m edge colours)"""
    from math import comb
    m = len(rels)
    n = len(vocab)
    conn = {1: 1}
    for k in range(2, n + 1):
        tot = (1 + m) ** (k * (k - 1) // 2)
        for j in range(1, k):
            tot -= comb(k - 1, j - 1) * conn[j] * (1 + m) ** ((k - j) * (k - j - 1) // 2)
        conn[k] = tot
    res = 0
    vs = list(vocab)
    for k in range(1, n + 1):
        for sub in combinations(vs, k):
            p = conn[k]
            for v in sub:
                p *= len(vocab[v])
            res += p
    return res
