"""Workload generation: hostile vocabularies, samples, construction routes."""
from copy import copy
from .model import MS, Dir, edges_connected


class Tok:
    """hashable label whose instances all collide in their hash"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, Tok) and o.n == self.n

    def __repr__(self):
        return f"Tok{self.n}"


class Same:
    """labels with identical printed text, distinct identity by value"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(("Same", self.n))

    def __eq__(self, o):
        return isinstance(o, Same) and o.n == self.n

    def __repr__(self):
        return "same"


POOLS = {
    "plain": (list("abcdefghijkl"), ["T", "F", "1", "2", "x", "y", "zz", "H"], ["r", "s", "t", "relation"]),
    "int": ([0, -1, -2, 3, 1, 2, 7, 100, 2**61 - 1, 2**61], [0, -1, -2, 1, 2**61 - 1, 5, 9, 11, 111], [0, -1, -2, 1, 5]),
    "mixed": ([None, "", 0, (), "None", "a", ("a", 1), 1.5, -1, -2, "0", b"b"],
              [None, False, "", (), "None", 1, 2.5, ("T",), "T", -1, -2, "0"],
              [None, "", 0, (), "r", "None", ("r",), -1, -2]),
    "seps": (["a", "a_b", "b", "_", "a_", "b_c", "a--b", "{x}", "a;b", "(a)", "a\nb", " "],
             ["c", "b_c", "_", "", "1", "11", "1_1", "}", "; ", "x)--{r}--(y"],
             ["r", "r}--(b_c", "_", "", "r; s", "[a->b]", "r[a->b]"]),
    "words": (["ab", "a", "b", "abc", "bc", "c", "ba", "cab"], ["T", "TF", "F", "FT", "", "a"], ["r", "rs", "s", "a"]),
    "tok": ([Tok(i) for i in range(9)], [Tok(i) for i in range(6)], [Tok(i) for i in range(4)]),
    "same": ([Same(i) for i in range(8)], [Same(i) for i in range(5)], [Same(i) for i in range(3)]),
    "long": ([f"a variable whose label is long, number {i} of several that are {'all alike at both ends ' * 3}" for i in range(10)],
             [f"{'a value of some length ' * k} and an end {i}" for k in (1, 4) for i in range(4)], ["relation " * 12 + x for x in "rst"]),
    "digits": (["1", "11", "111", "2", "12", "21", 1, 11], ["1", "11", "111", "2", 1, 11], ["1", "11", 1]),
}
PROFILES = list(POOLS)


class Vocab:
    def __init__(self, vars_, rels, profile):
        self.vars = vars_      # dict variable -> list of values
        self.rels = rels       # list
        self.profile = profile

    def sig(self):
        return (self.profile, tuple(sorted(len(v) for v in self.vars.values())), len(self.rels))

    def __repr__(self):
        return f"Vocab({self.profile}: {self.vars!r} / {self.rels!r})"


def fresh(x):
    """an equal label that is another object wherever the language allows it"""
    if isinstance(x, str):
        return "".join(list(x)) if x else x
    if isinstance(x, tuple):
        return tuple([fresh(y) for y in x])
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        return type(x)(repr(x))
    if isinstance(x, bytes):
        return bytes(bytearray(x))
    if isinstance(x, (Tok, Same)):
        return type(x)(x.n)
    return x


def distinct(rng, pool, k):
    pool = list(pool)
    rng.shuffle(pool)
    out = []
    for x in pool:
        if x not in out:
            out.append(x)
        if len(out) == k:
            break
    return out


def vocab(rng, nv=(1, 6), nval=(1, 4), nrel=(1, 3), profile=None, profiles=None, big=0):
    """big: share of vocabularies far beyond the given ranges"""
    if big and rng.random() < big:
        if rng.random() < .4:
            return big_vocab(rng, rng.randint(10, 26), rng.randint(2, 14), rng.randint(1, 4))
        nv, nval, nrel = (max(nv[0], 5), 12), (nval[0], 12), (nrel[0], 9)
    profile = profile or rng.choice(profiles or (PROFILES + ["plain", "plain"]))
    pv, px, pr = POOLS[profile]
    vs = distinct(rng, pv, rng.randint(*nv))
    return Vocab({v: distinct(rng, px, rng.randint(*nval)) for v in vs},
                 distinct(rng, pr, rng.randint(*nrel)), profile)


def many(rng, choices, big=.02):
    """number of items: one of the choices, rarely a large one"""
    return rng.randint(40, 130) if rng.random() < big else rng.choice(choices)


def big_vocab(rng, n, nval=3, nrel=2, words=False):
    kind = rng.choice(["int", "str", "tuple"])
    f = {"int": lambda i: i - 3, "str": lambda i: f"v{i}", "tuple": lambda i: ("v", i)}[kind]
    return Vocab({f(i): [f"x{k}" for k in range(nval)] if words else list(range(nval)) for i in range(n)}, rng.sample(["r", "s", 0, None], nrel), "big-" + kind)


def multi_msample(rng, voc, k=4):
    """sample that may hold several values of one variable (accepted relation by relation)"""
    pool = [(v, x) for v, xs in voc.vars.items() for x in xs]
    rng.shuffle(pool)
    nodes, edges = [pool.pop()], {}
    while pool and len(nodes) < k:
        n = pool.pop()
        cand = [m for m in nodes if m[0] != n[0]]
        if cand:
            m = rng.choice(cand)
            edges[frozenset((n, m))] = relation(rng, voc, n, m, .3)
            nodes.append(n)
    return MS(nodes, edges.items())


def relation(rng, voc, a, b, p_dir):
    lab = rng.choice(voc.rels)
    if rng.random() < p_dir:
        s, t = (a, b) if rng.random() < .5 else (b, a)
        return Dir(s[0], t[0], lab)
    return lab


def edges_for(rng, voc, nodes, p_dir=.3, density=None):
    nodes = list(nodes)
    rng.shuffle(nodes)
    if density is None:
        density = rng.choice([0, 0, .2, .5, 1])
    shape = rng.choice(["rand", "rand", "chain", "star"])
    edges = {}
    for i in range(1, len(nodes)):
        j = i - 1 if shape == "chain" else (0 if shape == "star" else rng.randrange(i))
        edges[frozenset((nodes[i], nodes[j]))] = relation(rng, voc, nodes[i], nodes[j], p_dir)
    for i in range(len(nodes)):
        for j in range(i):
            ep = frozenset((nodes[i], nodes[j]))
            if ep not in edges and nodes[i][0] != nodes[j][0] and rng.random() < density:
                edges[ep] = relation(rng, voc, nodes[i], nodes[j], p_dir)
    return edges.items()


def msample(rng, voc, kmin=1, kmax=None, p_dir=.3, density=None, values=None, variables=None):
    vs = list(voc.vars) if variables is None else list(variables)
    k = rng.randint(min(kmin, len(vs)), min(kmax or len(vs), len(vs)))
    sub = rng.sample(vs, k)
    nodes = [(v, (values[v] if values and v in values else rng.choice(voc.vars[v]))) for v in sub]
    return MS(nodes, edges_for(rng, voc, nodes, p_dir, density))


def subsample(rng, ms, kmax=None):
    """random connected non-empty sub-sample (nodes and edges)"""
    if not ms.nodes:
        return ms
    order = [rng.choice(sorted(ms.nodes, key=repr))]
    target = rng.randint(1, min(kmax or len(ms.nodes), len(ms.nodes)))
    edges = set()
    elist = sorted(ms.edges, key=repr)
    while len(order) < target:
        cand = [e for e in elist if len(e[0] & set(order)) == 1]
        if not cand:
            break
        e = rng.choice(cand)
        edges.add(e)
        order.append(next(iter(e[0] - set(order))))
    for e in elist:
        if e[0] <= set(order) and e not in edges and rng.random() < .5:
            edges.add(e)
    return MS(order, edges)


def mutate(rng, voc, ms):
    """a near neighbour of ms (possibly equal): one value / relation / edge / direction / node changed"""
    kind = rng.choice(["value", "rel", "flip", "addedge", "deledge", "grow", "same"])
    if kind == "value" and ms.single_valued() and ms.nodes:
        v = rng.choice(sorted(ms.vars(), key=repr))
        return ms.replaced({v: rng.choice(voc.vars[v])})
    edges = dict(ms.edges)
    keys = sorted(edges, key=repr)
    if kind == "rel" and keys:
        ep = rng.choice(keys)
        a, b = tuple(ep)
        edges[ep] = relation(rng, voc, a, b, .4)
    elif kind == "flip" and keys:
        ep = rng.choice(keys)
        r = edges[ep]
        if isinstance(r, Dir):
            edges[ep] = Dir(r.target, r.source, r.label)
        else:
            a, b = sorted(ep, key=repr)
            edges[ep] = Dir(a[0], b[0], r)
    elif kind == "addedge":
        ns = sorted(ms.nodes, key=repr)
        cand = [frozenset((a, b)) for i, a in enumerate(ns) for b in ns[:i] if a[0] != b[0] and frozenset((a, b)) not in edges]
        if cand:
            ep = rng.choice(cand)
            a, b = tuple(ep)
            edges[ep] = relation(rng, voc, a, b, .3)
    elif kind == "deledge" and keys:
        ep = rng.choice(keys)
        e2 = dict(edges)
        del e2[ep]
        if edges_connected(e2.items(), ms.nodes):
            edges = e2
    elif kind == "grow":
        free = [v for v in voc.vars if v not in ms.vars()]
        if free and ms.nodes:
            v = rng.choice(free)
            n = (v, rng.choice(voc.vars[v]))
            o = rng.choice(sorted(ms.nodes, key=repr))
            edges[frozenset((n, o))] = relation(rng, voc, n, o, .3)
    return MS(ms.nodes, edges.items())


COUNTS = [1, 1, 1, 2, 3, 5, 10, 100, 7919, 2**31, 2**53 + 1, 10**18 + 9, 3**60]


HUGE = 10**400 + 9     # beyond the range of floats


def count(rng, big=True, huge=0):
    if huge and rng.random() < huge:
        return HUGE
    return rng.choice(COUNTS if big else COUNTS[:9])


def ordered_edges(rng, edges, start=()):
    """random order that keeps the growing graph connected"""
    left = sorted(edges, key=repr)
    rng.shuffle(left)
    seen = set(start)
    out = []
    while left:
        for i, (ep, r) in enumerate(left):
            if not seen or ep & seen:
                out.append(left.pop(i))
                seen |= ep
                break
        else:
            raise RuntimeError("generator produced a disconnected sample")
    return out
