"""Factorised graphs: generation and exact products (plain model data)."""
from . import gen
from .model import MS


class One:
    """single-variable factor"""
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"One({self.v!r})"


def skeleton(rng, vs, p_single=.25, max_factor=4):
    """list of factor shapes (list of variable pairs, or One), pairwise pair-disjoint, linked through shared variables, covering vs"""
    vs = list(vs)
    rng.shuffle(vs)
    if len(vs) > 2 and rng.random() < .35:
        return partition(rng, vs) + [One(v) for v in vs if rng.random() < p_single / 2]
    used, shapes, covered = set(), [], [vs[0]]
    todo = vs[1:]
    while todo:
        root = rng.choice(covered)
        k = rng.randint(1, min(max_factor - 1, len(todo)))
        new, todo = todo[:k], todo[k:]
        sh, local = [], [root]
        for v in new:
            u = rng.choice(local)
            sh.append((u, v))
            local.append(v)
        old = [v for v in covered if v != root]
        for v in new:  # extra pairs inside the factor, possibly back to covered variables (cycles between factors)
            for u in local + (rng.sample(old, 1) if old and rng.random() < .3 else []):
                if u != v and (u, v) not in sh and (v, u) not in sh and rng.random() < .2:
                    sh.append((u, v))
        shapes.append(sh)
        covered += new
    used = {frozenset(p) for sh in shapes for p in sh}
    for _ in range(rng.choice([0, 0, 1, 2])):  # additional factors closing cycles
        if len(vs) > 2:
            a, b = rng.sample(vs, 2)
            if frozenset((a, b)) not in used:
                used.add(frozenset((a, b)))
                shapes.append([(a, b)])
    singles = [One(v) for v in vs if rng.random() < p_single]
    shapes += singles
    if not shapes:
        shapes = [One(vs[0])]
    return shapes


def partition(rng, vs):
    """the pairs of a random connected graph, split at random into connected factors (several of them may span the same variables)"""
    if len(vs) > 3 and rng.random() < .35:   # two factors spanning all variables: a path and its complement
        return [list(zip(vs, vs[1:])), [(u, v) for i, u in enumerate(vs) for v in vs[i + 2:]]]
    pairs = [(rng.choice(vs[:i]), v) for i, v in enumerate(vs) if i]
    dens = rng.choice([.3, .6, 1])
    have = {frozenset(p) for p in pairs}
    for i, u in enumerate(vs):
        for v in vs[i + 1:]:
            if frozenset((u, v)) not in have and rng.random() < dens:
                pairs.append((u, v))
    shapes, big = [], rng.choice([1, 2, 3, 4, 6])
    while pairs:
        rng.shuffle(pairs)
        sh = [pairs.pop()]
        for _ in range(rng.randint(0, big)):
            near = [p for p in pairs if {p[0], p[1]} & scope(sh)]
            if near:
                p = rng.choice(near)
                pairs.remove(p)
                sh.append(p)
        shapes.append(sh)
    return shapes


def scope(sh):
    return {sh.v} if isinstance(sh, One) else {v for p in sh for v in p}


def factor_outcomes(rng, voc, sh, assignments, variants=.15, p_dir=.3, counts=None):
    """one (sometimes several, differing in relations) outcome per projection of the assignments; relations fixed per pair unless varied"""
    out = {}
    sc = sorted(scope(sh), key=repr)
    pair = not isinstance(sh, One)
    base = {p: gen.relation(rng, voc, (p[0], 0), (p[1], 0), p_dir) for p in sh} if pair else {}
    seen = []
    for a in assignments:
        proj = {v: a[v] for v in sc}
        if proj in seen:
            continue
        seen.append(proj)
        for _ in range(2 if pair and rng.random() < variants else 1):
            if pair:
                m = MS((), [(frozenset(((u, proj[u]), (v, proj[v]))),
                             gen.relation(rng, voc, (u, 0), (v, 0), p_dir) if rng.random() < variants else base[(u, v)]) for u, v in sh])
            else:
                m = MS([(sh.v, proj[sh.v])])
            out[m] = (counts or gen.count)(rng)
    return out


def product(factors, limit=20000):
    """all globally consistent choices of one outcome per factor -> {union: product}; None when larger than limit"""
    left = sorted(factors, key=len)
    acc = [(MS(), {}, 1)]
    bound = set()
    while left:
        # next factor sharing most with what is bound already
        left.sort(key=lambda f: (-len(bound & next(iter(f)).vars()), len(f)))
        f = left.pop(0)
        bound |= next(iter(f)).vars()
        nxt = []
        for m, val, n in acc:
            for o, c in f.items():
                if all(val.get(v, x) == x for v, x in o.nodes):
                    nxt.append((m.union(o), {**val, **dict(o.nodes)}, n * c))
            if len(nxt) > limit:
                return None
        acc = nxt
    out = {}
    for m, _, n in acc:
        out[m] = out.get(m, 0) + n
    return out


def assignments(rng, voc, vs, density):
    from itertools import product as prod
    vs = list(vs)
    if density >= 1:
        return [dict(zip(vs, x)) for x in prod(*[voc.vars[v] for v in vs])]
    k = rng.randint(1, 12)
    return [{v: rng.choice(voc.vars[v]) for v in vs} for _ in range(k)]
