from .. import gen, lib
from ..base import Prop
from ..factors import One
from ..lib import attempt, canon_set, canon
from ..model import MS, groups, factor_split

KEY = "same-span-groups"


def same_span(gs):
    spans = [v for v, _ in gs]
    return len(set(spans)) != len(spans)


def shape_pool(rng, voc, n):
    """outcomes over a few recurring shapes: hits, chains of overlaps and disjoint parts"""
    vs = list(voc.vars)
    vs = rng.sample(vs, rng.randint(1, len(vs)))
    shapes = []
    for _ in range(rng.randint(1, 5)):
        k = rng.randint(1, min(4, len(vs)))
        sub = rng.sample(vs, k)
        shapes.append([(sub[j], sub[rng.randrange(j)]) for j in range(1, k)] or One(sub[0]))
    out = {}
    for _ in range(n):
        sh = rng.choice(shapes)
        if rng.random() < .15:
            out[gen.msample(rng, voc)] = gen.count(rng)
            continue
        if isinstance(sh, One):
            v = sh.v
            m = MS([(v, rng.choice(voc.vars[v]))])
        else:
            val = {v: rng.choice(voc.vars[v]) for p in sh for v in p}
            m = MS((), [(frozenset(((a, val[a]), (c, val[c]))), gen.relation(rng, voc, (a, 0), (c, 0), .3)) for a, c in sh])
        out[m] = out.get(m, 0) + gen.count(rng)
    return out


def scattered(rng, voc):
    """many shapes over disjoint variables, sometimes with one outcome reaching across two of them"""
    vs = list(voc.vars)
    rng.shuffle(vs)
    out, parts = {}, []
    while vs:
        k = min(len(vs), rng.choice([1, 2, 2, 2, 3]))
        parts.append([vs.pop() for _ in range(k)])
    shapes = [[(p[j], p[j - 1]) for j in range(1, len(p))] or One(p[0]) for p in parts]
    if rng.random() < .6 and len(parts) > 1:
        pairs = [sh for sh in shapes if not isinstance(sh, One)]
        if rng.random() < .6 and pairs:   # shares one related pair with another shape
            p = rng.choice(rng.choice(pairs))
            other = rng.choice([v for q in parts for v in q if v not in p] or list(p))
            shapes.insert(rng.randrange(len(shapes) + 1), [p] if other in p else [p, (p[0], other)])
        elif rng.random() < .5:
            x, y = rng.sample(parts, 2)
            shapes.insert(rng.randrange(len(shapes) + 1), [(rng.choice(x), rng.choice(y))])
        else:
            x = rng.choice(parts)
            shapes.insert(rng.randrange(len(shapes) + 1), One(rng.choice(x)) if len(x) > 1 else [(x[0], rng.choice([p for p in parts if p is not x])[0])])
    for sh in shapes:
        for _ in range(rng.randint(1, 2)):
            if isinstance(sh, One):
                m = MS([(sh.v, rng.choice(voc.vars[sh.v]))])
            else:
                val = {v: rng.choice(voc.vars[v]) for p in sh for v in p}
                m = MS((), [(frozenset(((a, val[a]), (c, val[c]))), gen.relation(rng, voc, (a, 0), (c, 0), .3)) for a, c in sh])
            out[m] = out.get(m, 0) + gen.count(rng)
    return out


class C12(Prop):
    id = "C12"
    rule = ("case = sample sets drawn from a few recurring shapes; groups, factors, the factorised and joined tests are compared with an independent "
            "union-find partition; non-trivial when a group was formed through a chain of at least two different shapes, or a factorisation with several "
            "factors succeeded; distinct by outcomes")
    cases = {"quick": 10400, "thorough": 83200}
    need = {"grouped": 2000, "chain_group": 250, "factorised": 600, "not_factorised": 250, "joined_yes": 100, "joined_no": 800, "multi_factor": 400,
            "single_nodes": 500, "empty_outcome": 60, "many_shapes": 1, "scattered": 200}
    assumptions = ["variables are not themselves frozen sets of variables"]

    def fixed(self):
        def known(mon, rng):
            voc = gen.Vocab({v: [0] for v in "abcd"}, ["r"], "fixed")
            path = [("a", "b"), ("b", "c"), ("c", "d")]
            comp = [("a", "c"), ("a", "d"), ("b", "d")]
            out = {MS((), [(frozenset(((x, 0), (y, 0))), "r") for x, y in p]): c for p, c in ((path, 2), (comp, 3))}
            g = lib.graph(rng, lib.rgb(voc), out, voc)
            self.judge_groups(mon, g.outcomes, out)

        def many(mon, rng):
            n = 1500
            voc = gen.Vocab({i: [0] for i in range(n + 2)}, ["r"], "fixed")
            b = lib.rgb(voc)
            out = {}
            for i in range(n):
                m = MS((), [(frozenset(((i, 0), (i + 1, 0))), "r"), (frozenset(((i + 1, 0), (i + 2, 0))), "r")])
                out[m] = i + 1
                b.add_outcome(b.sample_builder().add_relation({(i, 0), (i + 1, 0)}, "r").add_relation({(i + 1, 0), (i + 2, 0)}, "r").build(), i + 1)
            self.judge_groups(mon, b.build().outcomes, out)
            mon.event("many_shapes")
        return [known, many]

    def judge_groups(self, mon, ss, out):
        want = groups(out)
        res = attempt(ss.group_intersecting)
        if same_span(want) and not res[0] and isinstance(res[1], AssertionError):
            mon.known(KEY, f"group_intersecting of {out}: {str(res[1])[:120]}")
            return None
        got = mon.accepted(res, f"grouping {out if len(out) < 20 else len(out)}")
        mon.eq(len(got), len(want), f"number of groups of {out if len(out) < 20 else len(out)}")
        mon.eq({frozenset(k): canon_set(s) for k, s in got.items()}, {v: d for v, d in want}, "groups")
        mon.eq(sum(s.length for s in got.values()), sum(out.values()), "total count over the groups")
        mon.event("grouped")
        mon.event("chain_group", sum(len({o.endpoint_vars() for o in d}) > 1 for _, d in want))
        mon.event("single_nodes", sum(any(not o.edges for o in d) for _, d in want))
        return want

    def case(self, mon, rng, i, tier):
        wide = rng.random() < .06
        voc = gen.big_vocab(rng, rng.randint(10, 40)) if wide else gen.vocab(rng, nv=(1, 7), nval=(1, 3))
        b = lib.rgb(voc, rng=rng)
        out = scattered(rng, voc) if wide else shape_pool(rng, voc, rng.choice([1, 3, 8, 14]))
        mon.event("scattered", wide)
        if not wide and rng.random() < .4:  # thin out towards factorised spaces
            keep = {}
            for m in sorted(out, key=lambda _: rng.random()):
                if factor_split({**keep, m: 1}) is not None:
                    keep[m] = out[m]
            out = keep
        if rng.random() < .05:
            out[MS()] = gen.count(rng)
        g = lib.graph(rng, b, out, voc)
        mon.log("outcomes", out)
        want = self.judge_groups(mon, g.outcomes, out)
        fs = factor_split(out)
        res = attempt(g.factorized)
        if fs is None:
            mon.refused(res, f"factorising {out}")
            mon.event("not_factorised")
            mon.event("empty_outcome", MS() in out)
        else:
            got = mon.accepted(res, f"factorising {out}")
            mon.eq(len(got), len(fs), "number of factors")
            mon.eq({frozenset(canon_set(s).items()) for s in got}, {frozenset(d.items()) for d in fs}, "factors")
            mon.event("factorised")
            mon.event("multi_factor", len(fs) > 1)
        mon.eq(mon.accepted(attempt(g.is_factorized), "is_factorized"), fs is not None, f"factorised test of {out}")
        j = len({o.vars() for o in out}) <= 1
        mon.eq(mon.accepted(attempt(g.is_joined), "is_joined"), j, f"joined test of {out}")
        mon.event("joined_yes" if j else "joined_no")
        mon.eq(canon_set(g.outcomes), out, "grouping or factorising changed the outcomes")
        if (want and any(len({o.endpoint_vars() for o in d}) > 1 for _, d in want)) or (fs and len(fs) > 1):
            mon.nontrivial(repr(sorted(out.items(), key=repr)))
        mon.sample(f"{out}"[:400])
        if want and rng.random() < .3:  # a part of the set, through filtering
            keep = {o for o in out if rng.random() < .6}
            part = g.outcomes.filter_samples(lambda s: canon(s) in keep)
            self.judge_groups(mon, part, {o: c for o, c in out.items() if o in keep})


PROP = C12()
