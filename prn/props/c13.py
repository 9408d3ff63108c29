from math import prod
from .. import gen, lib
from ..base import Prop
from ..factors import One, skeleton, factor_outcomes, product, assignments, scope
from ..lib import attempt, canon_set, canon
from ..model import MS, factor_split


class C13(Prop):
    id = "C13"
    rule = ("case = a factorised graph: random factor shapes (trees and cycles of factors, single-variable factors, directed relations, several relation "
            "variants for the same values) over complete or sparse tables, joined and compared outcome by outcome and count by count with an independent "
            "exact product; each is joined again from other insertion orders; non-trivial when at least two factors were joined into several outcomes; "
            "distinct by outcomes")
    cases = {"quick": 2800, "thorough": 22400}
    need = {"joined": 450, "joint_outcomes": 3000, "multi_factor": 200, "cycle": 60, "sparse": 250, "dead_outcome": 100, "single_factor_var": 150,
            "variant": 60, "same_scope": 40, "large": 4, "same_again": 400, "contradiction": 40, "apart_refused": 100, "many_factors": 1}
    case_limit = 300

    def fixed(self):
        def net(pairs, vals, singles=()):
            def f(mon, rng):
                vs = sorted({v for p in pairs for v in p})
                voc = gen.Vocab({v: list(range(vals)) for v in vs}, ["r"], "fixed")
                fs = []
                for p in pairs:
                    fs.append({MS((), [(frozenset(((p[0], x), (p[1], y))), "r")]): 1 + (x * 7 + y * 3 + 5 * len(fs)) % 11 for x in range(vals) for y in range(vals)})
                for v in singles:
                    fs.append({MS([(v, x)]): x + 2 for x in range(vals)})
                self.one(mon, rng, voc, fs)
                mon.event("large")
            return f
        k4 = [("a", "b"), ("a", "c"), ("a", "d"), ("b", "c"), ("b", "d"), ("c", "d")]
        chain = [(f"v{i:02}", f"v{i + 1:02}") for i in range(9)]
        star = [("hub", f"s{i}") for i in range(7)]
        grid = [((x, y), (x + 1, y)) for x in range(2) for y in range(3)] + [((x, y), (x, y + 1)) for x in range(3) for y in range(2)]
        def wide(n):   # one variable in many factors
            def f(mon, rng):
                voc = gen.Vocab({"hub": [0, 1, 2], **{f"s{i}": [0] for i in range(n)}}, ["r"], "fixed")
                fs = [{MS((), [(frozenset((("hub", x), (f"s{i}", 0))), "r")]): 1 + (x * 7 + i * 3) % 11 for x in range(3)} for i in range(n)]
                self.one(mon, rng, voc, fs)
                mon.event("large")
            return f
        def tall(n):   # one variable with many values
            def f(mon, rng):
                voc = gen.Vocab({"a": [0], "b": list(range(n)), "c": ["x", "y"]}, ["r"], "fixed")
                fs = [{MS((), [(frozenset((("a", 0), ("b", x))), "r")]): 1 + (x * 7) % 11 for x in range(n)},
                      {MS((), [(frozenset((("a", 0), ("c", x))), "r")]): k + 1 for k, x in enumerate("xy")}]
                self.one(mon, rng, voc, fs, again=False)
                mon.event("large")
            return f
        def many(n, depth):     # very many factors of one variable, asked for by a caller that is itself deep
            def f(mon, rng):
                voc = gen.Vocab({"hub": [0], **{i: [0] for i in range(n)}}, ["r"], "fixed")
                out = {MS((), [(frozenset((("hub", 0), (i, 0))), "r")]): 1 + i % 3 for i in range(n)}
                g = lib.graph(rng, lib.rgb(voc), out, voc)
                j = mon.accepted(lib.deep(depth, g.make_joined), f"joining {n} factors of one variable")
                mon.eq(canon_set(j.outcomes), {MS((), [e for o in out for e in o.edges]): prod(out.values())}, f"joined graph of {n} factors")
                mon.event("many_factors")
                mon.nontrivial("many", n)
            return f
        return [many(320, 750), tall(1100), wide(12), wide(25), net(k4, 2), net(k4, 3), net(chain, 2), net(star, 2), net(chain[:4], 3, ["v00", "v03"]), net(grid, 2)]

    def one(self, mon, rng, voc, fs, again=True):
        want = product(fs)
        if want is None:
            return None
        out = {}
        for f in fs:
            out.update(f)
        assert len(out) == sum(map(len, fs)) and factor_split(out) is not None
        mon.log("factors", fs if len(out) < 40 else len(out))
        b = lib.rgb(voc, rng=rng)
        g = lib.graph(rng, b, out, voc)
        nm = rng.choice([None, "J"])
        j = mon.accepted(attempt(g.make_joined, nm) if nm else attempt(g.make_joined), f"joining {fs if len(out) < 40 else len(out)}")
        got = canon_set(j.outcomes)
        if got != want:
            mon.fail(f"joined graph of {fs if len(out) < 40 else len(out)}: missing {[k for k in want if k not in got][:3]}, "
                     f"unexpected {[k for k in got if k not in want][:3]}, other counts {[(k, got[k], want[k]) for k in want if k in got and got[k] != want[k]][:3]}")
        mon.eq(j.outcomes.length, sum(want.values()), "total count of the joined graph")
        mon.ok(all(type(c) is int for c in got.values()), "counts must be exact integers")
        mon.eq(j.is_joined(), True, "joined test of the joined graph")
        mon.eq(j.name, nm or g.name, "name of the joined graph")
        mon.eq(canon_set(g.outcomes), out, "joining changed the original graph")
        for s in j.outcomes.samples():
            mon.ok(canon(s).connected(), lambda: f"joined outcome {canon(s)} is not connected")
        mon.event("joined")
        mon.event("contradiction", not want)
        mon.event("joint_outcomes", len(want))
        mon.event("multi_factor", len(fs) > 1)
        if again:
            g2 = lib.graph(rng, lib.rgb(voc, rng=rng), out, voc)
            mon.eq(canon_set(g2.make_joined().outcomes), want, "joined graph from another insertion order")
            jj = j.make_joined()
            mon.eq(canon_set(jj.outcomes), want, "joining a joined graph")
            mon.event("same_again")
        if len(fs) > 1 and len(want) > 1:
            mon.nontrivial(repr(sorted(out.items(), key=repr)))
        return want

    def apart(self, mon, rng, voc, fs, cnt):
        """factors without shared variables have no joined distribution, but a contradiction anywhere leaves nothing to join"""
        sc = [set().union(*(o.vars() for o in f)) for f in fs]
        part, rest = {0}, True
        while rest:
            rest = [i for i in range(len(fs)) if i not in part and any(sc[i] & sc[j] for j in part)]
            part |= set(rest)
        if len(part) < len(fs):
            return
        k = rng.randint(1, 2)
        new = [gen.Same(900 + x) for x in range(2 * k)] if rng.random() < .3 else [f"apart-{x}" for x in range(2 * k)]
        voc2 = gen.Vocab({**voc.vars, **{v: [0, 1] for v in new}}, voc.rels, "apart")
        more = []
        for x in range(k):
            if rng.random() < .3:
                more.append(factor_outcomes(rng, voc2, One(new[2 * x]), assignments(rng, voc2, new, 0), counts=cnt))
            else:
                more.append(factor_outcomes(rng, voc2, [(new[2 * x], new[2 * x + 1])], assignments(rng, voc2, new, 0), counts=cnt))
        out = {}
        for f in fs + more:
            out.update(f)
        want = product(fs)
        if want is None:
            return
        g = lib.graph(rng, lib.rgb(voc2, rng=rng), out, voc2)
        mon.log("factors", fs, "apart from", more)
        if want:
            mon.refused(attempt(g.make_joined), "joining factors without shared variables")
            mon.event("apart_refused")
        else:
            mon.eq(canon_set(mon.accepted(attempt(g.make_joined), "joining contradicting factors").outcomes), {}, "joined graph of contradicting factors")
        mon.eq(canon_set(g.outcomes), out, "joining changed the original graph")

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(1, 5), nval=(1, 3), profiles=["plain", "plain", "int", "mixed", "seps", "words", "tok", "same", "digits", "long"])
        vs = list(voc.vars)
        shapes = skeleton(rng, vs)
        dens = rng.choice([1, 1, 0, 0])
        size = 1
        for v in vs:
            size *= len(voc.vars[v])
        if size > 110:
            dens = 0
        worlds = assignments(rng, voc, vs, dens)
        dead = rng.random() < .5
        if dead:
            dens, worlds = 0, worlds[:rng.randint(1, 3)]
        cnt = (lambda r: gen.count(r)) if rng.random() < .5 else (lambda r: r.randint(1, 9))
        fs = [factor_outcomes(rng, voc, sh, worlds, counts=cnt) for sh in shapes]
        if dead:   # outcomes that fit nothing elsewhere: they must vanish
            for k, sh in enumerate(shapes):
                if rng.random() < .5:
                    extra = factor_outcomes(rng, voc, sh, assignments(rng, voc, vs, 0)[:4], variants=0, counts=cnt)
                    for m, c in extra.items():
                        if m.endpoint_vars() == next(iter(fs[k])).endpoint_vars():
                            fs[k].setdefault(m, c)
        if dead and len(vs) > 1 and rng.random() < .5:   # factors made from worlds of their own: often without common choice
            fs = [factor_outcomes(rng, voc, sh, assignments(rng, voc, vs, 0)[:2], counts=cnt) for sh in shapes]
        want = self.one(mon, rng, voc, fs)
        if rng.random() < .3:
            self.apart(mon, rng, voc, fs, cnt)
        if want is None:
            return
        alive = {o for o in (x for f in fs for x in f) if any(w.contains(o) for w in want)}
        mon.event("dead_outcome", len({x for f in fs for x in f} - alive))
        mon.event("sparse", dens == 0)
        mon.event("cycle", len([s for s in shapes if not isinstance(s, One)]) > 1 and
                  sum(len(scope(s)) - 1 for s in shapes if not isinstance(s, One)) > len(vs) - 1)
        sc = [frozenset(scope(s)) for s in shapes]
        mon.event("same_scope", any(len(a) > 1 and sc.count(a) > 1 for a in sc))
        mon.event("single_factor_var", sum(isinstance(s, One) for s in shapes))
        mon.event("variant", any(len({frozenset(o.nodes) for o in f}) < len(f) for f in fs))
        mon.sample(f"{fs}"[:500])


PROP = C13()
