from itertools import permutations, product as itproduct
from math import prod
from .. import gen, lib
from ..base import Prop
from ..factors import skeleton, factor_outcomes, assignments
from ..lib import attempt, canon_set
from ..model import MS, groups, join_on, factor_split
from .c12 import KEY, same_span, shape_pool

ORDER = "several-order"


def blowup(out, var):
    n = 1
    for _, d in groups({o: c for o, c in out.items() if var in o.vars()}):
        n *= len(d)
    return n


def clash(out, var):
    return same_span(groups({o: c for o, c in out.items() if var in o.vars()}))


class C14(Prop):
    id = "C14"
    rule = ("case = a relation graph joined on each single variable (any outcomes) and on sets of variables (factorised outcomes), compared with an independent "
            "product of groups; for several variables every order of single joins is computed and must agree before the comparison; non-trivial when a join "
            "combined at least two groups; distinct by outcomes and variables")
    cases = {"quick": 5200, "thorough": 41600}
    need = {"single": 2000, "combined": 600, "absent": 150, "several": 250, "all": 100, "vanished": 60, "untouched": 600, "named": 500, "wide": 100, "tree": 30, "long_chain": 25, "many_groups": 1}
    assumptions = ["no outcome gives one variable two values", "several variables at once: every step keeps at least one agreeing combination"]

    def fixed(self):
        def known(mon, rng):
            voc = gen.Vocab({v: [0] for v in "abcd"}, ["r"], "fixed")
            path = [("a", "b"), ("b", "c"), ("c", "d")]
            comp = [("a", "c"), ("a", "d"), ("b", "d")]
            out = {MS((), [(frozenset(((x, 0), (y, 0))), "r") for x, y in p]): c for p, c in ((path, 2), (comp, 3))}
            self.single(mon, rng, lib.graph(rng, lib.rgb(voc), out, voc), out, "a")

        def order(mon, rng):
            """a chain p-q-s-t contradicting itself at q, joined on q and s, under two labellings of q and s"""
            seen = []
            for q, s in ((1, 2), (2, 1)):
                voc = gen.Vocab({v: [0, 1] for v in (0, q, s, 3)}, ["r"], "fixed")
                out = {MS((), [(frozenset((x, y)), "r")]): 1 for x, y in (((0, 0), (q, 0)), ((q, 1), (s, 0)), ((s, 0), (3, 0)))}
                g = lib.graph(rng, lib.rgb(voc), out, voc)
                j = mon.accepted(attempt(g.joined_on_variables, {q, s}), "joining on two variables")
                back = {0: "p", q: "q", s: "s", 3: "t"}
                seen.append(sorted("".join(sorted(back[v] for v in o.vars())) for o in canon_set(j.outcomes)))
            if seen[0] != seen[1]:
                mon.known(ORDER, f"chain p-q-s-t joined on q and s gives outcomes over {seen[0]} or over {seen[1]}, depending on the labels")

        def many(mon, rng):
            n = 1300
            voc = gen.Vocab({"hub": [0, 1], **{i: [0] for i in range(n)}}, ["r"], "fixed")
            out = {MS((), [(frozenset((("hub", 0), (i, 0))), "r")]): 1 + i % 3 for i in range(n)}
            g = lib.graph(rng, lib.rgb(voc), out, voc)
            j = mon.accepted(attempt(g.joined_on_variables, {"hub"}), f"joining {n} groups on their variable")
            mon.eq(canon_set(j.outcomes), {MS((), [e for o in out for e in o.edges]): prod(out.values())}, f"joined graph of {n} groups")
            mon.event("many_groups")
        return [known, order, many]

    def single(self, mon, rng, g, out, v):
        nm = rng.choice([None, "joined"])
        mon.log("join on", v, out if len(out) < 30 else len(out))
        res = attempt(g.joined_on_variables, {v}, nm) if nm else attempt(g.joined_on_variables, {v})
        if clash(out, v) and not res[0] and isinstance(res[1], AssertionError):
            mon.known(KEY, f"joined_on_variables({v!r}) of {out}: {str(res[1])[:120]}")
            return
        j = mon.accepted(res, f"joining on {v!r}")
        want = join_on(out, v)
        mon.eq(canon_set(j.outcomes), want, f"outcomes joined on {v!r} from {out}")
        mon.eq(j.outcomes.length, sum(want.values()), "total count after joining")
        mon.eq(j.name, nm or g.name, "name of the joined graph")
        mon.eq(canon_set(g.outcomes), out, "joining changed the original graph")
        hit = {o: c for o, c in out.items() if v in o.vars()}
        ng = len(groups(hit)) if hit else 0
        mon.event("single")
        mon.event("named", nm is not None)
        mon.event("combined", ng > 1)
        mon.event("absent", ng == 0)
        mon.event("untouched", 0 < len(hit) < len(out))
        mon.event("vanished", ng > 1 and len(want) == len(out) - len(hit))
        if ng > 1:
            mon.nontrivial(repr(sorted(out.items(), key=repr)), repr(v))

    def wide(self, mon, rng):
        """a hub shared by two to five groups of several outcomes each: tens to hundreds of combinations"""
        k = rng.randint(2, 5)
        voc = gen.big_vocab(rng, k + 2, 8)
        hub, *rest = voc.vars
        spare = rest.pop()
        n = {2: 8, 3: 7, 4: 4, 5: 3}[k]
        out = {}
        hv = rng.sample(voc.vars[hub], rng.randint(1, 2))
        for r in rest:
            for x in rng.sample(voc.vars[r], rng.randint(max(1, n - 2), n)):
                m = MS((), [(frozenset(((hub, rng.choice(hv)), (r, x))), gen.relation(rng, voc, (hub, 0), (r, 0), .3))])
                out[m] = out.get(m, 0) + gen.count(rng)
        for _ in range(rng.randint(0, 6)):
            m = MS([(spare, rng.choice(voc.vars[spare]))])
            out[m] = out.get(m, 0) + gen.count(rng)
        if rng.random() < .3:
            out[MS([(hub, rng.choice(hv))])] = gen.count(rng)
        g = lib.graph(rng, lib.rgb(voc, rng=rng), out, voc)
        self.single(mon, rng, g, out, hub)
        mon.event("wide")

    def tree(self, mon, rng):
        """complete tables along a tree of 5-8 variables: joining on all of them is the full product in any order"""
        n = rng.randint(5, 8)
        voc = gen.big_vocab(rng, n, 2)
        vs = list(voc.vars)
        rng.shuffle(vs)
        two = set(rng.sample(vs, rng.randint(1, min(n, 6))))
        out, rels, tabs = {}, {}, {}
        for k in range(1, n):
            u, v = vs[rng.randrange(k)], vs[k]
            r = rels[(u, v)] = gen.relation(rng, voc, (u, 0), (v, 0), .3)
            for x in voc.vars[u] if u in two else [0]:
                for y in voc.vars[v] if v in two else [0]:
                    c = tabs[(u, x, v, y)] = gen.count(rng)
                    out[MS((), [(frozenset(((u, x), (v, y))), r)])] = c
        want = {}
        for xs in itproduct(*[voc.vars[v] if v in two else [0] for v in vs]):
            a = dict(zip(vs, xs))
            c = 1
            for u, v in rels:
                c *= tabs[(u, a[u], v, a[v])]
            want[MS((), [(frozenset(((u, a[u]), (v, a[v]))), r) for (u, v), r in rels.items()])] = c
        g = lib.graph(rng, lib.rgb(voc, rng=rng), out, voc)
        mon.log("tree", out)
        every = rng.random() < .6
        j = mon.accepted(attempt(g.joined_on_variables) if every else attempt(g.joined_on_variables, set(vs)), f"joining a tree on all of {vs}")
        mon.eq(canon_set(j.outcomes), want, "tree joined on all variables")
        mon.event("tree")
        mon.nontrivial(repr(sorted(out.items(), key=repr)), "tree")

    def long_chain(self, mon, rng):
        """outcomes linked into one group only through a long chain of shared variable pairs, beside a second group"""
        n = rng.randint(9, 26)
        voc = gen.big_vocab(rng, n + 4, 3)
        hub, p, q, *ring = voc.vars
        h = rng.choice(voc.vars[hub])
        out = {}
        for k in range(n):
            a, b = ring[k], ring[k + 1]
            x, y = rng.choice(voc.vars[a]), rng.choice(voc.vars[b])
            out[MS((), [(frozenset(((hub, h), (a, x))), gen.relation(rng, voc, (hub, 0), (a, 0), .3)),
                        (frozenset(((hub, h), (b, y))), gen.relation(rng, voc, (hub, 0), (b, 0), .3))])] = gen.count(rng)
        for v in rng.sample([p, q], rng.randint(1, 2)):
            for x in rng.sample(voc.vars[v], rng.randint(1, 2)):
                m = MS((), [(frozenset(((hub, rng.choice([h, h, rng.choice(voc.vars[hub])])), (v, x))), gen.relation(rng, voc, (hub, 0), (v, 0), .3))])
                out[m] = out.get(m, 0) + gen.count(rng)
        items = list(out.items())
        rng.shuffle(items)
        out = dict(items)
        self.single(mon, rng, lib.graph(rng, lib.rgb(voc, rng=rng), out, voc), out, hub)
        mon.event("long_chain")

    def case(self, mon, rng, i, tier):
        if rng.random() < .012:
            self.long_chain(mon, rng)
        if rng.random() < .015:
            self.tree(mon, rng)
        if rng.random() < .04:
            self.wide(mon, rng)
        voc = gen.vocab(rng, nv=(2, 5), nval=(1, 3))
        b = lib.rgb(voc, rng=rng)
        out = shape_pool(rng, voc, rng.choice([2, 5, 9]))
        g = lib.graph(rng, b, out, voc)
        for v in rng.sample(list(voc.vars), min(3, len(voc.vars))):
            if blowup(out, v) < 600:
                self.single(mon, rng, g, out, v)
        mon.sample(f"{out}"[:400])
        # several variables at once, on a factorised graph
        voc = gen.vocab(rng, nv=(2, 4), nval=(1, 2))
        vs = list(voc.vars)
        shapes = skeleton(rng, vs)
        worlds = assignments(rng, voc, vs, rng.choice([0, 0, 1]))[:6]
        fs = [factor_outcomes(rng, voc, sh, worlds) for sh in shapes]
        if rng.random() < .3 and len(fs) > 1:
            fs.pop(rng.randrange(len(fs)))
        out = {}
        for f in fs:
            out.update(f)
        if not out or factor_split(out) is None:
            return
        g = lib.graph(rng, lib.rgb(voc, rng=rng), out, voc)
        sel = rng.sample(vs, rng.randint(2, len(vs)))
        use_all = rng.random() < .4
        if use_all:
            sel = sorted({v for o in out for v in o.vars()}, key=repr)
        results, clashes = [], False
        for perm in list(permutations(sel))[:24]:
            cur = out
            for v in perm:
                if clash(cur, v):
                    clashes = True
                    break
                if blowup(cur, v) > 2000:
                    return
                nxt = join_on(cur, v)
                if any(v in o.vars() for o in cur) and not any(v in o.vars() for o in nxt):
                    return   # a step without agreeing combination: order unspecified
                cur = nxt
            if clashes:
                break
            results.append(cur)
        if clashes:
            return
        if any(r != results[0] for r in results):
            mon.event("order_sensitive_input")
            return
        mon.log("join on all of", sel, out)
        nm = rng.choice([None, "joined"])
        args = {} if use_all else {"variables": set(sel)}
        if nm:
            args["name"] = nm
        j = mon.accepted(attempt(g.joined_on_variables, **args), f"joining on {sel}")
        mon.eq(canon_set(j.outcomes), results[0], f"outcomes joined on {sel}")
        mon.eq(j.name, nm or g.name, "name")
        mon.eq(canon_set(g.outcomes), out, "joining changed the original graph")
        x = g
        order = list(sel)
        rng.shuffle(order)
        for v in order:
            x = mon.accepted(attempt(x.joined_on_variables, {v}), f"joining on {v!r} step by step")
        mon.eq(canon_set(x.outcomes), results[0], f"joined step by step on {order}")
        mon.event("several")
        mon.event("all", use_all)


PROP = C14()
