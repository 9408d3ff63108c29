from copy import copy
from math import prod
from .. import gen, lib
from ..base import Prop
from ..lib import canon, attempt
from ..model import MS, join_verdict, agree


def whole(pieces):
    """union of all pieces, None when it is not a sample (unconnected or contradicting)"""
    left, acc = list(dict.fromkeys(pieces)), None
    while left:
        nxt = left[0] if acc is None else next((x for x in left if x.nodes & acc.nodes), None)
        if nxt is None or acc is not None and not join_verdict(acc, nxt):
            return None
        acc = nxt if acc is None else acc.union(nxt)
        left.remove(nxt)
    return acc


class C03(Prop):
    id = "C03"
    rule = ("case = a history of samples (overlapping, conflicting in value or relation, disjoint, contained, single-node, empty) joined "
            "into one builder and checked against the union model, plus order permutations of a jointly consistent family; "
            "non-trivial when at least one join was accepted and one refused, or a permuted family had 3+ members; distinct by history")
    cases = {"quick": 10400, "thorough": 83200}
    need = {"join_ok": 4000, "join_refused": 2000, "conflict_true": 100, "perm": 1000, "long": 3, "set_lucky": 3000, "set_late_link": 500, "set_refused": 1500}

    def fixed(self):
        return [self.long_chain]

    def long_chain(self, mon, rng):
        n = 2600
        voc = gen.Vocab({i: [0] for i in range(n)}, ["r"], "chain")
        b = lib.rgb(voc)
        edges = [(frozenset(((i, 0), (i + 1, 0))), "r") for i in range(n - 1)]
        s = b.sample_builder().build_from_edges(lib.edges_in(edges), False)
        for at in (0, n - 1, 1300):
            sb = b.sample_builder().join_sample(b.sample_builder().build_single_node(at, 0))
            sb = mon.accepted(attempt(sb.join_sample, s), f"joining a chain of {n} nodes at node {at}")
            mon.eq(canon(sb.build()), MS((), edges), "join of long chain")
            mon.event("long")
        mon.nontrivial("long")

    def piece(self, rng, voc, cur, world):
        k = rng.random()
        if k < .45 and world.nodes:
            return gen.subsample(rng, world)            # consistent with the common world
        if k < .6 and cur.nodes:
            return gen.mutate(rng, voc, gen.subsample(rng, cur)) if cur.single_valued() else gen.subsample(rng, cur)
        if k < .7:
            v = rng.choice(list(voc.vars))
            return MS([(v, rng.choice(voc.vars[v]))])
        if k < .72:
            return MS()
        if k < .76:
            return gen.multi_msample(rng, voc)
        return gen.msample(rng, voc)

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(2, 7), nval=(1, 3), big=.03) if i % 60 else gen.big_vocab(rng, rng.choice([15, 40]))
        b = lib.rgb(voc, rng=rng)
        world = gen.msample(rng, voc, kmin=2)
        sb, cur = b.sample_builder(), MS()
        hist, oks, refs = [], 0, 0
        for step in range(rng.choice([2, 4, 8])):
            p = self.piece(rng, voc, cur, world)
            s = lib.build(rng, b, p, route=None if p.single_valued() else "add", voc=voc)
            want = join_verdict(cur, p)
            pre = attempt(sb.can_sample_be_joined, s)
            pre = mon.accepted(pre, "conflict pre-check")
            mon.ok(bool(pre) is (not cur.conflict(p)), lambda: f"conflict pre-check of {p} into {cur} must be {not cur.conflict(p)}")
            if not pre:
                mon.event("conflict_true")
            mon.log("join", p, "into", cur, "->", want)
            got = attempt(sb.join_sample, s)
            hist.append((repr(p), want is not None))
            if want is None:
                mon.refused(got, f"joining {p} into {cur}")
                refs += 1
            else:
                r = mon.accepted(got, f"joining {p} into {cur}")
                mon.ok(r is sb, "join must return the builder")
                cur = want
                oks += 1
            if cur.nodes:
                mon.eq(canon(sb.build()), cur, "content after join")
            else:
                mon.refused(attempt(sb.build), "building an empty builder")
            mon.eq(canon(s), p, "joined sample must stay as it was")
            if rng.random() < .2 and cur.nodes:
                # mix with relation-by-relation extension
                sb = copy(sb) if rng.random() < .5 else sb.build().builder()
        mon.event("join_ok", oks)
        mon.event("join_refused", refs)
        if oks and refs:
            mon.nontrivial("h", voc.sig(), hist)
        # any order of pairwise overlapping, consistent samples
        root = rng.choice(sorted(world.nodes, key=repr))
        fam = []
        for _ in range(rng.randint(2, 5)):
            x = self.around(rng, world, root)
            fam.append(x)
        want = MS()
        for x in fam:
            want = want.union(x)
        objs = [lib.build(rng, b, x, voc=voc) for x in fam]
        for _ in range(3):
            order = rng.sample(objs, len(objs))
            t = b.sample_builder()
            for s in order:
                mon.accepted(attempt(t.join_sample, s), f"joining {canon(s)}")
            mon.eq(canon(t.build()), want, f"union of {fam} in order {[objs.index(o) for o in order]}")
            mon.event("perm")
        # the same through a sample set
        counts = {}
        rgb = lib.rgb(voc)
        objs2 = [lib.build(rng, rgb, x, voc=voc) for x in fam]
        for x, s in zip(fam, objs2):
            c = gen.count(rng)
            rgb.add_outcome(s, c)
            counts[x] = counts.get(x, 0) + c
        ss = rgb.build().outcomes
        js, cs = mon.accepted(attempt(ss.make_joined_sample), f"joining sample set {fam}")
        mon.eq(canon(js), want, "joined sample of set")
        mon.eq(sorted(cs), sorted(counts.values()), "counts of joined samples")
        # whole sets of samples added in any order: joined exactly when the union is connected and consistent
        for _ in range(2):
            rgb = lib.rgb(voc)
            size = rng.choice([2, 3, 4, 6, 9])
            pieces = [gen.subsample(rng, world, rng.choice([1, 2, 2, 3])) if rng.random() < .97 else gen.msample(rng, voc) for _ in range(size)]
            if rng.random() < .4 and world.edges:    # relations one by one
                pieces = [MS(ep, [(ep, r)]) for ep, r in rng.sample(sorted(world.edges, key=repr), rng.randint(1, len(world.edges)))]
            rng.shuffle(pieces)
            counts = {}
            for x in pieces:
                c = gen.count(rng)
                rgb.add_outcome(lib.build(rng, rgb, x, voc=voc), c)
                counts[x] = counts.get(x, 0) + c
            ss = rgb.build().outcomes
            got = attempt(ss.make_joined_sample)
            want = whole(pieces)
            mon.event("set_lucky", want is not None)
            if want is None:
                mon.refused(got, lambda: f"joining the set {pieces}, whose union is not a sample")
                mon.event("set_refused")
            else:
                js, cs = mon.accepted(got, lambda: f"joining the set {pieces}")
                mon.eq(canon(js), want, "joined sample of a set")
                mon.eq(sorted(cs), sorted(counts.values()), "counts of the joined samples of a set")
                seen, lucky = set(), True
                for x in counts:
                    lucky &= not seen or bool(x.nodes & seen)
                    seen |= x.nodes
                mon.event("set_late_link", not lucky)
        # agreement queries on arbitrary sets
        rgb = lib.rgb(voc)
        fam2 = [gen.subsample(rng, world) if rng.random() < .6 else gen.msample(rng, voc) for _ in range(rng.randint(1, 4))]
        for x in fam2:
            rgb.add_outcome(lib.build(rng, rgb, x, voc=voc))
        ss = rgb.build().outcomes
        a = agree(fam2)
        mon.ok(bool(ss.is_all_values_match()) is a, lambda: f"agreement of values in {fam2} must be {a}")
        mon.ok(bool(ss.can_join_samples()) is a, lambda: f"joinability (values) of {fam2} must be {a}")
        mon.event("agree_true" if a else "agree_false")
        if len(fam) >= 3:
            mon.nontrivial("p", voc.sig(), [repr(f) for f in fam])
        mon.sample(hist)

    def around(self, rng, world, root):
        """random connected sub-sample containing root"""
        seen, edges = {root}, set()
        n = rng.randint(1, len(world.nodes))
        el = sorted(world.edges, key=repr)
        while len(seen) < n:
            cand = [e for e in el if len(e[0] & seen) == 1]
            if not cand:
                break
            e = rng.choice(cand)
            edges.add(e)
            seen |= e[0]
        for e in el:
            if e[0] <= seen and rng.random() < .4:
                edges.add(e)
        return MS(seen, edges)


PROP = C03()
