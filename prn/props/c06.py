from .. import gen, lib
from ..base import Prop
from ..lib import canon, attempt, canon_set
from ..model import MS
import sys


class Look:
    """foreign object with the attributes of a sample set"""

    def __init__(self, o):
        self.__dict__.update(getattr(o, "__dict__", {}))


class C06(Prop):
    id = "C06"
    rule = ("case = a history of ~40 multiset operations over a pool of set builders, sets and graphs of one network, mirrored on plain dictionaries "
            "of exact integers; every object is compared after each operation; samples are re-created by other routes so that equality of content "
            "matters; non-trivial when some count was accumulated over equal but separately built samples; distinct by history")
    cases = {"quick": 3600, "thorough": 28800}
    need = {"accumulated": 1000, "removed": 500, "union": 500, "filter": 300, "find": 300, "prob": 500, "eq_true": 300, "eq_false": 150, "huge": 300, "full": 3000, "same_total": 80, "large": 3, "find_many": 15, "beyond_floats": 50}

    def check_set(self, mon, ss, m, light=False):
        mon.eq(canon_set(ss), m, "contents of set")
        mon.eq(ss.length, sum(m.values()), "length of set")
        mon.ok(type(ss.length) is int, "length must be an exact integer")
        for c in m.values():
            mon.ok(type(c) is int, "counts must be exact integers")
        if sum(m.values()) < sys.maxsize:
            mon.eq(len(ss), sum(m.values()), "len() of set")
        mon.ok(bool(ss) is bool(m), "truth value of set")
        mon.eq({canon(s) for s in ss.samples()}, set(m), "samples of set")
        if light or not m:
            return
        total = sum(m.values())
        pr = ss.probabilities()
        mon.eq(len(pr), len(m), "number of probabilities")
        for s, p in pr:
            from fractions import Fraction
            mon.close(p, Fraction(m[canon(s)], total), f"probability of {canon(s)}")
            mon.close(ss.probability_of(s), Fraction(m[canon(s)], total), f"probability_of {canon(s)}")
            mon.eq(ss.count_of(s), m[canon(s)], "count_of")
        mon.event("prob")

    def have(self, mon, voc, ss, m):
        for v in voc.vars:
            mon.ok(bool(ss.have_variable(v)) is any(v in k.vars() for k in m), lambda: f"have_variable {v!r} in {m}")
            for x in voc.vars[v]:
                mon.ok(bool(ss.have_value(v, x)) is any((v, x) in k.nodes for k in m), lambda: f"have_value {v!r}={x!r} in {m}")
        mon.ok(not ss.have_variable("nope-zz") and not ss.have_value("nope-zz", 1), "absent variable reported")

    def large(self, mon, rng):
        """hundreds of distinct samples in one container, half of them over a dozen variables and near one another"""
        voc = gen.big_vocab(rng, rng.randint(14, 24), rng.randint(24, 40))
        b = lib.rgb(voc, rng=rng)
        vs = list(voc.vars)
        pool = {}
        for v in vs:
            for x in voc.vars[v]:
                pool[MS([(v, x)])] = gen.count(rng)
        base = gen.msample(rng, voc, 10, density=rng.choice([0, .1]))
        for _ in range(rng.randint(60, 120)):
            pool[base] = gen.count(rng)
            base = gen.mutate(rng, voc, base)
        for _ in range(rng.randint(200, 500)):
            pool[gen.msample(rng, voc, 2, 3)] = gen.count(rng)
        items = list(pool.items())
        rng.shuffle(items)
        mon.log("large", len(items))
        first = lib.build(rng, b, items[0][0], voc=voc)
        sb = b.add_outcome(first, items[0][1]).build().outcomes.builder()
        made = {items[0][0]: first}
        for k, c in items[1:]:
            made[k] = s = lib.build(rng, b, k, voc=voc)
            sb.add(s, c)
            if c < 9:
                b.add_outcome(s, c)
            else:
                b.add_outcomes([s], c)
        mon.eq((sb.length(), len(sb.items())), (sum(pool.values()), len(pool)), "length and entries of a large builder")
        self.check_set(mon, sb.build(), pool)
        g = b.build()
        self.check_set(mon, g.outcomes, pool, light=True)
        part = rng.sample(items, len(items) // 3)
        t = sb.copy()
        for k, c in part:
            r = t.remove(made[k])
            mon.eq((canon(r[0]), r[1]), (k, c), "removed pair")
        rest = {k: c for k, c in items if k not in dict(part)}
        mon.eq((canon_set(t), t.length()), (rest, sum(rest.values())), "large builder after removals")
        u = t.build().union(sb.build())
        self.check_set(mon, u, {k: c + rest.get(k, 0) for k, c in items}, light=True)
        v = rng.choice(vs)
        self.check_set(mon, u.filter_samples(lambda o: v in o.included_variables), {k: c + rest.get(k, 0) for k, c in items if v in k.vars()}, light=True)
        mon.ok(u.union(t.build()) == t.build().union(u) and hash(u.union(t.build())) == hash(t.build().union(u)), "merging must be commutative")
        mon.ok(t.add_all(lib.SampleSetBuilder.join_sample_set([sb.build()])) is t and t.build() == u and hash(t.build()) == hash(u), "the same large set, accumulated otherwise")
        self.have(mon, voc, u, pool)
        for _ in range(12):         # queries with many values, most of them off by one value
            q = dict(rng.choice([k for k in pool if len(k.nodes) > 8]).nodes)
            q = {x: q[x] for x in rng.sample(sorted(q, key=repr), rng.randint(5, len(q)))}
            if rng.random() < .5:
                x = rng.choice(sorted(q, key=repr))
                q[x] = rng.choice(voc.vars[x])
            if rng.random() < .3:
                x = rng.choice(vs)
                q[x] = rng.choice(voc.vars[x])
            q = set(q.items())
            mon.eq(canon_set(g.find_for_values(set(q))), {k: c for k, c in pool.items() if q <= k.nodes}, f"outcomes found for {q}")
            mon.event("find_many")
        mon.event("large")
        mon.nontrivial(voc.sig(), len(pool), "large")

    def case(self, mon, rng, i, tier):
        if rng.random() < .004:
            self.large(mon, rng)
        voc = gen.vocab(rng, nv=(1, 4), nval=(1, 3), big=.03)
        b = lib.rgb(voc, rng=rng)
        full = rng.random()
        size = rng.choice([3, 6, 12]) if full >= .12 else rng.randint(10, 40) if full >= .015 else rng.randint(70, 150)
        if size > 12 and len(voc.vars) < 4:
            voc = gen.vocab(rng, nv=(4, 7), nval=(2, 5))
            b = lib.rgb(voc, rng=rng)
        if size > 40 and rng.random() < .5:
            voc = gen.big_vocab(rng, rng.randint(10, 20), rng.randint(6, 14))
            b = lib.rgb(voc, rng=rng)
            fam = [gen.msample(rng, voc, kmax=2) for _ in range(size)]
        else:
            fam = [gen.msample(rng, voc) for _ in range(size)]
        if rng.random() < .2:
            fam.append(MS())
        absent = gen.msample(rng, voc)

        def mk(ms=None):
            ms = rng.choice(fam) if ms is None else ms
            return ms, lib.build(rng, b, ms, voc=voc)
        ms, s = mk()
        g0 = b.add_outcome(s).build()
        gm = {ms: 1}
        rgm = {ms: 1}
        setbs = [[g0.outcomes.builder(), dict(gm)]]
        sets = [(g0.outcomes, dict(gm))]
        hist, acc = [], 0
        if full < .12:          # start with (nearly) everything there is
            for ms in fam[:rng.randint(len(fam) - 3, len(fam))]:
                c = gen.count(rng, huge=.01)
                setbs[0][0].add(mk(ms)[1], c)
                setbs[0][1][ms] = setbs[0][1].get(ms, 0) + c
            mon.event("full", len(setbs[0][1]))
            sets.append((setbs[0][0].build(), dict(setbs[0][1])))
            if rng.random() < .5:
                b.add_outcomes([mk(ms)[1] for ms in fam])
                for ms in fam:
                    rgm[ms] = rgm.get(ms, 0) + 1
        for step in range(rng.choice([15, 30, 45]) if full >= .015 else 12):
            op = rng.choice(["add", "add", "add", "add_all", "remove", "remove_all", "copy", "build", "build", "builder", "union", "filter", "joinsets",
                             "empty", "rg_add", "rg_adds", "rg_build_sample", "rg_build", "find", "compare", "compare", "have", "drain"])
            e = rng.choice(setbs)
            ss, m = rng.choice(sets)
            hist.append(op)
            mon.log(step, op)
            if op == "add":
                ms, s = mk()
                c = gen.count(rng, huge=.01)
                if c > 2**53:
                    mon.event("huge")
                    mon.event("beyond_floats", c > 10**400)
                acc += ms in e[1]
                mon.ok(e[0].add(s, c) is e[0], "add returns the builder")
                e[1][ms] = e[1].get(ms, 0) + c
            elif op == "add_all":
                src = (ss, m) if rng.random() < .6 else rng.choice(setbs)
                if src is e or src[0] is e[0]:
                    continue
                mon.ok(e[0].add_all(src[0]) is e[0], "add_all returns the builder")
                for k, c in src[1].items():
                    acc += k in e[1]
                    e[1][k] = e[1].get(k, 0) + c
                mon.eq(canon_set(src[0]), src[1], "source of add_all")
            elif op == "remove" and e[1]:
                ms = rng.choice(sorted(e[1], key=repr))
                r = e[0].remove(mk(ms)[1])
                mon.eq((canon(r[0]), r[1]), (ms, e[1].pop(ms)), "removed pair")
                mon.event("removed")
            elif op == "remove_all" and e[1]:
                ks = rng.sample(sorted(e[1], key=repr), rng.randint(1, len(e[1])))
                t = e[0].copy()
                for k in list(e[1]):
                    if k not in ks:
                        t.remove(mk(k)[1])
                mon.eq(canon_set(t), {k: e[1][k] for k in ks}, "subset copy")
                mon.ok(e[0].remove_all(t.build()) is e[0], "remove_all returns the builder")
                for k in ks:
                    del e[1][k]
                mon.event("removed")
            elif op == "drain" and rng.random() < .3:
                t = e[0].copy()
                e[0].remove_all(t)
                e[1].clear()
            elif op == "copy":
                setbs.append([e[0].copy(), dict(e[1])])
            elif op == "build":
                x = e[0].build()
                self.check_set(mon, x, e[1])
                sets.append((x, dict(e[1])))
            elif op == "builder":
                setbs.append([ss.builder(), dict(m)])
            elif op == "union":
                s2, m2 = rng.choice(sets)
                s3, m3 = rng.choice(sets)
                u = ss.union(s2)
                want = dict(m)
                for k, c in m2.items():
                    want[k] = want.get(k, 0) + c
                self.check_set(mon, u, want)
                v = s2.union(ss)
                mon.ok(u == v and hash(u) == hash(v), "merging must be commutative")
                mon.ok(u.union(s3) == ss.union(s2.union(s3)), "merging must be associative")
                sets.append((u, want))
                mon.event("union")
            elif op == "joinsets":
                pick = [rng.choice(sets) for _ in range(rng.randint(1, 5) if rng.random() < .99 else 1100)]
                mon.event("long_list", len(pick) > 1000)
                u = lib.SampleSetBuilder.join_sample_set([x for x, _ in pick])
                want = {}
                for _, mm in pick:
                    for k, c in mm.items():
                        want[k] = want.get(k, 0) + c
                self.check_set(mon, u, want)
                mon.event("union")
            elif op == "filter":
                v = rng.choice(list(voc.vars))
                keep = set(rng.sample(fam, rng.randint(0, len(fam))))
                if rng.random() < .5:
                    f = ss.filter_samples(lambda o: v in o.included_variables)
                    want = {k: c for k, c in m.items() if v in k.vars()}
                else:
                    f = ss.filter_samples(lambda o: canon(o) in keep)
                    want = {k: c for k, c in m.items() if k in keep}
                self.check_set(mon, f, want)
                sets.append((f, want))
                mon.event("filter")
            elif op == "empty":
                x = e[0].empty()
                self.check_set(mon, x, {})
                mon.eq(canon_set(e[0]), e[1], "builder after empty()")
                sets.append((x, {}))
            elif op == "rg_add":
                ms, s = mk()
                c = gen.count(rng, huge=.01)
                acc += ms in rgm
                mon.ok((b.add_outcome(s, c) if rng.random() < .7 else b.add_outcome(s, count=c)) is b, "add_outcome returns the builder")
                rgm[ms] = rgm.get(ms, 0) + c
            elif op == "rg_adds":
                pick = [mk() for _ in range(rng.randint(0, 4))]
                c = rng.choice([None, 1, 3, 2**70])
                mon.ok((b.add_outcomes([s for _, s in pick]) if c is None else b.add_outcomes([s for _, s in pick], c)) is b, "add_outcomes returns the builder")
                for ms, _ in pick:
                    rgm[ms] = rgm.get(ms, 0) + (1 if c is None else c)
            elif op == "rg_build_sample":
                ms = rng.choice([f for f in fam if f.nodes])
                if ms.edges:
                    mon.ok(b.build_sample(lambda x: x.build_from_edges(lib.edges_in(ms.edges))) is b, "build_sample returns the builder")
                else:
                    (v, x), = ms.nodes
                    b.build_sample(lambda y: y.build_single_node(v, x))
                rgm[ms] = rgm.get(ms, 0) + 1
            elif op == "rg_build":
                g = b.build()
                self.check_set(mon, g.outcomes, rgm)
                mon.eq(g.describe()["number_of_outcomes"], sum(rgm.values()), "number of outcomes in description")
                sets.append((g.outcomes, dict(rgm)))
                g0, gm = g, dict(rgm)
            elif op == "find":
                base = rng.choice(list(gm) + fam)
                vals = set(rng.sample(sorted(base.nodes, key=repr), rng.randint(0, len(base.nodes)))) if base.nodes else set()
                if rng.random() < .2:
                    v = rng.choice(list(voc.vars))
                    vals.add((v, rng.choice(voc.vars[v])))
                f = g0.find_for_values(set(vals))
                self.check_set(mon, f, {k: c for k, c in gm.items() if vals <= k.nodes})
                mon.event("find")
            elif op == "compare":
                s2, m2 = rng.choice(sets)
                if rng.random() < .5:
                    # rebuild the same content from scratch, in another order
                    nb = lib.SampleSetBuilder.join_sample_set([ss]).builder()
                    t = nb.copy()
                    for k in list(m):
                        t.remove(mk(k)[1])
                    its = list(m.items())
                    rng.shuffle(its)
                    for k, c in its:
                        t.add(mk(k)[1], c)
                    s2, m2 = t.build(), dict(m)
                    how = rng.random()
                    if len(m2) > 1 and how < .4:        # the same samples and the same total, but other counts
                        j, k = rng.sample(sorted(m2, key=repr), 2)
                        if how < .2:
                            m2[j], m2[k] = m2[k], m2[j]
                        else:
                            m2[j] += 1
                            m2[k] -= 1
                        if m2[k] > 0:
                            for q in (j, k):
                                t.remove(mk(q)[1])
                                t.add(mk(q)[1], m2[q])
                            s2 = t.build()
                            mon.event("same_total")
                        else:
                            m2 = dict(m)
                    elif m2 and how < .6:
                        k = rng.choice(sorted(m2, key=repr))
                        t.add(mk(k)[1], 1)
                        m2[k] += 1
                        s2 = t.build()
                same = m == m2
                mon.ok((ss == s2) is same and (s2 == ss) is same and (ss != s2) is (not same), lambda: f"equality of sets must be {same}: {m} / {m2}")
                if same:
                    mon.ok(hash(ss) == hash(s2), "equal sets hash differently")
                mon.event("eq_true" if same else "eq_false")
                for x in (None, 0, m, dict(ss.items()), ss.items(), e[0], g0, Look(ss)):
                    mon.ok((ss == x) is False and (ss != x) is True, lambda: f"a sample set equals {type(x).__name__}")
            elif op == "have":
                self.have(mon, voc, ss, m)
            # everything in the pool keeps agreeing with its own model
            mon.eq(canon_set(e[0]), e[1], f"set builder after {op}")
            mon.eq(e[0].length(), sum(e[1].values()), "length of builder")
            mon.ok(bool(e[0]) is bool(e[1]), "truth value of builder")
            x, mx = rng.choice(sets)
            self.check_set(mon, x, mx, light=True)
            if absent not in mx:
                s = lib.build(rng, b, absent, voc=voc)
                mon.refused(attempt(x.count_of, s), "count of absent sample")
                mon.refused(attempt(x.probability_of, s), "probability of absent sample")
        for x, mx in sets:
            self.check_set(mon, x, mx)
        self.have(mon, voc, *max(sets, key=lambda p: len(p[1])))
        for x, mx in setbs:
            mon.eq(canon_set(x), mx, "builder at the end")
        mon.eq(canon_set(b.build().outcomes), rgm, "graph builder at the end")
        mon.event("accumulated", acc)
        if acc:
            mon.nontrivial(voc.sig(), hist, len(fam))
        mon.sample(" ".join(hist))


PROP = C06()
