import itertools
import math
import random
from fractions import Fraction

from .. import pac
from ..base import Prop
from ..lib import attempt

util = pac.util


class Draws:
    """stands in for the global random source of the code under test"""
    def __init__(self, values):
        self.values, self.used = list(values), 0

    def __enter__(self):
        self.old = random.random
        random.random = self.draw
        return self

    def __exit__(self, *a):
        random.random = self.old

    def draw(self):
        v = self.values[min(self.used, len(self.values) - 1)]
        self.used += 1
        return v


TOP = 1 - 2.0 ** -53


class C26(Prop):
    id = "C26"
    rule = ("case = one random operation history on each container against a plain reference, vector arithmetic on counters against exact fractions, sampling with "
            "injected draws placed inside, at the edges and just beside every cumulative interval, and the tables and helpers for directions, distances, nearest "
            "points and matrices; non-trivial when the history mixes at least ten operations; distinct by history")
    cases = {"quick": 10400, "thorough": 100000}
    need = {"stack": 20000, "queue": 20000, "pq": 30000, "pq_tie": 4000, "pq_update_lower": 2000, "pq_update_higher": 1000, "pq_update_new": 1000, "pq_function": 8000,
            "counter": 20000, "draw": 30000, "edge_draw": 5000, "short_sum": 30, "nsample": 3000, "normalised": 3000, "grid": 15000, "large": 100, "crowd": 12000}
    assumptions = ["the random source is random.random; a draw of exactly zero and draws within rounding of an interval's edge may go to either neighbour",
                   "priority-queue updates address items that are in the queue at most once", "keys of a sampled counter can be sorted"]

    def containers(self, mon, rng, size=1):
        hist = []
        for cls, kind in ((util.Stack, "stack"), (util.Queue, "queue")):
            c, ref = cls(), []
            for _ in range(rng.choice([10, 40] if size == 1 else [700])):
                if rng.random() < (.55 if size == 1 else .8):
                    x = rng.choice([rng.randint(0, 3), None, "a", (1, 2), [1]])
                    c.push(x)
                    ref.append(x)
                    hist.append("push")
                elif ref:
                    mon.eq(c.pop(), ref.pop(-1 if kind == "stack" else 0), f"{kind} pop")
                    hist.append("pop")
                else:
                    mon.refused(attempt(c.pop), f"pop of an empty {kind}")
                mon.eq(bool(c.isEmpty()), not ref, f"{kind} empty")
                mon.event(kind)
            while ref:
                mon.eq(c.pop(), ref.pop(-1 if kind == "stack" else 0), f"{kind} drain")
            mon.ok(c.isEmpty(), "drained container is empty")
        return hist

    def queue(self, mon, rng, size=1):
        """reference: list of [priority, serial, item]; the lowest priority first, ties by serial"""
        q, ref, serial, hist = util.PriorityQueue(), [], 0, []
        span = rng.choice([2, 5, 1000])
        names = itertools.count()
        shape = rng.choice([str, lambda k: (k, "i"), lambda k: f"i{k}", float])

        def name():
            return shape(next(names))

        def again(x):
            """an equal item that is not the same object"""
            return tuple(list(x)) if isinstance(x, tuple) else "".join(list(x)) if isinstance(x, str) else type(x)(repr(x)) if isinstance(x, float) else x
        dup = rng.random() < .3
        for _ in range(rng.choice([15, 60]) * size):
            r = rng.random() * (1 if size == 1 else .8)
            p = rng.choice([rng.randint(0, span), rng.randint(0, span) / 2, -rng.randint(0, span)])
            if r < .4:
                it = rng.choice(["same", {"unorderable": 1}, [2]]) if dup else name()
                q.push(it, p)
                ref.append([p, serial, it])
                serial += 1
                hist.append(("push", p))
            elif r < .7 and not dup:
                if ref and rng.random() < .8:
                    e = rng.choice(ref)
                    p = rng.choice([e[0], e[0] + 1, e[0] - 1, p])
                    q.update(again(e[2]), p)
                    mon.event("pq_update_lower" if p < e[0] else "pq_update_higher")
                    e[0] = min(e[0], p)
                    hist.append(("update", p))
                else:
                    it = name()
                    q.update(it, p)
                    ref.append([p, serial, it])
                    serial += 1
                    mon.event("pq_update_new")
            elif ref:
                best = min(ref, key=lambda e: (e[0], e[1]))
                if sum(e[0] == best[0] for e in ref) > 1:
                    mon.event("pq_tie")
                mon.eq(q.pop(), best[2], lambda: f"priority queue holding {sorted(ref, key=lambda e: e[:2])}")
                ref.remove(best)
                hist.append("pop")
            else:
                mon.refused(attempt(q.pop), "pop of an empty priority queue")
            mon.eq(bool(q.isEmpty()), not ref, "priority queue empty")
            mon.event("pq")
        for e in sorted(ref, key=lambda e: (e[0], e[1])):
            mon.eq(q.pop(), e[2], "draining the priority queue")
        f = {x: rng.randint(0, 4) for x in "abcdefgh"}
        w, ref = util.PriorityQueueWithFunction(f.get), []
        for n in range(20 * size):
            if rng.random() < .6 or not ref:
                x = rng.choice("abcdefgh")
                w.push(x)
                ref.append((f[x], n, x))
            else:
                mon.eq(w.pop(), min(ref)[2], "priority queue with a function")
                ref.remove(min(ref))
            mon.event("pq_function")
        return hist

    def crowd(self, mon, rng):
        """thousands of items: first come, first served among equals"""
        q, c, s, n = util.PriorityQueue(), util.Queue(), util.Stack(), rng.choice([1100, 5000, 9000])
        for k in range(n):
            q.push(k, k % 2 if n % 1000 else 0)
            c.push(k)
            s.push(k)
        mon.eq([q.pop() for _ in range(n)], sorted(range(n), key=lambda k: k % 2 if n % 1000 else 0), "priority queue of thousands of items")
        mon.eq([c.pop() for _ in range(n)], list(range(n)), "queue of thousands of items")
        mon.eq([s.pop() for _ in range(n)], list(range(n))[::-1], "stack of thousands of items")
        mon.ok(q.isEmpty() and c.isEmpty() and s.isEmpty(), "emptied containers are empty")
        for k in range(n):      # a queue that never holds more than a few, for a long time
            q.push(k, 1)
            if k % 5 == 4:
                mon.eq([q.pop() for _ in range(5)], list(range(k - 4, k + 1)), "items in order of arrival")
        mon.event("crowd", n)

    def counters(self, mon, rng, size=1):
        def make():
            keys = rng.sample("abcdefgh", rng.randint(0, 6)) if size == 1 else rng.sample(range(200), rng.randint(30, 150)) + list("abc")
            low, high = rng.choice([(-5, 9), (-5, 9), (-9, 5), (-9, -1)])
            ref = {k: rng.choice([0 if high > 0 else low, rng.randint(low, high), Fraction(rng.randint(low, high), 4)]) for k in keys}
            c = util.Counter()
            for k, v in ref.items():
                c[k] = float(v) if isinstance(v, Fraction) else v
            return c, ref

        def val(d, k):
            return d.get(k, 0)

        (a, ra), (b, rb) = make(), make()
        ks = set(ra) | set(rb) | {"zz"}
        for got, want, what in ((a + b, {k: val(ra, k) + val(rb, k) for k in ks}, "sum"), (a - b, {k: val(ra, k) - val(rb, k) for k in ks}, "difference")):
            mon.eq({k: Fraction(dict.get(got, k, 0)) for k in ks}, {k: Fraction(v) for k, v in want.items()}, f"{what} of {ra} and {rb}")
            mon.ok(isinstance(got, util.Counter) and set(got) == set(ra) | set(rb), "keys of a combined counter", set(got))
            mon.eq(got["never seen"], 0, "default of a combined counter")
        mon.eq(Fraction(a * b), sum((Fraction(val(ra, k)) * val(rb, k) for k in ks), Fraction(0)), f"product of {ra} and {rb}")
        mon.eq(Fraction(b * a), Fraction(a * b), "product both ways")
        mon.eq(({k: Fraction(v) for k, v in a.items()}, {k: Fraction(v) for k, v in b.items()}), ({k: Fraction(v) for k, v in ra.items()}, {k: Fraction(v) for k, v in rb.items()}),
               "counters after arithmetic")
        mon.eq(Fraction(a.totalCount()), sum(map(Fraction, ra.values()), Fraction(0)), "total count")
        c = a.copy()
        mon.ok(isinstance(c, util.Counter) and c == a and c is not a, "copy of a counter")
        c["a"] += 3
        mon.eq(Fraction(dict.get(a, "a", 0)), Fraction(val(ra, "a")), "original after editing its copy")
        mon.eq(Fraction(c["a"]), Fraction(val(ra, "a")) + 3, "edited copy")
        mon.eq(c["fresh"], 0, "default count")
        c = d = a.copy()
        e = b.copy()
        c += e
        c["zz"] += 5
        e["yy"] -= 2
        mon.eq({k: Fraction(dict.get(c, k, 0)) for k in ks | {"yy"}}, {k: Fraction(val(ra, k) + val(rb, k) + (5 if k == "zz" else 0)) for k in ks | {"yy"}}, f"adding {rb} to {ra} in place, edited after")
        mon.eq({k: Fraction(dict.get(e, k, 0)) for k in ks | {"yy"}}, {k: Fraction(val(rb, k) - (2 if k == "yy" else 0)) for k in ks | {"yy"}}, f"counter added in place to {ra}")
        c = a.copy()
        c.incrementAll(["a", "b", "a"], 2)
        mon.eq([Fraction(c[k]) for k in "abc"], [Fraction(val(ra, "a")) + 4, Fraction(val(ra, "b")) + 2, Fraction(val(ra, "c"))], "increment all")
        if ra:
            best = a.argMax()
            mon.ok(best in ra and all(ra[best] >= v for v in ra.values()), "key of the largest count", best)
            sk = a.sortedKeys()
            mon.ok(len(sk) == len(ra) and set(sk) == set(ra) and all(ra[x] >= ra[y] for x, y in zip(sk, sk[1:])), lambda: f"keys by count of {ra}: {sk}")
            near = util.Counter()           # counts that differ by next to nothing
            top, step = rng.choice([1, 1.5, 1e6, 0, -2]), rng.choice([1e-12, 1e-10, 1e-7])
            for j, k in enumerate(rng.sample(sorted(ra, key=repr), min(len(ra), 5))):
                near[k] = top + j * step if top < 1e5 else int(top) ** 3 + j
            best = max(near.items(), key=lambda kv: kv[1])[0]
            sk = near.sortedKeys()
            mon.ok(near[near.argMax()] == near[best], lambda: f"key of the largest count of {near}")
            mon.ok(len(sk) == len(near) and all(near[x] >= near[y] for x, y in zip(sk, sk[1:])), lambda: f"keys by count of {near}: {sk}")
        else:
            mon.eq((a.argMax(), a.sortedKeys()), (None, []), "empty counter")
        d = rng.choice([2, 4, -8, .5])
        c = a.copy()
        c.divideAll(d)
        mon.eq({k: Fraction(v) for k, v in c.items()}, {k: Fraction(v) / Fraction(d) for k, v in ra.items()}, "division of all counts")
        # normalising
        pos = {k: rng.choice([0, rng.randint(1, 9), rng.random(), 1e-12, 1e12]) for k in ra}
        c = util.Counter()
        for k, v in pos.items():
            c[k] = v
        t = sum(map(Fraction, pos.values()), Fraction(0))
        n = util.normalize(c)
        keep = dict(c)
        e = c.copy()
        e.normalize()
        lst = list(pos.values())
        nl = util.normalize(lst)
        mon.eq((dict(c), lst), (keep, list(pos.values())), "argument of normalize")
        for k, v in pos.items():
            want = Fraction(v) / t if t else Fraction(v)
            mon.close(float(n[k]), want, f"normalised {k} of {pos}")
            mon.close(float(e[k]), want, f"normalised in place {k} of {pos}")
        mon.ok(set(e) == set(pos) and set(n) == set(pos), "keys after normalising")
        for x, v in zip(nl, lst):
            mon.close(float(x), Fraction(v) / t if t else Fraction(v), "normalised list")
        if t:
            mon.close(math.fsum(e.values()), 1, "sum after normalising")
        mon.event("normalised")
        mon.event("counter", 4)

    def dist(self, rng, size=1):
        n = rng.choice([1, 2, 3, 5, 10, 20] if size == 1 else [40, 70, 130, 300])
        k = rng.random()
        if k < .4:
            p = [rng.randint(0, 5) for _ in range(n)]
        elif k < .6:
            p = [1 / n] * n
        elif k < .7:
            p = [.1] * 10
        else:
            p = [rng.random() * rng.choice([1, 1, 1e-6]) for _ in range(n)]
        if not any(p):
            p[rng.randrange(n)] = 1
        if rng.random() < .5:
            s = sum(p)
            p = [x / s for x in p]
        return p

    def sampling(self, mon, rng, size=1):
        p = self.dist(rng, size)
        n = len(p)
        tot = sum(map(Fraction, p))
        norm = [Fraction(x) / tot for x in p]
        edges = [Fraction(0)]
        for x in norm:
            edges.append(edges[-1] + x)
        vals = [f"v{k:03d}" for k in range(n)]
        eps = Fraction(1, 10 ** 12)

        def okay(v, r):
            """items whose interval holds the draw, give or take rounding"""
            k = vals.index(v)
            near = edges[k] - eps <= Fraction(r) <= edges[k + 1] + eps
            return near and (norm[k] > 0 or r > 1 - eps)        # a draw in the rounding gap at the very end goes to the last item

        draws = [rng.random(), TOP, 2.0 ** -53, rng.random()]
        for e in edges[1:-1]:
            f = float(e)
            draws += [f, math.nextafter(f, 0), math.nextafter(f, 1)]
            mon.event("edge_draw", 3)
        for k in range(n):
            if norm[k] > 0:
                draws.append(float(edges[k] + norm[k] * Fraction(rng.randint(1, 9), 10)))
        if float(sum(p)) < 1 and abs(sum(p) - 1) < 1e-9:
            mon.event("short_sum")
        if size > 1:
            draws = rng.sample(draws, min(60, len(draws)))
        for r in draws:
            if not 0 < r < 1:
                continue
            ctr = util.Counter()
            for v, x in zip(vals, p):
                ctr[v] = x
            shuffled = list(zip(p, vals))
            routes = [("sample", lambda: util.sample(list(p), list(vals))), ("sample of a counter", lambda: util.sample(ctr)),
                      ("sampleFromCounter", lambda: util.sampleFromCounter(ctr)), ("chooseFromDistribution", lambda: util.chooseFromDistribution(ctr)),
                      ("chooseFromDistribution of a dictionary", lambda: util.chooseFromDistribution(dict(ctr)))]
            if abs(sum(p) - 1) < 1e-9:
                routes.append(("chooseFromDistribution of pairs", lambda: util.chooseFromDistribution([(x, v) for x, v in shuffled])))
            for what, f in routes if n < 6 else rng.sample(routes, 2):
                with Draws([r]) as d:
                    v = mon.accepted(attempt(f), f"{what} of {p} with draw {r!r}")
                mon.ok(v in vals, lambda: f"{what} of {p} with draw {r!r} gave {v!r}")
                if d.used == 1:
                    mon.ok(okay(v, r), lambda: f"{what} of {p} with draw {r!r} gave {v!r}, whose interval is {[float(e) for e in edges[vals.index(v):vals.index(v) + 2]]}")
                mon.event("draw")
            mon.eq(dict(ctr), dict(zip(vals, p)), "counter after sampling")
        k = rng.randint(0, 6)
        rs = [rng.choice(draws) for _ in range(k)]
        rs = [r if 0 < r < 1 else .5 for r in rs]
        with Draws(rs or [.5]) as d:
            got = mon.accepted(attempt(util.nSample, list(p), list(vals), k), f"nSample of {p} with draws {rs}")
        mon.eq(len(got), k, "number of samples")
        if d.used == k:
            for v, r in zip(got, sorted(rs)):
                mon.ok(okay(v, r), lambda: f"nSample of {p} with draws {rs} gave {got}")
        mon.event("nsample")
        for v in vals[:3]:
            dup = [rng.choice(vals[:3]) for _ in p]
            mon.close(util.getProbability(v, p, dup), sum((Fraction(x) for x, y in zip(p, dup) if y == v), Fraction(0)), "probability of a value", 1e-9)
        with Draws([rng.random()]) as d:
            q = rng.choice([0, 1, rng.random()])
            mon.eq(bool(util.flipCoin(q)), d.values[0] < q, "coin")

    def helpers(self, mon, rng, size=1):
        for _ in range(4):
            a, b = [(rng.randint(-20, 20) / rng.choice([1, 2]), rng.randint(-20, 20)) for _ in "ab"]
            mon.eq(util.manhattanDistance(a, b), abs(a[0] - b[0]) + abs(a[1] - b[1]), "distance")
            mon.eq(util.manhattanDistance(b, a), util.manhattanDistance(a, b), "distance both ways")
            p = (rng.randint(0, 80) / 4, rng.random() * 20)
            g = util.nearestPoint(p)
            mon.ok(all(isinstance(c, int) and abs(c - x) <= .5 for c, x in zip(g, p)), f"nearest grid point of {p}", g)
            mon.eq(util.nearestPoint(g), g, "nearest grid point of a grid point")
            x = rng.choice([rng.randint(-3, 3), rng.random() - .5])
            if x:
                mon.eq(util.sign(x), 1 if x > 0 else -1, "sign")
        n = rng.randint(1, 5) if size == 1 else rng.randint(15, 50)
        m = [[rng.randint(0, 2) for _ in range(n)] for _ in range(n)]
        inv = util.arrayInvert(m)
        mon.eq(inv, [[m[r][c] for r in range(n)] for c in range(n)], "flipped matrix")
        mon.eq(util.arrayInvert(inv), m, "matrix flipped twice")
        wide = 3 if size == 1 else rng.randint(20, 60)
        rect = [[rng.random() < .4 for _ in range(wide)] for _ in range(n)]
        for v in (True, False):
            mon.eq(sorted(util.matrixAsList(rect, v)), [(r, c) for r in range(n) for c in range(wide) if rect[r][c] == v], "cells of a matrix")
        D, A = pac.game.Directions, pac.game.Actions
        for d in pac.DIRS:
            v = A.directionToVector(d)
            mon.eq(tuple(v), pac.VEC[d], f"vector of {d}")
            mon.eq(A.vectorToDirection(v), d, "direction of its vector")
            sp = rng.choice([.5, 1, 2.0])
            mon.eq(tuple(A.directionToVector(d, sp)), (pac.VEC[d][0] * sp, pac.VEC[d][1] * sp), "vector with speed")
            mon.eq(A.vectorToDirection(A.directionToVector(d, sp)), d, "direction of a scaled vector")
            mon.eq((A.reverseDirection(d), D.REVERSE[d]), (pac.BACK[d],) * 2, "reverse")
            mon.eq((D.RIGHT[D.LEFT[d]], D.LEFT[D.RIGHT[d]], D.LEFT[D.LEFT[d]], D.RIGHT[D.RIGHT[d]]), (d, d, pac.BACK[d], pac.BACK[d]), "left and right")
            p = (rng.randint(1, 9), rng.randint(1, 9))
            mon.eq(tuple(A.getSuccessor(p, d)), (p[0] + pac.VEC[d][0], p[1] + pac.VEC[d][1]), "successor position")
        mon.eq((D.LEFT["North"], D.RIGHT["North"]), ("West", "East"), "left and right of north")
        text = pac.board(rng) if rng.random() < .5 else ["".join(rng.choice("% ") for _ in range(6)) for _ in range(5)]
        lay, b = pac.layout.Layout(list(text)), pac.Board(text)
        for _ in range(5):
            p = (rng.randrange(b.w), rng.randrange(b.h))
            want = sorted((p[0] + dx, p[1] + dy) for dx, dy in pac.VEC.values()
                          if 0 <= p[0] + dx < b.w and 0 <= p[1] + dy < b.h and (p[0] + dx, p[1] + dy) not in b.walls)
            mon.eq(sorted(A.getLegalNeighbors(p, lay.walls)), want, f"open neighbours of {p} in {text}")
            mon.event("grid")

    def case(self, mon, rng, i, tier):
        size = 1 if i % 50 else 10
        if i % 1000 == 7:
            self.crowd(mon, rng)
        mon.event("large", size > 1)
        hist = self.containers(mon, rng, size) + self.queue(mon, rng, size)
        self.counters(mon, rng, size)
        self.sampling(mon, rng, size)
        self.helpers(mon, rng, size)
        if len(hist) >= 10:
            mon.nontrivial(repr(hist))
        mon.sample(hist[:12])


PROP = C26()
