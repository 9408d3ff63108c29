from .. import gen, lib
from ..base import Prop
from ..lib import canon, attempt
from ..model import MS, all_samples, count_all

BUDGET = {"quick": 2500, "thorough": 9000}


class C07(Prop):
    id = "C07"
    rule = ("case = one vocabulary; the generated outcomes are compared one by one with an independent enumeration (and, for the largest, with the closed "
            "form of the number of connected samples plus validity and distinctness of each); non-trivial when at least one variable has several "
            "values and there are two or more variables; distinct by vocabulary shape, label profile and hash seed")
    cases = {"quick": 720, "thorough": 6000}
    need = {"generated": 20000, "enumerated": 250, "counted": 5, "refused_nonempty": 200, "single_variable": 10, "four_vars": 5, "ids": 20000}
    case_limit = 300

    def fixed(self):
        def big(shape, nrel):
            def f(mon, rng):
                voc = gen.Vocab({f"v{i}": list(range(k)) for i, k in enumerate(shape)}, [f"r{j}" for j in range(nrel)], "fixed")
                self.one(mon, rng, voc, count_only=True)
                mon.event("counted")
            return f
        def full(shape, nrel):
            def f(mon, rng):
                voc = gen.Vocab({f"v{i}": list(range(k)) for i, k in enumerate(shape)}, [f"r{j}" for j in range(nrel)], "fixed")
                self.one(mon, rng, voc)
            return f
        return [big((2, 2, 2, 2), 1), big((1, 1, 1, 1), 3), big((1, 1, 1, 1, 1), 1), big((2, 1, 2, 1), 2), big((3, 3, 3), 3), big((4, 3, 5), 2),
                big((1, 2, 1, 1, 2), 1),
                full((1,), 1), full((5,), 3), full((1, 1), 1), full((3, 2), 2), full((2, 2, 2), 2), full((1, 1, 1), 4), full((1, 2, 3), 3),
                full((2, 1, 1, 2), 1), full((30,), 1), full((9, 11), 3), full((1, 1), 40), full((2, 7, 5), 1), big((9, 7, 3), 2), big((1, 1, 1), 12)]

    def one(self, mon, rng, voc, count_only=False):
        b = lib.rgb(voc, rng=rng)
        if rng.random() < .3:
            b.sample_builder().build_single_node(*next((v, xs[0]) for v, xs in voc.vars.items()))
        mon.log("generate", voc)
        r = mon.accepted(attempt(b.generate_all_possible_outcomes), f"generation for {voc}")
        mon.ok(r is b, "generation must hand back the builder")
        g = b.build()
        seen = {}
        for s, c in g.outcomes.items():
            m = canon(s)
            mon.ok(c == 1, lambda: f"{m} generated with count {c}")
            mon.ok(m not in seen, lambda: f"{m} generated twice")
            seen[m] = s
            mon.ok(bool(m.nodes) and m.single_valued() and m.connected(), lambda: f"generated an invalid sample {m}")
            mon.ok(all(x in voc.vars[v] for v, x in m.nodes) and all(r in voc.rels for _, r in m.edges), lambda: f"generated undeclared parts {m}")
        n = count_all(voc.vars, voc.rels)
        mon.eq(len(seen), n, f"number of generated outcomes for {voc}")
        mon.eq(g.outcomes.length, n, "length of generated outcomes")
        if not count_only:
            want = set(all_samples(voc.vars, voc.rels))
            miss = want - set(seen)
            extra = set(seen) - want
            mon.ok(not miss and not extra, lambda: f"generated outcomes of {voc}: missing {list(miss)[:3]}, unexpected {list(extra)[:3]}")
            mon.event("enumerated")
        mon.event("generated", n)
        mon.event("single_variable", len(voc.vars) == 1)
        mon.event("four_vars", len(voc.vars) == 4)
        # generation is refused once there are outcomes, and then changes nothing
        mon.refused(attempt(b.generate_all_possible_outcomes), "generation on the generated builder")
        mon.eq(b.build().outcomes == g.outcomes, True, "outcomes after refused generation")
        b2 = lib.rgb(voc)
        ms = gen.msample(rng, voc)
        b2.add_outcome(lib.build(rng, b2, ms, voc=voc), rng.choice([1, 3]))
        mon.refused(attempt(b2.generate_all_possible_outcomes), "generation on a builder holding an outcome")
        mon.refused(attempt(g.builder().generate_all_possible_outcomes), "generation on the graph's own builder")
        mon.event("refused_nonempty")
        # generated samples are found again by content
        for _ in range(4):
            p = gen.msample(rng, voc, p_dir=0)
            mon.eq(g.outcomes.count_of(lib.build(rng, b, p, voc=voc)), 1, f"count of {p} among the generated")
        # the identifiers a builder hands out never repeat, before, between and after generations
        b3 = lib.rgb(voc)
        ids = [b3.next_id() for _ in range(rng.choice([0, 3, 50]))]
        if n <= 200:
            b3.generate_all_possible_outcomes()
        k = rng.choice([5, 40, 40, 40, 3000])
        ids += [b3.next_id() for _ in range(k)]
        mon.ok(len(set(ids)) == len(ids) and all(type(x) is int for x in ids), lambda: f"identifiers repeat: {ids[:20]}...")
        mon.event("ids", len(ids))
        if len(voc.vars) > 1 and any(len(x) > 1 for x in voc.vars.values()):
            mon.nontrivial(repr(voc))
        mon.sample(f"{voc}: {n} outcomes")

    def case(self, mon, rng, i, tier):
        wide = rng.random() < .25
        for _ in range(40):
            voc = gen.vocab(rng, nv=(1, 3), nval=(1, 12), nrel=(1, 9)) if wide else gen.vocab(rng, nv=(1, 4), nval=(1, 4), nrel=(1, 4))
            if count_all(voc.vars, voc.rels) <= BUDGET[tier]:
                break
        else:
            voc = gen.vocab(rng, nv=(2, 3), nval=(1, 2), nrel=(1, 2))
        self.one(mon, rng, voc)


PROP = C07()
