from .. import gen, lib
from ..base import Prop
from ..lib import attempt, canon, canon_set
from ..model import MS, Dir, count_all


class C17(Prop):
    id = "C17"
    rule = ("case = two networks with identical vocabularies (and one with another) holding equal content; every combining operation is tried with an object of "
            "the other network, obtained directly or through derivation (conditioning, joining, filtering, replacing, builders), and with one of its own; "
            "non-trivial when a foreign object equal in content was refused by an operation that accepts the own one; distinct by content and operation set")
    cases = {"quick": 3600, "thorough": 28800}
    need = {"refused_foreign": 8000, "accepted_own": 6000, "compatible_yes": 2000, "compatible_no": 2000, "derived": 4000, "set_refused": 2000, "foreign_empty": 5000}

    def derive(self, rng, b, g, ms, voc):
        """(object with content, how) of the same network, by many routes"""
        k = rng.choice(["build", "graph", "cond", "outcome", "joined", "gbuilder", "cbuilder", "extend", "replace", "find", "filter", "set_builder", "join",
                        "joined_on", "generated", "factor", "group", "union", "set_join"])
        s = lib.build(rng, g, ms, voc=voc)
        if k == "build":
            return lib.build(rng, b, ms, voc=voc), k
        if k == "graph":
            return s, k
        if k == "cond":
            c = g.conditional_graph(s)
            return c.evidence, k
        if k == "outcome":
            g2 = g.builder().add_outcome(s).build()
            return next(x for x in g2.outcomes.samples() if x == s), k
        if k == "joined":
            return next(iter(b.__class__(components_provider=self.prov[b]).add_outcome(s).build().make_joined().outcomes.samples())), k
        if k == "joined_on":
            v = rng.choice(sorted(ms.vars(), key=repr))
            return next(iter(b.__class__(components_provider=self.prov[b]).add_outcome(s).build().joined_on_variables({v}).outcomes.samples())), k
        if k == "generated" and count_all(voc.vars, voc.rels) < 400 and not any(isinstance(r, Dir) for _, r in ms.edges):
            ng = b.__class__(components_provider=self.prov[b]).generate_all_possible_outcomes().build()
            return next(x for x in ng.outcomes.samples() if x == s), k
        if k == "factor":
            return next(iter(next(iter(b.__class__(components_provider=self.prov[b]).add_outcome(s).build().factorized())).samples())), k
        if k == "group":
            return next(iter(next(iter(b.__class__(components_provider=self.prov[b]).add_outcome(s).build().outcomes.group_intersecting().values())).samples())), k
        if k == "union":
            one = b.__class__(components_provider=self.prov[b]).add_outcome(s).build().outcomes
            return next(iter(one.union(one).samples())), k
        if k == "set_join":
            one = b.__class__(components_provider=self.prov[b]).add_outcome(s).build().outcomes
            return one.make_joined_sample()[0], k
        if k == "gbuilder":
            return lib.build(rng, g.builder(), ms, voc=voc), k
        if k == "cbuilder":
            return lib.build(rng, g.conditional_graph(s).relation_graph().builder(), ms, voc=voc), k
        if k == "extend":
            return s.builder().build(), k
        if k == "replace":
            return lib.build(rng, g.conditional_graph(s), ms, "transform", voc=voc), k
        if k == "find":
            g2 = g.builder().add_outcome(s).build()
            return next(x for x in g2.find_for_values(set(s.values())).samples() if x == s), k
        if k == "filter":
            g2 = g.builder().add_outcome(s).build()
            return next(x for x in g2.outcomes.filter_samples(lambda q: q == s).samples()), k
        if k == "set_builder":
            sb = g.outcomes.builder()
            sb.add(s, 1)
            return sb.remove(s)[0], k
        return g.sample_builder().join_sample(s).build(), k

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(1, 4), nval=(1, 3))
        provs = [lib.BuilderComponentsProvider({v: set(x) for v, x in voc.vars.items()}, set(voc.rels)) for _ in range(2)]
        bs = [lib.RelationGraphBuilder(name="same name", components_provider=p) for p in provs]
        self.prov = dict(zip(bs, provs))
        out = {gen.msample(rng, voc): gen.count(rng, False) for _ in range(rng.randint(1, 5))}
        gs = [lib.graph(rng, b, out, voc) for b in bs]
        if rng.random() < .3:
            gs[1] = gs[1].builder().build()
        for step in range(4):
            me = rng.randrange(2)
            b, g, b2, g2 = bs[me], gs[me], bs[1 - me], gs[1 - me]
            ms = rng.choice(sorted(out, key=repr)) if rng.random() < .7 else gen.msample(rng, voc)
            own, how = self.derive(rng, b, g, ms, voc)
            foreign, fhow = self.derive(rng, b2, g2, ms, voc)
            mon.log("own", how, "foreign", fhow, ms)
            mon.eq((canon(own), canon(foreign)), (ms, ms), "content")
            mon.event("derived", 2)
            ref = lib.build(rng, b, ms, voc=voc)
            # compatibility tests
            prov, prov2 = provs[me], provs[1 - me]
            mon.eq((own.is_compatible(prov), own.is_compatible(prov2)), (True, False), f"compatibility of a sample derived by {how}")
            mon.event("compatible_yes")
            mon.event("compatible_no")
            # outcomes
            for tag, x, want in (("own", own, True), ("foreign", foreign, False)):
                def chk(res, what):
                    if want:
                        mon.accepted(res, f"{what} with own sample ({how})")
                        mon.event("accepted_own")
                    else:
                        mon.refused(res, f"{what} with foreign sample ({fhow})")
                        mon.event("refused_foreign")
                chk(attempt(g.builder().add_outcome, x), "add_outcome")
                chk(attempt(g.builder().add_outcomes, [x], 2), "add_outcomes")
                chk(attempt(g.builder().build_sample, lambda _: x), "build_sample")
                chk(attempt(g.conditional_graph, x), "conditional_graph")
                chk(attempt(g.sample_builder().join_sample, x), "join_sample on an empty builder")
                chk(attempt(ref.builder().join_sample, x), "join_sample")
                chk(attempt(ref.builder().can_sample_be_joined, x), "conflict pre-check")
                chk(attempt(g.sample_builder().can_sample_be_joined, x), "conflict pre-check on an empty builder")
                chk(attempt(g.outcomes.builder().add, x, 1), "adding to a set")
                chk(attempt(g.conditional_graph(ref).sample_builder().join_sample, x), "join_sample on a builder of a conditional graph")
            # the empty sample belongs to its network too
            void, fvoid = g.sample_builder().build_empty(), rng.choice([lambda: g2.sample_builder(), lambda: b2.sample_builder()])().build_empty()
            mon.eq((void.is_compatible(prov), void.is_compatible(prov2), fvoid.is_compatible(prov)), (True, False, False), "compatibility of empty samples")
            for f, what in ((g.builder().add_outcome, "add_outcome"), (g.conditional_graph, "conditional_graph"), (g.outcomes.builder().add, "adding to a set")):
                args = (1,) if what == "adding to a set" else ()
                mon.accepted(attempt(f, void, *args), f"{what} with the own empty sample")
                mon.refused(attempt(f, fvoid, *args), f"{what} with a foreign empty sample")
            mon.refused(attempt(ref.builder().join_sample, fvoid), "join_sample with a foreign empty sample")
            mon.refused(attempt(ref.builder().can_sample_be_joined, fvoid), "conflict pre-check with a foreign empty sample")
            mon.event("foreign_empty", 5)
            # sets
            ss = rng.choice([lambda: g.outcomes, lambda: g.conditional_graph(ref).outcomes, lambda: g.outcomes.filter_samples(lambda s: rng.random() < .7),
                             lambda: g.outcomes.builder().build(), lambda: g.find_for_values(set())])()
            fs = rng.choice([lambda: g2.outcomes, lambda: g2.outcomes.builder().build(), lambda: g2.find_for_values(set()),
                             lambda: g2.outcomes.union(g2.outcomes)])()
            mon.eq((ss.is_compatible(g.outcomes), g.outcomes.is_compatible(ss), ss.is_compatible(fs), fs.is_compatible(ss)), (True, True, False, False),
                   "compatibility of sets")
            mon.accepted(attempt(ss.union, g.outcomes), "union with own set")
            mon.refused(attempt(ss.union, fs), "union with foreign set")
            mon.refused(attempt(fs.union, ss), "union with foreign set")
            mon.accepted(attempt(lib.SampleSetBuilder.join_sample_set, [ss, g.outcomes]), "joining own sets")
            mon.refused(attempt(lib.SampleSetBuilder.join_sample_set, [ss, fs]), "joining foreign sets")
            mon.refused(attempt(lib.SampleSetBuilder.join_sample_set, [g.outcomes, ss, fs]), "joining foreign sets")
            mon.accepted(attempt(ss.builder().add_all, g.outcomes), "adding an own set")
            mon.refused(attempt(ss.builder().add_all, fs), "adding a foreign set")
            mon.event("set_refused", 5)
            mon.nontrivial(voc.sig(), repr(ms), how, fhow)
        mon.eq((canon_set(gs[0].outcomes), canon_set(gs[1].outcomes)), (out, out), "outcomes after all attempts")
        mon.sample(f"{ms} own by {how}, foreign by {fhow}")


PROP = C17()
