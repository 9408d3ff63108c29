from copy import copy
from .. import gen, lib
from ..base import Prop
from ..lib import canon, attempt, canon_set
from ..model import MS, join_verdict, edges_connected
from .c02 import Model, random_request, do_request, UNKNOWN


class C05(Prop):
    id = "C05"
    rule = ("case = the same accepted history run twice, on one builder with refused operations interleaved and on a twin without them; both must "
            "stay observably identical and answer every later operation alike; refused joins/edge sets are built to fail late (most parts valid); "
            "non-trivial when at least two refusals hit a non-empty builder; distinct by history")
    cases = {"quick": 8800, "thorough": 70400}
    need = {"refused_join": 1000, "refused_edges": 800, "refused_relation": 1200, "refused_outcome": 500, "refused_remove": 500,
            "refused_generate": 100, "refused_replace": 300}

    def same(self, mon, b, t, what):
        ra, rb = attempt(b.build), attempt(t.build)
        mon.ok(ra[0] is rb[0], lambda: f"after refused {what}: build {'succeeds' if ra[0] else 'fails'}, without the refused call it {'succeeds' if rb[0] else 'fails'}: {ra[1]!r} / {rb[1]!r}")
        if ra[0]:
            mon.eq(canon(ra[1]), canon(rb[1]), f"content after refused {what}")

    def bad_sample(self, rng, voc, cur):
        """sample that overlaps cur in many parts but must be refused (late conflict)"""
        for _ in range(12):
            p = gen.msample(rng, voc, kmin=2, values=dict(cur.nodes) if cur.single_valued() and rng.random() < .8 else None)
            if cur.single_valued() and p.nodes and rng.random() < .6:
                v = rng.choice(sorted(p.vars(), key=repr))
                p = p.replaced({v: rng.choice(voc.vars[v])})
            if join_verdict(cur, p) is None:
                return p
        return None

    def bad_edges(self, rng, voc, cur):
        base = set(gen.msample(rng, voc, kmin=2).edges)
        k = rng.choice(["unk", "samevar", "dup", "disc", "conflict"])
        if k == "unk":
            eps, rel = random_request(rng, voc, cur)
            base.add((frozenset(eps), UNKNOWN))
        elif k == "samevar":
            v = rng.choice(list(voc.vars))
            if len(voc.vars[v]) > 1:
                base.add((frozenset((v, x) for x in voc.vars[v][:2]), rng.choice(voc.rels)))
        elif k == "dup" and base:
            ep, r = rng.choice(sorted(base, key=repr))
            base.add((ep, rng.choice(voc.rels)))
        elif k == "disc":
            base |= set(gen.msample(rng, voc, kmin=2).edges)
        elif k == "conflict" and cur.edges:
            ep, r = rng.choice(sorted(cur.edges, key=repr))
            base.add((ep, rng.choice(voc.rels)))
        m = Model(voc)
        pairs = [ep for ep, _ in base]
        valid = bool(base) and all(m.valid_parts(ep, r) for ep, r in base) and len(set(pairs)) == len(pairs)
        conn = all(len(p) == 2 for p in pairs) and bool(base) and edges_connected(base)
        clash = valid and MS((), base).conflict(cur)
        if valid and conn and not clash:
            return None
        return base, (not valid or clash)

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(2, 6), nval=(1, 3), big=.03)
        b = lib.rgb(voc, rng=rng)
        dirty, clean, m = b.sample_builder(), b.sample_builder(), Model(voc)
        hist, hits = [], 0
        for step in range(rng.choice([6, 12, 20])):
            op = rng.choice(["good", "good", "rel", "join", "join", "edges", "goodjoin"])
            if op == "good":
                eps, rel = random_request(rng, voc, m.ms)
                if Model.valid_parts(m, eps, rel) and m.add(eps, rel):
                    s = rng.getrandbits(30)
                    import random
                    for x in (dirty, clean):
                        mon.accepted(do_request(random.Random(s), x, eps, rel), f"relation {rel} {eps} after {hist[-3:]}")
                    hist.append(("good", repr(sorted(map(repr, eps)))))
            elif op == "goodjoin":
                p = gen.subsample(rng, m.ms) if m.ms.nodes and rng.random() < .3 else gen.msample(rng, voc, values=dict(m.ms.nodes) if m.ms.single_valued() else None)
                u = join_verdict(m.ms, p)
                if u is not None:
                    s = lib.build(rng, b, p, voc=voc)
                    for x in (dirty, clean):
                        mon.accepted(attempt(x.join_sample, s), f"join {p} into {m.ms} after {hist[-3:]}")
                    m.ms = u
                    hist.append(("goodjoin", repr(p)))
            elif op == "rel":
                eps, rel = random_request(rng, voc, m.ms)
                keep = m.ms
                if not m.add(eps, rel):
                    mon.refused(do_request(rng, dirty, eps, rel), f"relation {rel} {eps}")
                    mon.event("refused_relation")
                    hits += bool(m.ms.nodes)
                    hist.append(("rel", repr(sorted(map(repr, eps))), repr(rel)))
                    self.same(mon, dirty, clean, f"relation {rel!r} between {eps!r}")
                else:
                    m.ms = keep
            elif op == "join":
                p = self.bad_sample(rng, voc, m.ms) if m.ms.nodes else MS()
                if p is not None:
                    s = lib.build(rng, b, p, voc=voc)
                    mon.log("refused join", p, "into", m.ms)
                    mon.refused(attempt(dirty.join_sample, s), f"join {p} into {m.ms}")
                    mon.event("refused_join")
                    hits += bool(m.ms.nodes)
                    hist.append(("join", repr(p)))
                    self.same(mon, dirty, clean, f"join of {p} into {m.ms}")
            elif op == "edges":
                r = self.bad_edges(rng, voc, m.ms)
                if r:
                    edges, always = r
                    waive = always and rng.random() < .5
                    mon.log("refused edges", edges)
                    mon.refused(attempt(dirty.build_from_edges, lib.edges_in(edges), not waive), f"edge set {edges} on {m.ms}")
                    mon.event("refused_edges")
                    hits += bool(m.ms.nodes)
                    hist.append(("edges", sorted(map(repr, edges))))
                    self.same(mon, dirty, clean, f"edge set {edges} on {m.ms}")
            if rng.random() < .1:
                dirty = copy(dirty)
        self.same(mon, dirty, clean, "history")
        if m.ms.nodes:
            mon.eq(canon(dirty.build()), m.ms, "final content")
        # ---- outcome bookkeeping
        other = lib.rgb(voc)
        fam = [gen.msample(rng, voc) for _ in range(5)]
        model = {}
        rg = lib.rgb(voc)
        for step in range(8):
            k = rng.choice(["add", "foreign", "zero", "gen", "add"])
            ms = rng.choice(fam)
            if k == "add":
                c = gen.count(rng)
                rg.add_outcome(lib.build(rng, rg, ms, voc=voc), c)
                model[ms] = model.get(ms, 0) + c
            elif k == "foreign":
                mon.refused(attempt(rg.add_outcome, lib.build(rng, other, ms, voc=voc), 2), "foreign outcome")
                mon.event("refused_outcome")
            elif k == "zero":
                mon.refused(attempt(rg.add_outcome, lib.build(rng, rg, ms, voc=voc), rng.choice([0, -1, -5])), "non-positive count")
                mon.event("refused_outcome")
            elif k == "gen" and model:
                mon.refused(attempt(rg.generate_all_possible_outcomes), "generation on a non-empty builder")
                mon.event("refused_generate")
            if model:
                mon.eq(canon_set(rg.build().outcomes), model, f"outcomes after {k}")
            else:
                mon.refused(attempt(rg.build), "graph without outcomes")
        mon.eq((rg.next_id(), rg.next_id()), (lambda f: (f.next_id(), f.next_id()))(lib.rgb(voc)), "identifiers handed out after refused operations")
        if model:
            sb = rg.build().outcomes.builder()
            sm = dict(model)
            for step in range(8):
                ms = rng.choice(fam)
                s = lib.build(rng, rg, ms, voc=voc)
                k = rng.choice(["add", "remove", "foreign", "count_of"])
                if k == "add":
                    sb.add(s, 3)
                    sm[ms] = sm.get(ms, 0) + 3
                elif k == "remove":
                    if ms in sm:
                        r = mon.accepted(attempt(sb.remove, s), f"remove {ms}")
                        mon.eq((canon(r[0]), r[1]), (ms, sm.pop(ms)), "removed pair")
                    else:
                        mon.refused(attempt(sb.remove, s), f"remove absent {ms}")
                        mon.event("refused_remove")
                elif k == "foreign":
                    mon.refused(attempt(sb.add, lib.build(rng, other, ms, voc=voc), 1), "foreign sample")
                    mon.event("refused_outcome")
                else:
                    got = attempt(sb.count_of, s)
                    if ms in sm:
                        mon.eq(mon.accepted(got, "count"), sm[ms], "count of sample")
                    else:
                        mon.refused(got, f"count of absent {ms}")
                mon.eq(canon_set(sb), sm, f"set builder after {k}")
                mon.eq(sb.length(), sum(sm.values()), "length")
        # ---- replacing values
        ms = rng.choice(fam)
        s = lib.build(rng, rg, ms, voc=voc)
        v = rng.choice(sorted(ms.vars(), key=repr))
        mon.refused(attempt(s.transform_with_replaced_values, {v: UNKNOWN}), "replacement by undeclared value")
        mon.event("refused_replace")
        mon.eq(canon(s), ms, "sample after refused replacement")
        y = rng.choice(voc.vars[v])
        mon.eq(canon(s.transform_with_replaced_values({v: y})), ms.replaced({v: y}), "replacement after a refused one")
        if hits >= 2:
            mon.nontrivial(voc.sig(), hist)
        mon.sample(hist[:6])


PROP = C05()
