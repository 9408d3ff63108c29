from .. import gen, lib, obs
from ..base import Prop
from ..lib import canon, attempt, canon_set
from ..model import MS, condition


def outcome_pool(rng, voc, n, like=None, p_multi=0, kmin=1, huge=0):
    """model outcomes with counts; many are near neighbours of one another"""
    out = {}
    fam = [like] if like is not None else []
    for _ in range(n):
        k = rng.random()
        if fam and k < .5:
            m = gen.mutate(rng, voc, rng.choice(fam))
        elif rng.random() < 2 * p_multi:
            m = gen.multi_msample(rng, voc)
        else:
            m = gen.msample(rng, voc, kmin=kmin)
        if not m.nodes:
            continue
        fam.append(m)
        out[m] = out.get(m, 0) + gen.count(rng, huge=huge)
    return out


def evidence_for(rng, voc, outcomes):
    """evidence, often a part of an outcome, often nearly so"""
    k = rng.random()
    base = rng.choice(sorted(outcomes, key=repr))
    if k < .5:
        return gen.subsample(rng, base)
    if k < .75:
        return gen.mutate(rng, voc, gen.subsample(rng, base))
    if k < .85:
        return base
    return gen.msample(rng, voc)


class C08(Prop):
    id = "C08"
    rule = ("case = a relation graph of related outcomes (counts up to 3**60) conditioned on ~6 evidences derived from the outcomes; each result is compared "
            "with an independent filter; repeated and step-by-step conditioning is compared; non-trivial when an evidence kept some and dropped some "
            "outcomes; distinct by outcomes and evidence")
    cases = {"quick": 6000, "thorough": 48000}
    need = {"conditioned": 2800, "partial": 2000, "kept_disjoint": 500, "dropped_overlap": 3000, "repeat": 3000, "stepwise": 1500, "empty_result": 50,
            "edge_evidence": 2000, "same_nodes_other_edges": 300}

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(1, 6), nval=(1, 3), big=.03)
        b = lib.rgb(voc, rng=rng)
        out = outcome_pool(rng, voc, gen.many(rng, [1, 3, 8, 16]), p_multi=.05, huge=.01)
        if rng.random() < .1:
            out[MS()] = gen.count(rng)
        g = lib.graph(rng, b, out, voc)
        before = canon_set(g.outcomes)
        mon.eq(before, out, "outcomes of the graph")
        for _ in range(rng.choice([2, 6])):
            ev = evidence_for(rng, voc, {k: v for k, v in out.items() if k.nodes})
            if rng.random() < .04:
                ev = MS()
            mon.log("condition", out, "on", ev)
            e = lib.build(rng, g if rng.random() < .5 else b, ev, voc=voc, name=rng.choice([None, "ev"]))
            nm = rng.choice([None, "C1"])
            c = mon.accepted(attempt(g.conditional_graph, e, nm) if nm else attempt(g.conditional_graph, e), f"conditioning on {ev}")
            want = condition(out, ev)
            mon.eq(canon_set(c.outcomes), want, f"outcomes given {ev}")
            mon.eq(c.outcomes.length, sum(want.values()), "total count given evidence")
            mon.ok(c.evidence == e and canon(c.evidence) == ev and c.evidence.name == e.name, "the evidence must be remembered unchanged")
            mon.eq(c.name, nm if nm else f"conditional_of_{g.name}", "name of the conditional graph")
            mon.event("conditioned")
            mon.event("partial", 0 < len(want) < len(out))
            mon.event("kept_disjoint", sum(1 for o in want if not o.contains(ev)))
            mon.event("dropped_overlap", len(out) - len(want))
            mon.event("empty_result", not want)
            mon.event("edge_evidence", bool(ev.edges))
            mon.event("same_nodes_other_edges", any(ev.nodes <= o.nodes and not ev.edges <= o.edges for o in out))
            # once more on the result
            g2 = c.relation_graph("again")
            c2 = mon.accepted(attempt(g2.conditional_graph, e), f"conditioning again on {ev}")
            mon.ok(c2.outcomes == c.outcomes and canon_set(c2.outcomes) == want, lambda: f"conditioning twice on {ev} changed the outcomes")
            mon.event("repeat")
            mon.eq(canon_set(g.outcomes), before, "conditioning changed the graph")
            if 0 < len(want) < len(out):
                mon.nontrivial(repr(out), repr(ev))
        mon.sample(f"{len(out)} outcomes over {voc}")
        # two overlapping evidences one after the other, on outcomes mentioning all their variables
        voc = gen.vocab(rng, nv=(2, 5), nval=(1, 3))
        b = lib.rgb(voc, rng=rng)
        base = gen.msample(rng, voc, kmin=len(voc.vars))
        out = {}
        for _ in range(rng.choice([3, 10])):
            m = gen.mutate(rng, voc, rng.choice([base] + sorted(out, key=repr)))
            if len(m.vars()) == len(voc.vars):
                out[m] = gen.count(rng)
        out[base] = 2
        g = lib.graph(rng, b, out, voc)
        for _ in range(3):
            src = rng.choice(sorted(out, key=repr))
            e1 = gen.subsample(rng, src)
            e2 = gen.subsample(rng, src)
            if not (e1.nodes & e2.nodes):
                continue
            s1, s2 = (lib.build(rng, b, e, voc=voc) for e in (e1, e2))
            a = g.conditional_graph(s1).relation_graph().conditional_graph(s2)
            z = g.conditional_graph(s2).relation_graph().conditional_graph(s1)
            u = g.conditional_graph(b.sample_builder().join_sample(s1).join_sample(s2).build())
            want = condition(out, e1.union(e2))
            for nm, x in (("first then second", a), ("second then first", z), ("union", u)):
                mon.eq(canon_set(x.outcomes), want, f"{nm} of {e1} and {e2}")
            mon.event("stepwise")


PROP = C08()
