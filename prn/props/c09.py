from fractions import Fraction
from .. import gen, lib
from ..base import Prop
from ..lib import attempt, canon_set
from ..model import MS, condition, marginals
from .c08 import outcome_pool, evidence_for


class C09(Prop):
    id = "C09"
    rule = ("case = a relation graph and graphs conditioned from it; marginals for random requested variables with and without unobserved mass are compared "
            "with exact fractions; counts from 1 to 3**60 so that rounding or integer division shows; non-trivial when some reported variable has several "
            "values and is missing from some outcome; distinct by outcomes and request")
    cases = {"quick": 7200, "thorough": 57600}
    need = {"marginal": 5000, "with_unobserved": 2000, "partial_request": 1500, "absent_variable": 300, "conditional": 1500, "values_compared": 15000,
            "missing_mass": 1500, "single_outcome": 100, "many_values": 150, "wide_many": 40, "beyond_floats": 150}
    assumptions = ["declared values are not the reserved label 'u'", "no outcome gives one variable two values"]

    def judge(self, mon, g, out, req, un):
        args = {}
        if req is not None:
            args["variables"] = set(req)
        if un:
            args["unobserved"] = True
        got = mon.accepted(attempt(g.marginal_variables_probability, **args), f"marginals of {req}")
        want = marginals(out, set(req) if req is not None else {v for o in out for v in o.vars()}, un)
        mon.eq(set(got), set(want), f"variables reported for request {req}")
        for v, d in want.items():
            mon.eq(set(got[v]), set(d), f"values reported for {v!r} (unobserved={un})")
            for x, p in d.items():
                mon.close(got[v][x], p, f"marginal of {v!r}={x!r} (unobserved={un})")
                mon.event("values_compared")
            mon.close(sum(got[v].values()), 1, f"sum over {v!r}", 1e-9)
        mon.event("marginal")
        return want

    def case(self, mon, rng, i, tier):
        wide = rng.random() < .04
        voc = gen.big_vocab(rng, rng.choice([1, 2, 3, 6, 8]), rng.randint(10, 30), words=rng.random() < .5) if wide else gen.vocab(rng, nv=(1, 6), nval=(1, 4), big=.03)
        b = lib.rgb(voc, rng=rng)
        huge = .2 if rng.random() < .05 else 0
        out = outcome_pool(rng, voc, rng.randint(40, 130) if wide else gen.many(rng, [1, 2, 6, 15]), huge=huge)
        if rng.random() < .1:
            out[MS()] = gen.count(rng)
        g = lib.graph(rng, b, out, voc)
        views = [(g, out, "relation")]
        for _ in range(2):
            src = {k: v for k, v in out.items() if k.nodes}
            ev = evidence_for(rng, voc, src)
            want = condition(out, ev)
            if want:
                views.append((g.conditional_graph(lib.build(rng, b, ev, voc=voc)), want, "conditional"))
        occ = {v for o in out for v in o.vars()}
        for x, o, kind in views:
            mon.event("beyond_floats", sum(o.values()) > 10**400)
            for _ in range(2):
                req = None if rng.random() < .4 else rng.sample(list(voc.vars), rng.randint(1, len(voc.vars)))
                if req is not None and rng.random() < .15:
                    req.append("no such variable")
                un = rng.random() < .5
                mon.log("marginals", req, un, "of", o)
                w = self.judge(mon, x, o, req, un)
                mon.event("with_unobserved", un)
                mon.event("partial_request", req is not None and len(req) < len(voc.vars))
                mon.event("absent_variable", req is not None and any(v not in {q for s in o for q in s.vars()} for v in req))
                mon.event("conditional", kind == "conditional")
                mon.event("single_outcome", len(o) == 1)
                total = sum(o.values())
                miss = any(sum(c for s, c in o.items() if v in s.vars()) < total for v in w)
                mon.event("missing_mass", miss)
                mon.event("many_values", any(len(d) > 9 for d in w.values()))
                mon.event("wide_many", len(o) > 30 and sum(len(d) > 9 for d in w.values()) > 4)
                if miss and any(len(d) > 1 for d in w.values()):
                    mon.nontrivial(repr(o), repr(req), un)
            mon.eq(canon_set(x.outcomes), o, "marginals changed the outcomes")
        mon.sample(f"{out}"[:400])


PROP = C09()
