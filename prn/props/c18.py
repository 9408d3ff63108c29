import os
import random
import subprocess
import sys
from .. import gen, c18run
from ..base import Prop
from ..c18run import results, same, send, recv
from ..factors import skeleton, factor_outcomes, assignments, product
from ..model import MS, factor_split, groups, count_all
from .c08 import evidence_for, outcome_pool
from .c12 import shape_pool
from .c14 import blowup


class C18(Prop):
    id = "C18"
    rule = ("case = one vocabulary and multiset of outcomes; all results are computed twice in this process and once each in two helper interpreters with other "
            "hash seeds, every time with other declaration/insertion orders, construction routes and preceding work, and compared (floats up to rounding); "
            "the 8 shards use 24 different hash seeds; non-trivial when at least three outcomes were compared; distinct by scenario")
    cases = {"quick": 2800, "thorough": 22400}
    need = {"compared_processes": 1200, "compared_orders": 600, "results": 20000, "joinable": 100, "generated": 100, "factorised": 100, "wide": 20}
    assumptions = ["equal outcomes added more than once carry the same name"]
    case_limit = 300

    def __init__(self):
        self.helpers = None

    def start(self):
        base = int(os.environ.get("PYTHONHASHSEED", "1"))
        self.helpers = []
        for k in (1, 2):
            env = dict(os.environ, PYTHONHASHSEED=str((base * 31 + 7919 * k) % 4294967295))
            self.helpers.append(subprocess.Popen([sys.executable, "-m", "prn.c18run"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env))

    def case(self, mon, rng, i, tier):
        if self.helpers is None:
            self.start()
        wide = rng.random() < .04
        voc = gen.big_vocab(rng, rng.randint(1, 3), rng.randint(13, 25), words=True) if wide else gen.vocab(rng, nv=(1, 5), nval=(1, 3))
        joinable = False
        if wide:
            out = outcome_pool(rng, voc, rng.randint(30, 60))
            mon.event("wide")
        elif rng.random() < .4:
            vs = list(voc.vars)
            fs = [factor_outcomes(rng, voc, sh, assignments(rng, voc, vs, 0)[:4] if rng.random() < .3 else assignments(rng, voc, vs, 0)[:1])
                  for sh in skeleton(rng, vs)]
            w = assignments(rng, voc, vs, 0)[:5]
            fs = [factor_outcomes(rng, voc, sh, w) for sh in skeleton(rng, vs)]
            out = {m: c for f in fs for m, c in f.items()}
            p = product(fs, 400)
            joinable = bool(p) and factor_split(out) is not None
        else:
            out = shape_pool(rng, voc, rng.choice([2, 5, 9]))
        if any(blowup(out, v) > (3000 if wide else 300) for v in voc.vars):
            return
        outs = {m: (c, f"N{k}" if rng.random() < .3 else None) for k, (m, c) in enumerate(sorted(out.items(), key=repr))}
        evs = [(evidence_for(rng, voc, out), rng.choice([None, "evidence"])) for _ in range(2)]
        rels = sorted({r for o in out for _, r in o.edges} | set(voc.rels), key=repr)
        filt = set(rng.sample(rels, rng.randint(1, len(rels))))
        gen_ok = count_all(voc.vars, voc.rels) < 120
        scn = (voc, outs, evs, joinable, filt, gen_ok)
        mon.log("scenario", scn)
        for k, h in enumerate(self.helpers):
            send(h.stdin, (scn, f"h{k}:{i}"))
        a = results(scn, f"a:{i}")
        b = results(scn, f"b:{i}")
        mon.event("results", len(a))
        d = same(a, b)
        mon.ok(d is None, lambda: f"another insertion order changes the result {d}")
        mon.event("compared_orders")
        for k, h in enumerate(self.helpers):
            r = recv(h.stdout)
            mon.ok(r is not None, "helper interpreter died")
            mon.ok(r[0] == "ok", lambda: f"fails under another hash seed or order: {r[1][-1500:]}")
            d = same(a, r[1])
            mon.ok(d is None, lambda: f"another interpreter hash seed / order changes the result {d}")
            mon.event("compared_processes")
        mon.event("joinable", joinable)
        mon.event("generated", gen_ok)
        mon.event("factorised", factor_split(out) is not None)
        if len(out) >= 3:
            mon.nontrivial(repr(voc), repr(sorted(out.items(), key=repr)))
        mon.sample(f"{len(a)} results for {out}"[:500])


PROP = C18()
