from copy import copy
from .. import gen, lib, obs
from ..base import Prop
from ..lib import canon, attempt, canon_set
from ..model import MS, join_verdict
from .c02 import Model, random_request, do_request


class Pool:
    """live objects with the snapshot taken when they were built"""

    def __init__(self, mon):
        self.mon, self.items = mon, []

    def add(self, kind, obj, origin):
        f = getattr(obs, "snap_" + kind)
        self.items.append([kind, obj, f, f(obj), origin])
        self.mon.event("snap_" + kind)
        return obj

    def verify(self, rng, what, k=None):
        its = self.items if k is None else rng.sample(self.items, min(k, len(self.items)))
        for kind, obj, f, old, origin in its:
            new = f(obj)
            self.mon.event("resnap")
            if new != old:
                d = [i for i, (a, b) in enumerate(zip(old, new)) if a != b]
                self.mon.fail(f"{kind} ({origin}) changed after {what}: fields {d}: was {[old[i] for i in d][:2]!r}, now {[new[i] for i in d][:2]!r}")
            self.mon.checks += 1


def vandalise(x):
    """edit a returned collection if it can be edited"""
    try:
        if isinstance(x, dict):
            for v in list(x.values()):
                vandalise(v)
            x.clear()
            x["vandal"] = 1
        elif isinstance(x, set):
            x.clear()
            x.add("vandal")
        elif isinstance(x, list):
            x.clear()
            x.append("vandal")
        elif isinstance(x, tuple):
            for v in x:
                vandalise(v)
    except (AttributeError, TypeError):
        pass


def frozen(x):
    if isinstance(x, dict):
        return frozenset((k, frozen(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return frozenset(frozen(v) for v in x)
    if isinstance(x, (list, tuple)):
        return tuple(frozen(v) for v in x)
    return x


def again(mon, what, *asks):
    """asks, edits what was answered, and asks again"""
    for k, f in enumerate(asks):
        x = f()
        was = frozen(x)
        vandalise(x)
        mon.eq(frozen(f()), was, lambda: f"answer {k} of a {what} after the first answer was edited")
    mon.event("asked_again", len(asks))


class C04(Prop):
    id = "C04"
    rule = ("case = a history of ~40 interleaved operations over one network with several sample builders, set builders and graph builders, "
            "copies and derived builders; every object ever built stays in a pool with its full observable snapshot, re-taken after later "
            "operations and at the end; returned and passed collections are edited on purpose; builders are checked against their own model; "
            "distinct by operation history")
    cases = {"quick": 4000, "thorough": 32000}
    need = {"resnap": 20000, "vandalised": 4000, "snap_folded": 90, "snap_activation": 200, "snap_cond": 300, "derived_builder": 1000, "handed": 3000, "asked_again": 20000, "loaded": 2000}

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(2, 5), nval=(1, 3), big=.02)
        passed_vars = {v: set(x) for v, x in voc.vars.items()}
        passed_rels = set(voc.rels)
        root = lib.RelationGraphBuilder(passed_vars, passed_rels, "net")
        pool = Pool(mon)
        declared = (frozenset((v, frozenset(x)) for v, x in voc.vars.items()), frozenset(voc.rels))
        sbs = []     # [builder, Model]
        setbs = []   # [builder, dict model]
        rgbs = [[root, {}]]
        samples, sets, graphs, conds = [], [], [], []
        world = gen.msample(rng, voc, kmin=2)
        multi = rng.random() < .3   # histories in which samples may hold two values of one variable
        hist = []

        def new_sample(ms=None):
            ms = ms or (gen.subsample(rng, world) if rng.random() < .4 else gen.msample(rng, voc))
            s = lib.build(rng, root, ms, voc=voc)
            samples.append(pool.add("sample", s, f"built {ms}"))
            return s
        new_sample()
        new_sample()
        n_ops = rng.choice([20, 40, 60])
        load = rng.random()
        if load < .08:          # large collections from the start
            n_ops = 20
            for _ in range(rng.randint(8, 30) if load > .008 else rng.randint(66, 110)):
                s, c = new_sample(), gen.count(rng)
                root.add_outcome(s, c)
                rgbs[0][1][canon(s)] = rgbs[0][1].get(canon(s), 0) + c
            g = root.build()
            graphs.append(pool.add("relation", g, "loaded"))
            sets.append((pool.add("set", g.outcomes, "loaded"), dict(rgbs[0][1])))
            for _ in range(2):
                setbs.append([g.outcomes.builder(), dict(rgbs[0][1])])
                rgbs.append([g.builder(), dict(rgbs[0][1])])
            mon.event("loaded", len(rgbs[0][1]))
        for step in range(n_ops):
            op = rng.choice(["sb_new", "sb_add", "sb_add", "sb_add", "sb_copy", "sb_build", "sb_build", "sb_join", "s_builder", "s_query", "s_query",
                             "s_transform", "setb_add", "setb_add", "setb_remove", "setb_copy", "setb_build", "set_builder", "set_query", "union",
                             "rg_add", "rg_add", "rg_build", "rg_build", "rg_query", "rg_query", "rg_builder", "cond", "cond", "cond", "fold", "activ", "activ", "activ", "activ",
                             "passed", "sb_edges", "sb_name", "ctor", "handed", "handed"])
            hist.append(op)
            mon.log(step, op)
            if op == "sb_new" or not sbs:
                sbs.append([root.sample_builder(), Model(voc)])
            elif op == "sb_add":
                e = rng.choice(sbs)
                for _ in range(rng.randint(1, 3)):
                    eps, rel = random_request(rng, voc, e[1].ms)
                    if not multi and not MS(e[1].ms.nodes | set(eps)).single_valued():
                        continue
                    want = e[1].add(eps, rel)
                    got = do_request(rng, e[0], eps, rel)
                    mon.ok(got[0] is want, lambda: f"builder diverged from its own history at {eps} {rel}: {got}")
            elif op == "sb_edges":
                e = rng.choice(sbs)
                if not e[1].ms.nodes:
                    ms = gen.msample(rng, voc, kmin=2)
                    if ms.edges:
                        s = e[0].build_from_edges(lib.edges_in(ms.edges))
                        e[1].ms = ms
                        samples.append(pool.add("sample", s, "build_from_edges"))
            elif op == "sb_name":
                rng.choice(sbs)[0].set_name(rng.choice([None, "Z", f"n{step}"]))
            elif op == "sb_copy":
                e = rng.choice(sbs)
                m = Model(voc)
                m.ms = e[1].ms
                sbs.append([copy(e[0]), m])
                mon.event("derived_builder")
            elif op == "sb_build":
                e = rng.choice(sbs)
                if e[1].ms.nodes:
                    s = e[0].build()
                    mon.eq(canon(s), e[1].ms, "sample built from builder with its own history")
                    samples.append(pool.add("sample", s, "sb_build"))
            elif op == "sb_join":
                e = rng.choice(sbs)
                s = rng.choice(samples)
                want = join_verdict(e[1].ms, canon(s))
                got = attempt(e[0].join_sample, s)
                mon.ok(got[0] is (want is not None), lambda: f"join diverged: {canon(s)} into {e[1].ms}: {got}")
                if want is not None:
                    e[1].ms = want
            elif op == "s_builder":
                s = rng.choice(samples)
                if s.nodes:
                    m = Model(voc)
                    m.ms = canon(s)
                    sbs.append([s.builder(), m])
                    mon.event("derived_builder")
            elif op == "s_query":
                s = rng.choice(samples)
                o = rng.choice(samples)
                ns = list(s.nodes)
                outs = [s.values(), s.edges_set_view(), s.variables_subgraph_hash(set(s.included_variables)), s.edges_endpoint_variables(),
                        s.similarity(o), s.is_subgraph(o), s == o]
                if ns:
                    filt = {rng.choice(voc.rels)} if rng.random() < .5 else None
                    keep = set(filt) if filt else filt
                    cen = set(rng.sample(ns, rng.randint(1, len(ns))))
                    keepc = set(cen)
                    one = rng.choice(ns)
                    again(mon, "sample", lambda: s.neighboring_values(one, filt), lambda: s.belt_nodes(cen, filt), lambda: s.external_nodes(cen, filt), s.values,
                          lambda: s.variables_subgraph_hash(set(s.included_variables)), s.edges_endpoint_variables, s.edges_set_view)
                    mon.ok(filt == keep and cen == keepc, "query edited its arguments")
                for o in outs:
                    vandalise(o)
                mon.event("vandalised", len(outs))
            elif op == "s_transform":
                s = rng.choice(samples)
                if not canon(s).single_valued():
                    continue          # replacing values is only meaningful when every variable has one
                rep = {v: rng.choice(voc.vars[v]) for v in voc.vars if rng.random() < .5}
                keep = dict(rep)
                t = s.transform_with_replaced_values(rep, rng.choice([None, "T"]))
                mon.eq(rep, keep, "replacement table")
                samples.append(pool.add("sample", t, "transform"))
            elif op == "setb_add" or op.startswith("setb") and not setbs:
                if not setbs:
                    x = lib.SampleSet if False else None
                    g = lib.rgb(voc)
                    # a set builder of this network: from any built set, else through the graph builder
                    root2 = rgbs[0][0]
                    if not sets:
                        s = rng.choice(samples)
                        root2.add_outcome(s, 1)
                        rgbs[0][1][canon(s)] = rgbs[0][1].get(canon(s), 0) + 1
                        ss = root2.build().outcomes
                        sets.append((pool.add("set", ss, "first"), canon_set(ss)))
                    ss, m = rng.choice(sets)
                    setbs.append([ss.builder(), dict(m)])
                e = rng.choice(setbs)
                s, c = rng.choice(samples), gen.count(rng)
                e[0].add(s, c)
                e[1][canon(s)] = e[1].get(canon(s), 0) + c
            elif op == "setb_remove":
                e = rng.choice(setbs)
                if e[1]:
                    k = rng.choice(sorted(e[1], key=repr))
                    s = next(x for x in e[0].samples() if canon(x) == k)
                    e[0].remove(s)
                    del e[1][k]
            elif op == "setb_copy":
                e = rng.choice(setbs)
                setbs.append([e[0].copy(), dict(e[1])])
                mon.event("derived_builder")
            elif op == "setb_build":
                e = rng.choice(setbs)
                ss = e[0].build()
                mon.eq(canon_set(ss), e[1], "set built from builder with its own history")
                sets.append((pool.add("set", ss, "setb_build"), dict(e[1])))
            elif op == "set_builder" and sets:
                ss, m = rng.choice(sets)
                setbs.append([ss.builder(), dict(m)])
                mon.event("derived_builder")
            elif op == "set_query" and sets:
                ss, m = rng.choice(sets)
                outs = [ss.items(), ss.samples(), ss.filter_samples(lambda o: True)]
                again(mon, "set", ss.items, ss.samples)
                if m:
                    again(mon, "set", ss.probabilities)
                    ok, g = attempt(ss.group_intersecting)
                    if ok:
                        again(mon, "set", ss.group_intersecting)
                        for x in g.values():
                            sets.append((pool.add("set", x, "group"), canon_set(x)))
                        outs.append(g)
                for o in outs:
                    vandalise(o)
                mon.event("vandalised", len(outs))
            elif op == "union" and sets:
                (a, ma), (b, mb) = rng.choice(sets), rng.choice(sets)
                u = a.union(b) if rng.random() < .5 else lib.SampleSetBuilder.join_sample_set([a, b, a])
                sets.append((pool.add("set", u, "union"), canon_set(u)))
            elif op == "rg_add":
                e = rng.choice(rgbs)
                s, c = rng.choice(samples), gen.count(rng)
                e[0].add_outcome(s, c)
                e[1][canon(s)] = e[1].get(canon(s), 0) + c
            elif op == "rg_build":
                e = rng.choice(rgbs)
                if e[1]:
                    g = e[0].build()
                    mon.eq(canon_set(g.outcomes), e[1], "graph built from builder with its own history")
                    graphs.append(pool.add("relation", g, "rg_build"))
                    sets.append((pool.add("set", g.outcomes, "outcomes"), dict(e[1])))
            elif op == "rg_builder" and graphs:
                g = rng.choice(graphs + conds)
                rgbs.append([g.builder(), canon_set(g.outcomes)])
                mon.event("derived_builder")
            elif op == "rg_query" and graphs:
                g = rng.choice(graphs + conds)
                outs = []
                again(mon, "graph", g.outcomes_as_edges_sets, g.included_variables, g.included_relations, g.describe)
                if g.outcomes and all(canon(o).single_valued() for o in g.outcomes.samples()):
                    vs = set(rng.sample(list(voc.vars), rng.randint(1, len(voc.vars))))
                    kv = set(vs)
                    un = rng.random() < .5
                    again(mon, "graph", lambda: g.marginal_variables_probability(vs, un), lambda: g.marginal_variables_probability(None, un))
                    mon.eq(vs, kv, "variables argument")
                ok, f = attempt(g.factorized)
                if ok:
                    again(mon, "graph", g.factorized)
                    for x in f:
                        sets.append((pool.add("set", x, "factor"), canon_set(x)))
                if hasattr(g, "joined_on_variables") and len(g.outcomes.samples()) < 8:
                    vs = {rng.choice(list(voc.vars))}
                    kv = set(vs)
                    ok, j = attempt(g.joined_on_variables, vs)
                    mon.eq(vs, kv, "variables argument")
                    if ok and len(j.outcomes.samples()) < 30:
                        graphs.append(pool.add("relation", j, "joined_on"))
                    if g.is_factorized():
                        ok, j = attempt(g.make_joined)
                        if ok and len(j.outcomes.samples()) < 30:
                            graphs.append(pool.add("relation", j, "make_joined"))
                vals = {(v, rng.choice(voc.vars[v])) for v in rng.sample(list(voc.vars), 1)}
                kv = set(vals)
                x = g.find_for_values(vals)
                mon.eq(vals, kv, "values argument")
                sets.append((pool.add("set", x, "found"), canon_set(x)))
                for o in outs:
                    vandalise(o)
                mon.event("vandalised", len(outs))
            elif op == "cond" and graphs:
                g = rng.choice(graphs)
                ev = rng.choice(samples)
                c = g.conditional_graph(ev, rng.choice([None, "C"]))
                conds.append(pool.add("cond", c, "conditional"))
                graphs.append(pool.add("relation", c.relation_graph(), "relation_graph()"))
            elif op == "fold" and graphs:
                g = rng.choice(graphs + conds)
                if g.outcomes and all(canon(o).single_valued() for o in g.outcomes.samples()):
                    f = g.folded_graph(rng.choice([None, "F"]))
                    pool.add("folded", f, "folded")
                    for n in list(f.nodes)[:2]:
                        again(mon, "folded node", n.marginal_distribution)
                    mon.event("vandalised")
            elif op == "activ" and conds:
                c = rng.choice(conds)
                if c.outcomes and c.evidence.nodes and all(canon(o).single_valued() for o in list(c.outcomes.samples()) + [c.evidence]):
                    filt = {rng.choice(voc.rels)} if rng.random() < .5 else None
                    keep = set(filt) if filt else None
                    ok, g = attempt(c.activation_graph, filt)
                    mon.eq(filt, keep, "relation filter argument")
                    if ok:
                        pool.add("activation", g, "activation")
                        if filt:
                            vandalise(filt)
            elif op == "passed" and rng.random() < .4:
                # collections passed by the caller when the network was created
                for x in passed_vars.values():
                    vandalise(x)
                passed_vars.clear()
                passed_vars["vandal"] = {1}
                vandalise(passed_rels)
                mon.event("vandalised", 2)
            elif op == "handed":
                kind, o = rng.choice(pool.items)[:2]
                mon.event("handed")
                outs = obs.handed(kind, o) + [root.variables, root.relations]
                for x in outs:
                    vandalise(x)
                mon.event("vandalised", len(outs))
            elif op == "ctor" and samples:
                # public constructors must not keep the caller's dictionary
                if sets:
                    ss, m = rng.choice(sets)
                    d = {s: c for s, c in ss.items()}
                    b2 = ss.builder()
                    x = b2.build()
                    b2.add(rng.choice(samples), 3)
                    sets.append((pool.add("set", x, "ctor"), dict(m)))
                    del d
            mon.eq((root.variables, root.relations), declared, "declared vocabulary")
            pool.verify(rng, f"step {step} ({op})", 4)
        pool.verify(rng, "the whole history")
        for e in sbs:
            if e[1].ms.nodes:
                mon.eq(canon(e[0].build()), e[1].ms, "builder after the whole history")
        for e in setbs:
            mon.eq(canon_set(e[0]), e[1], "set builder after the whole history")
        for e in rgbs:
            if e[1]:
                mon.eq(canon_set(e[0].build().outcomes), e[1], "graph builder after the whole history")
        mon.nontrivial(voc.sig(), hist)
        mon.sample(" ".join(hist))


PROP = C04()
