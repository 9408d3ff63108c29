from .. import gen, lib
from ..base import Prop
from ..lib import attempt, canon, node_out, edge_out, rel_in
from ..model import MS, Dir


class C16(Prop):
    id = "C16"
    rule = ("case = a family of related samples (near neighbours, parts, several values per variable, hundreds of nodes in some) on which every query is asked "
            "for present and absent arguments and compared with plain graph algorithms; non-trivial when the sample has at least three nodes and a "
            "relation; distinct by sample")
    cases = {"quick": 6000, "thorough": 48000}
    need = {"contained": 1500, "not_contained": 1500, "neighbours": 6000, "belt": 3000, "external": 3000, "outer": 800, "filtered": 2500, "similarity": 5000,
            "partial_similarity": 1500, "replaced": 1500, "subgraph": 1500, "long": 3, "value": 5000, "multi_value": 50}

    def fixed(self):
        def long(n, shape):
            def f(mon, rng):
                voc = gen.big_vocab(rng, n, nval=2, nrel=2)
                nodes = [(v, 0) for v in voc.vars]
                edges = {}
                for i in range(1, n):
                    j = i - 1 if shape == "chain" else (0 if shape == "star" else (i - 1) // 2)
                    edges[frozenset((nodes[i], nodes[j]))] = voc.rels[i % 2] if shape == "tree" else voc.rels[0]
                ms = MS(nodes, edges.items())
                b = lib.rgb(voc)
                s = lib.build(rng, b, ms, "edges")
                self.walk(mon, rng, voc, b, ms, s, [nodes[0]], None)
                self.walk(mon, rng, voc, b, ms, s, [nodes[n // 2], nodes[n // 3]], {voc.rels[0]})
                mon.eq(canon(s.transform_with_replaced_values({nodes[5][0]: 1})), ms.replaced({nodes[5][0]: 1}), "replacement in a long sample")
                mon.event("long")
            return f
        return [long(200, "chain"), long(1400, "chain"), long(400, "star"), long(511, "tree")]

    def nodes_of(self, s):
        return {node_out(n): n for n in s.nodes}

    def walk(self, mon, rng, voc, b, ms, s, center, filt):
        ns = self.nodes_of(s)
        extra = {node_out(n): n for x in center if x not in ns for n in lib.build(rng, b, MS([x]), "add").nodes}
        cset = {ns.get(x) or extra[x] for x in center}
        args = (cset,) if filt is None else (cset, {rel_in(r) for r in filt})
        layers = ms.layers(center, (lambda r: True) if filt is None else (lambda r: r in filt))

        def out(d):
            return {node_out(n): {edge_out(e) for e in es} for n, es in d.items()}
        got = out(mon.accepted(attempt(s.belt_nodes, *args), f"belt of {center} in {ms}"))
        mon.eq(got, layers[0] if layers else {}, f"belt of {center} filter {filt}")
        mon.event("belt")
        want = {}
        for la in layers:
            want.update(la)
        got = out(mon.accepted(attempt(s.external_nodes, *args), f"external nodes of {center}"))
        mon.eq(got, want, f"external nodes of {center} filter {filt} in {ms if len(ms.nodes) < 20 else len(ms.nodes)}")
        mon.event("external")
        mon.event("outer", len(layers) > 1)
        mon.event("filtered", filt is not None)
        mon.eq({node_out(n) for n in cset}, set(center), "the given center nodes must not be changed")

    def case(self, mon, rng, i, tier):
        voc = gen.vocab(rng, nv=(1, 7), nval=(1, 4), big=.03)
        b = lib.rgb(voc, rng=rng)
        fam = [gen.msample(rng, voc)]
        for _ in range(4):
            k = rng.random()
            fam.append(gen.mutate(rng, voc, rng.choice([f for f in fam if f.nodes])) if k < .4 else gen.subsample(rng, rng.choice(fam)) if k < .75 else
                       gen.multi_msample(rng, voc) if k < .8 else gen.msample(rng, voc))
        if rng.random() < .1:
            fam.append(MS())
        objs = [(m, lib.build(rng, b, m, voc=voc)) for m in fam]
        mon.log("family", fam)
        allvals = [(v, x) for v, xs in voc.vars.items() for x in xs] + [("no such", 0)]
        for m, s in objs:
            for m2, s2 in objs:
                c = m2.contains(m)
                mon.eq(s.is_subgraph(s2), c, f"{m} contained in {m2}")
                mon.event("contained" if c else "not_contained")
                mon.close(s.similarity(s2), m.similarity(m2), f"similarity of {m} and {m2}")
                mon.ok(s.similarity(s2) == s2.similarity(s) and 0 <= s.similarity(s2) <= 1, "similarity must be symmetric and within 0..1")
                mon.ok((s.similarity(s2) == 1) is (m == m2), "similarity one exactly for equal content")
                mon.event("similarity")
                mon.event("partial_similarity", 0 < m.similarity(m2) < 1)
            mon.eq(s.values(), m.values(), f"values of {m}")
            mon.event("multi_value", not m.single_valued())
            for v, x in allvals:
                v, x = gen.fresh(v), gen.fresh(x)
                mon.eq(s.have_value(v, x), (v, x) in m.nodes, f"presence of {v!r}={x!r} in {m}")
                mon.eq(s.have_variable(v), v in m.vars(), f"presence of {v!r} in {m}")
                if m.single_valued():
                    mon.eq(s.value_for_variable(v), m.value_of(v), f"value of {v!r} in {m}")
                elif v in m.vars():
                    mon.ok((v, s.value_for_variable(v)) in m.nodes, "some held value")
                mon.event("value")
            mon.eq(s.edges_endpoint_variables(), m.endpoint_vars(), f"related variable pairs of {m}")
            if m.nodes and not m.edges:
                mon.eq(s.single_node_variable(), next(iter(m.vars())), "variable of a single node sample")
            elif m.edges:
                mon.refused(attempt(s.single_node_variable), "single node variable of a larger sample")
            sub = set(rng.sample(list(voc.vars), rng.randint(0, len(voc.vars))))
            got = s.variables_subgraph_hash(sub)
            gn = {node_out(n) for n in got if hasattr(n, "variable")}
            ge = {edge_out(e) for e in got if hasattr(e, "endpoints")}
            mon.eq((gn, ge), ({n for n in m.nodes if n[0] in sub}, {e for e in m.edges if all(v in sub for v, _ in e[0])}), f"part of {m} spanned by {sub}")
            mon.eq(len(got), len(gn) + len(ge), "size of the spanned part")
            mon.event("subgraph")
            rels = sorted({r for _, r in m.edges} | set(voc.rels), key=repr)
            ns = self.nodes_of(s)
            for x, n in ns.items():
                filt = None if rng.random() < .5 else set(rng.sample(rels, rng.randint(1, len(rels))))
                args = (n,) if filt is None else (n, {rel_in(r) for r in filt})
                got = {node_out(k): edge_out(e) for k, e in s.neighboring_values(*args).items()}
                want = {next(y for y in ep if y != x): (ep, r) for ep, r in m.edges if x in ep and (filt is None or r in filt)}
                mon.eq(got, want, f"neighbours of {x} in {m} through {filt}")
                mon.event("neighbours")
                mon.event("filtered", filt is not None)
            if m.nodes:
                for _ in range(2):
                    center = rng.sample(sorted(m.nodes, key=repr), rng.randint(1, min(3, len(m.nodes))))
                    if rng.random() < .2:
                        v = rng.choice(list(voc.vars))
                        center.append((v, rng.choice(voc.vars[v])))
                    self.walk(mon, rng, voc, b, m, s, center, None if rng.random() < .5 else set(rng.sample(rels, rng.randint(1, len(rels)))))
            if m.nodes and m.single_valued():
                rep = {v: rng.choice(voc.vars[v]) for v in rng.sample(list(voc.vars), rng.randint(0, len(voc.vars)))}
                nm = rng.choice([None, "T"])
                t = mon.accepted(attempt(s.transform_with_replaced_values, dict(rep), nm), f"replacing {rep} in {m}")
                mon.eq(canon(t), m.replaced(rep), f"{m} with {rep}")
                mon.eq(canon(s), m, "the original after replacing values")
                if m.replaced(rep) != m:
                    new = m.replaced(rep)
                    mon.eq(t.name, nm or (b.sample_builder().build_from_edges(lib.edges_in(new.edges)) if new.edges else
                                          b.sample_builder().build_single_node(*next(iter(new.nodes)))).name, f"name of {m} with {rep}")
                mon.eq(t == s, m.replaced(rep) == m, "equality of original and replaced")
                mon.event("replaced")
            if len(m.nodes) > 2 and m.edges:
                mon.nontrivial(voc.sig(), repr(m))
        mon.sample(f"{fam}"[:500])


PROP = C16()
