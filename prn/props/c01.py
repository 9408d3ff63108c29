from .. import gen, lib
from ..base import Prop
from ..lib import canon
from ..model import MS


class C01(Prop):
    id = "C01"
    rule = ("case = a family of near-identical samples (value, relation, direction, edge, node changed or nothing) over a hostile "
            "vocabulary, each built by two random construction routes with random names; non-trivial when the family holds both "
            "equal and unequal pairs; distinct by vocabulary shape and model contents")
    cases = {"quick": 10400, "thorough": 83200}
    need = {"equal_pair": 5000, "unequal_pair": 5000, "directed": 300, "same_text_unequal": 50, "big": 10}

    def case(self, mon, rng, i, tier):
        if i % 40 == 7:
            voc = gen.big_vocab(rng, rng.choice([13, 20, 33]))
            mon.event("big")
        else:
            voc = gen.vocab(rng, nv=(1, 5), big=.03)
        b = lib.rgb(voc, rng=rng)
        base = gen.msample(rng, voc) if rng.random() < .9 else gen.multi_msample(rng, voc)
        fam = [base]
        while len(fam) < 6:
            if not base.single_valued():
                fam.append(gen.multi_msample(rng, voc))
            else:
                fam.append(gen.mutate(rng, voc, rng.choice(fam)) if rng.random() < .9 else gen.msample(rng, voc))
        if rng.random() < .1:
            fam.append(MS())
        objs = []
        for ms in fam:
            for _ in range(2):
                route = rng.choice(lib.ROUTES)
                if not ms.single_valued() and route in ("join", "transform"):
                    route = "add"
                s = lib.build(rng, b, ms, route=route, voc=voc, name=rng.choice([None, "N", "M", "{}"]))
                mon.eq(canon(s), ms, f"content of sample built by route {route}")
                objs.append((ms, s))
                mon.event("built")
        if any(hasattr(r, "source") for ms in fam for _, r in ms.edges):
            mon.event("directed")
        eqs = neqs = 0
        for x, (ma, sa) in enumerate(objs):
            for mb, sb in objs[x:]:
                same = ma == mb
                mon.ok((sa == sb) is same, lambda: f"equality of {ma} and {mb} must be {same} (names {sa!r} / {sb!r})")
                mon.ok((sb == sa) is same, lambda: f"equality must be symmetric: {ma} {mb}")
                mon.ok((sa != sb) is (not same), lambda: f"inequality of {ma} and {mb} must be {not same}")
                if same:
                    mon.ok(hash(sa) == hash(sb), lambda: f"equal samples hash differently: {ma}")
                    eqs += 1
                else:
                    neqs += 1
                    if sa.text_view() == sb.text_view() or sa.name == sb.name:
                        mon.event("same_text_unequal")
        mon.event("equal_pair", eqs)
        mon.event("unequal_pair", neqs)
        # interchangeable as members and keys
        d, md = {}, {}
        for n, (ms, s) in enumerate(objs):
            d[s] = n
            md[ms] = n
        mon.eq({canon(s): n for s, n in d.items()}, md, "dictionary keyed by samples")
        st = {s for _, s in objs}
        mon.eq(len(st), len({ms for ms, _ in objs}), "size of set of samples")
        for ms, s in objs:
            mon.ok(s in st and d[s] == md[ms], lambda: f"lookup of equal sample failed for {ms}")
        # parts
        nodes = [n for _, s in objs for n in s.nodes][:14]
        edges = [e for _, s in objs for e in s.edges][:14]
        for a in nodes:
            for c in nodes:
                same = lib.node_out(a) == lib.node_out(c)
                mon.ok((a == c) is same and (not same or hash(a) == hash(c)), lambda: f"node identity {a} {c}")
        for a in edges:
            for c in edges:
                same = lib.edge_out(a) == lib.edge_out(c)
                mon.ok((a == c) is same and (not same or hash(a) == hash(c)), lambda: f"relation identity {a} {c}")
                sr = lib.rel_out(a.relation) == lib.rel_out(c.relation)
                mon.ok((a.relation == c.relation) is sr, lambda: f"relation label identity {a.relation} {c.relation}")
        for s in (objs[0][1], objs[-1][1]):
            for other in (None, 0, "x", s.name, s.hash, fam[0]):
                mon.ok(not (s == other), lambda: f"sample equals foreign object {other!r}")
        if eqs and neqs:
            mon.nontrivial(voc.sig(), [repr(m) for m in fam])
        mon.sample([repr(m) for m in fam])


PROP = C01()
