"""Computes every result for one scenario; run in the worker and in helper processes with other hash seeds.

protocol (helper): length-prefixed pickles on stdin/stdout: (scenario, variant) -> ("ok", results) | ("err", text)
"""
import pickle
import random
import struct
import sys
import traceback

from . import gen, lib, obs
from .lib import attempt, canon_set, rel_out
from .model import MS, Dir, count_all

SAFE_ROUTES = ["add", "edges", "edges_novalid", "join", "copy", "extend"]


def noise(rng, voc, b, g):
    """earlier work on the same and on other networks"""
    for _ in range(rng.randint(0, 4)):
        k = rng.choice(["sample", "other", "query", "failed"])
        if k == "sample":
            lib.build(rng, b, gen.msample(rng, voc), voc=voc)
        elif k == "other":
            b2 = lib.rgb(voc, rng=rng)
            lib.graph(rng, b2, {gen.msample(rng, voc): 1 for _ in range(2)}, voc).folded_graph()
        elif k == "query" and g is not None:
            v = rng.choice(list(voc.vars))
            rng.choice([lambda: g.marginal_variables_probability({v}), lambda: g.folded_graph(), lambda: attempt(g.joined_on_variables, {v}),
                        lambda: attempt(g.factorized), lambda: g.conditional_graph(lib.build(rng, g, gen.msample(rng, voc), "add")),
                        lambda: attempt(g.make_joined), lambda: g.print_samples(), lambda: g.describe(), lambda: g.included_relations(),
                        lambda: g.included_variables(), lambda: g.is_joined(), lambda: g.is_factorized(), lambda: g.outcomes_as_edges_sets(),
                        lambda: attempt(g.outcomes.group_intersecting), lambda: g.marginal_variables_probability(unobserved=True),
                        lambda: g.outcomes.probabilities(), lambda: g.find_for_values({(v, voc.vars[v][0])}), lambda: g.builder().build().describe(),
                        lambda: [s.text_view() for s in g.outcomes.samples()]])()
        elif k == "failed":
            attempt(b.sample_builder().add_relation, {("zz", 0), ("yy", 1)}, "nope")


def sset(ss):
    return canon_set(ss)


def refusable(f, *a):
    ok, v = attempt(f, *a)
    return v if ok else None


def describe(d):
    return {k: (frozenset(v) if isinstance(v, (set, frozenset)) else v) for k, v in d.items()}


def results(scn, variant):
    voc, outs, evs, joinable, filt, gen_ok = scn
    rng = random.Random(variant)
    b = lib.rgb(voc, "net", rng=rng)
    noise(rng, voc, b, None)
    items = list(outs.items())
    rng.shuffle(items)
    for m, (c, name) in items:
        left = c
        if left > 1 and rng.random() < .4:
            k = rng.randint(1, left - 1)
            b.add_outcome(lib.build(rng, b, m, rng.choice(SAFE_ROUTES), voc, name) if name else named_none(rng, b, m, voc), k)
            left -= k
        b.add_outcome(lib.build(rng, b, m, rng.choice(SAFE_ROUTES), voc, name) if name else named_none(rng, b, m, voc), left)
    g = b.build()
    noise(rng, voc, b, g)
    r = {}

    def space(tag, x):
        def folded():
            f = x.folded_graph()
            r[tag + ":folded"] = obs.folded_out(f)
            r[tag + ":foldedname"] = f.name
            r[tag + ":foldedrepr"] = (sorted(map(repr, f.nodes)), sorted(map(repr, f.edges)))
        asks = {
            "outcomes": lambda: sset(x.outcomes), "length": lambda: x.outcomes.length, "print": x.print_samples, "repr": lambda: repr(x.outcomes),
            "describe": lambda: describe(x.describe()), "vars": x.included_variables, "rels": lambda: frozenset(map(rel_out, x.included_relations())),
            "edgesets": lambda: frozenset((e if not isinstance(e, frozenset) else frozenset((ep, rel_out(q)) for ep, q in e), c)
                                          for e, c in x.outcomes_as_edges_sets()),
            "name": lambda: x.name, "folded": folded,
        }
        if x.outcomes:
            asks["marg"] = x.marginal_variables_probability
            asks["margu"] = lambda: x.marginal_variables_probability(unobserved=True)
        order = list(asks)
        rng.shuffle(order)           # every variant asks in another order
        for k in order:
            v = asks[k]()
            if k != "folded":
                r[f"{tag}:{k}"] = v
    space("g", g)
    r["variables"] = g.variables
    r["relations"] = g.relations
    r["joined?"] = g.is_joined()
    r["factorized?"] = g.is_factorized()
    fs = refusable(g.factorized)
    r["factors"] = None if fs is None else frozenset(frozenset(sset(s).items()) for s in fs)
    gr = refusable(g.outcomes.group_intersecting)
    r["groups"] = None if gr is None else {k: sset(s) for k, s in gr.items()}
    if joinable:
        j = g.make_joined("J")
        space("joined", j)
    for i, (ev, name) in enumerate(evs):
        s = lib.build(rng, b, ev, rng.choice(SAFE_ROUTES), voc, name) if name else named_none(rng, b, ev, voc)
        c = g.conditional_graph(s)
        space(f"cond{i}", c)
        r[f"cond{i}:evidence"] = (lib.canon(c.evidence), c.evidence.name, c.evidence.text_view())
        if c.outcomes and ev.nodes:
            n, e = obs.activation_out(c.activation_graph())
            r[f"cond{i}:act"] = (n, e)
            n, e = obs.activation_out(c.activation_graph({lib.rel_in(q) for q in filt}))
            r[f"cond{i}:actf"] = (n, e)
        noise(rng, voc, b, g)
    for v in voc.vars:
        jv = refusable(g.joined_on_variables, {v})
        r[f"on:{v!r}"] = None if jv is None else (sset(jv.outcomes), jv.print_samples())
    if gen_ok:
        b2 = lib.rgb(voc, "gen", rng=rng)
        r["generated"] = frozenset(sset(b2.generate_all_possible_outcomes().build().outcomes).items())
    return r


def named_none(rng, b, m, voc):
    """content-named construction"""
    x = b.sample_builder()
    if not m.nodes:
        return x.build_empty()
    if not m.edges:
        return x.build_single_node(*next(iter(m.nodes)))
    if rng.random() < .5:
        return x.build_from_edges(lib.edges_in(m.edges))
    for ep, q in gen.ordered_edges(rng, m.edges):
        lib.add_edge(rng, x, ep, q)
    return x.build()


def same(a, b, path=""):
    """None when equal up to rounding of floats, else where they differ"""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300):
            return None
        return f"{path}: {a!r} != {b!r}"
    if type(a) is not type(b):
        return f"{path}: {a!r} != {b!r}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {list(a)[:6]!r} != {list(b)[:6]!r}"
        for k in a:
            d = same(a[k], b[k], f"{path}/{k!r}")
            if d:
                return d
        return None
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {str(a)[:300]} != {str(b)[:300]}"


def send(f, obj):
    d = pickle.dumps(obj)
    f.write(struct.pack(">Q", len(d)) + d)
    f.flush()


def recv(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    return pickle.loads(f.read(struct.unpack(">Q", h)[0]))


def main():
    fin, fout = sys.stdin.buffer, sys.stdout.buffer
    sys.stdout = sys.stderr
    while True:
        msg = recv(fin)
        if msg is None:
            return
        try:
            send(fout, ("ok", results(*msg)))
        except BaseException:
            send(fout, ("err", traceback.format_exc()))


if __name__ == "__main__":
    main()
