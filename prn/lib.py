"""Boundary to the code under test: building through public calls, observing through public attributes."""
import os
import sys

REPO = os.environ.get("PRN_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "Python", "research"))

from copy import copy  # noqa: E402

from .model import MS, Dir  # noqa: E402
from . import gen  # noqa: E402

from scripts.relnet.graph_components import DirectedRelation, ValueNode, RelationEdge, BuilderComponentsProvider  # noqa: E402
from scripts.relnet.sample_graph import SampleGraph, SampleGraphBuilder  # noqa: E402
from scripts.relnet.sample_set import SampleSet, SampleSetBuilder  # noqa: E402
from scripts.relnet.relation_graph import RelationGraph, RelationGraphBuilder  # noqa: E402
from scripts.relnet.conditional_graph import ConditionalGraph  # noqa: E402


class Refused(Exception):
    pass


REFUSAL = (AssertionError, ValueError, KeyError, TypeError, StopIteration)


def deep(n, f, *a):
    """attempt(f) from n calls further down"""
    return attempt(f, *a) if n < 1 else deep(n - 1, f, *a)


def attempt(f, *a, **k):
    """(True, result) or (False, exception). Resource exhaustion is never a refusal."""
    try:
        return True, f(*a, **k)
    except (RecursionError, MemoryError):
        raise
    except Exception as e:
        return False, e


def rel_out(r):
    if isinstance(r, DirectedRelation):
        return Dir(r.source_variable, r.target_variable, r.relation)
    return r


def rel_in(r):
    return DirectedRelation(r.source, r.target, gen.fresh(r.label)) if isinstance(r, Dir) else gen.fresh(r)


def node_out(n):
    return (n.variable, n.value)


def edge_out(e):
    return (frozenset(node_out(n) for n in e.endpoints), rel_out(e.relation))


def canon(s):
    """model of a library sample"""
    nodes = [node_out(n) for n in s.nodes]
    edges = [edge_out(e) for e in s.edges]
    m = MS(nodes, edges)
    if len(m.nodes) != len(s.nodes) or len(m.edges) != len(s.edges):
        raise BadShape(f"sample holds duplicate or dangling parts: nodes={list(s.nodes)} edges={list(s.edges)}")
    if len(set(nodes)) != len(nodes):
        raise BadShape(f"duplicate nodes {nodes}")
    return m


class BadShape(Exception):
    pass


def canon_set(ss):
    items = list(ss.items())
    out = {}
    for s, c in items:
        m = canon(s)
        if m in out:
            raise BadShape(f"sample {m} is listed twice")
        out[m] = c
    return out


def edges_in(edges):
    return frozenset((frozenset(ep), rel_in(r)) for ep, r in edges)


def rgb(voc, name=None, rng=None):
    vs = {gen.fresh(v): {gen.fresh(y) for y in x} for v, x in voc.vars.items()}
    if rng is not None:
        ks = list(voc.vars)
        rng.shuffle(ks)
        vs = {gen.fresh(k): set(map(gen.fresh, rng.sample(voc.vars[k], len(voc.vars[k])))) for k in ks}
    return RelationGraphBuilder(vs, set(map(gen.fresh, voc.rels)), name)


ROUTES = ["add", "edges", "edges_novalid", "join", "transform", "extend", "copy"]


def add_edge(rng, sb, ep, r):
    a, b = tuple(ep) if rng.random() < .5 else tuple(ep)[::-1]
    if rng.random() < .5:
        a = gen.fresh(a)
    if isinstance(r, Dir) and a[0] != b[0] and {r.source, r.target} == {a[0], b[0]} and rng.random() < .6:
        s = a if a[0] == r.source else b
        t = b if s is a else a
        sb.add_directed_relation(s, t, r.label)
    else:
        sb.add_relation({a, b}, rel_in(r))


def build(rng, b, ms, route=None, voc=None, name=None):
    """Build model sample ms with any object that offers sample_builder(); random route unless given."""
    route = route or rng.choice(ROUTES)
    if route in ("join", "transform") and not ms.single_valued():
        route = "add"
    nm = name if name is not None else (None if rng.random() < .7 else f"N{rng.randrange(1000)}")

    def sb():
        x = b.sample_builder()
        if nm is not None:
            x.set_name(nm)
        return x
    if not ms.nodes:
        return sb().build_empty()
    if not ms.edges:
        (v, x), = ms.nodes
        if route in ("join", "copy"):
            return sb().join_sample(b.sample_builder().build_single_node(v, x)).build()
        if route == "transform" and voc is not None:
            y = rng.choice(voc.vars[v])
            return b.sample_builder().build_single_node(v, y).transform_with_replaced_values({v: x}, nm)
        if route == "extend":
            return b.sample_builder().build_single_node(v, x).builder().set_name(nm).build()
        return sb().build_single_node(gen.fresh(v), gen.fresh(x))
    if route == "edges":
        return sb().build_from_edges(edges_in(ms.edges))
    if route == "edges_novalid":
        return sb().build_from_edges(edges_in(ms.edges), validate_connectivity=False)
    if route == "transform" and voc is not None and ms.single_valued():
        rep = {v: rng.choice(voc.vars[v]) for v in ms.vars() if rng.random() < .6}
        other = build(rng, b, ms.replaced(rep), "add")
        back = {v: x for v, x in ms.nodes if v in rep}
        return other.transform_with_replaced_values(back, nm)
    order = gen.ordered_edges(rng, ms.edges)
    if route == "join":
        x = sb()
        i = 0
        while i < len(order):
            k = rng.randint(1, max(1, len(order) - i))
            piece = MS((), order[i:i + k])
            if piece.connected():
                x.join_sample(build(rng, b, piece, rng.choice(["add", "edges"])))
            else:
                for ep, r in order[i:i + k]:
                    x.join_sample(b.sample_builder().build_from_edges(edges_in([(ep, r)])))
            i += k
        return x.build()
    if route == "extend":
        k = rng.randint(1, len(order))
        x = build(rng, b, MS((), order[:k]), "add").builder().set_name(nm)
        for ep, r in order[k:]:
            add_edge(rng, x, ep, r)
        return x.build()
    x = sb()
    for i, (ep, r) in enumerate(order):
        if route == "copy" and rng.random() < .4:
            x = copy(x)
        add_edge(rng, x, ep, r)
    return x.build()


def graph(rng, b, outcomes, voc=None, name=None):
    """relation graph with the given model outcomes (dict), added in random order, possibly in instalments"""
    items = list(outcomes.items())
    rng.shuffle(items)
    for ms, c in items:
        left = c
        while left > 1 and rng.random() < .3:
            k = rng.randint(1, left - 1)
            b.add_outcome(build(rng, b, ms, voc=voc), k)
            left -= k
        b.add_outcome(build(rng, b, ms, voc=voc), left)
    if name is not None:
        b.set_name(name)
    return b.build()
