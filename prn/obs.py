"""Full observable snapshots of library objects (public surface only), for comparing an object with itself over time."""
from .lib import canon, canon_set, node_out, edge_out, rel_out


def snap_sample(s):
    return ("sample", canon(s), s.name, repr(s), s.text_view(), hash(s), frozenset(s.included_variables), frozenset(s.values()),
            s.is_single_node, s.is_k_0, s.edges_set_view(), s.edges_endpoint_variables(), frozenset(s.hash))


def snap_set(ss):
    return ("set", frozenset((k, v) for k, v in canon_set(ss).items()), ss.length, hash(ss), repr(ss), bool(ss),
            frozenset((canon(s), s.name) for s in ss.samples()))


def snap_space(g):
    return ("space", snap_set(g.outcomes), repr(g), g.name, frozenset(g.included_variables()), frozenset(g.included_relations()),
            frozenset(g.outcomes_as_edges_sets()), g.print_samples())


def snap_relation(g):
    return snap_space(g) + (frozenset(g.variables), frozenset(g.relations), repr(sorted((k, str(sorted(v) if isinstance(v, set) else v))
                                                                  for k, v in g.describe().items())),
                            g.is_joined(), g.is_factorized())


def snap_cond(g):
    return snap_space(g) + (snap_sample(g.evidence), repr(sorted((k, str(sorted(v) if isinstance(v, set) else v))
                                                                 for k, v in g.describe().items())))


def folded_out(g):
    nodes = {n.variable: ({node_out(vn): c for vn, c in n.value_nodes}, frozenset(n.values)) for n in g.nodes}
    edges = {e.endpoints: {edge_out(re): c for re, c in e.relation_edges} for e in g.edges}
    return nodes, edges


def snap_folded(g):
    n, e = folded_out(g)
    return ("folded", n, e, g.number_of_outcomes, g.name, frozenset(g.variables), repr(g), frozenset(g.nodes), frozenset(g.edges),
            {k.variable: (dict(k.marginal_distribution()), k.unobserved_count()) for k in g.nodes})


def activation_out(g):
    nodes = {n.variable: (dict(n.values), n.in_query) for n in g.nodes}
    edges = {e.endpoints: ({rel_out(r): c for r, c in e.relations}, e.in_query) for e in g.edges}
    return nodes, edges


def snap_activation(g):
    n, e = activation_out(g)
    return ("activation", n, e, g.number_of_outcomes, g.name, frozenset(g.variables), repr(g), frozenset(g.nodes), frozenset(g.edges))


def handed(kind, o):
    """public collections that a built object hands out"""
    if kind == "sample":
        r = [o.nodes, o.edges, o.included_variables, o.hash]
        for e in o.edges:
            r.append(e.endpoints)
        return r
    if kind == "set":
        return [o.items(), o.samples()]
    if kind in ("relation", "cond"):
        r = handed("set", o.outcomes) + [o.included_variables(), o.included_relations(), o.outcomes_as_edges_sets()]
        if kind == "relation":
            r += [o.variables, o.relations, o.builder().variables, o.builder().relations]
        else:
            r += handed("sample", o.evidence)
        return r
    r = [o.nodes, o.edges, o.variables]
    for n in o.nodes:
        r += [n.values, getattr(n, "value_nodes", ())]
    for e in o.edges:
        r += [e.endpoints, getattr(e, "relation_edges", ()), getattr(e, "relations", ())]
    return r
