SG, SS, SP, RG, GC, CG, FG, AG = ("relnet/sample_graph.py", "relnet/sample_set.py", "relnet/sample_space.py", "relnet/relation_graph.py",
                                  "relnet/graph_components.py", "relnet/conditional_graph.py", "relnet/folded_graph.py", "relnet/activation_graph.py")
H = """
from scripts.relnet.relation_graph import RelationGraphBuilder, RelationGraph
from scripts.relnet.graph_components import DirectedRelation
def net(vs, rs=("r",)):
    return RelationGraphBuilder({v: set(x) for v, x in vs.items()}, set(rs))
def one(b, v, x, name=None):
    return b.sample_builder().set_name(name).build_single_node(v, x)
def edges(b, *es, name=None):
    sb = b.sample_builder().set_name(name)
    for x, y, r in es:
        sb.add_relation({x, y}, r)
    return sb.build()
def refused(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False
"""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("c01-eq-by-hash", "C01",
    [(SG, "            return self.hash == other.hash\n        return False\n\n    def is_compatible", "            return hash(self) == hash(other)\n        return False\n\n    def is_compatible")],
    "two samples whose content differs but hashes alike (values -1 and -2)", "samples of different content compare equal",
    """
b = net({"a": {-1, -2}})
assert one(b, "a", -1) != one(b, "a", -2)
assert len({one(b, "a", -1), one(b, "a", -2)}) == 2
""")
bug("c02-connected-by-count", "C02",
    [(SG, "        return len(tracing_map) == len(traced)", "        return len(tracing_map) == len(traced) or len(edges) >= len(tracing_map)")],
    "an edge set with a cycle dense enough (as many edges as nodes) plus a detached part", "a disconnected edge set is accepted",
    """
b = net({v: {1} for v in "abcdef"})
n = {v: (v, 1) for v in "abcdef"}
es = frozenset((frozenset({n[x], n[y]}), "r") for x, y in ["ab", "bc", "ca", "ad", "bd", "ef"])
assert refused(b.sample_builder().build_from_edges, es)
""")
bug("c02-printed-variable", "C02",
    [(SG, "        assert len({var for var, _ in endpoints}) == 2, \\", "        assert len({str(var) for var, _ in endpoints}) == 2, \\")],
    "two different variables whose labels print alike (1 and '1')", "a valid relation is refused",
    """
b = net({1: {0}, "1": {0}})
s = edges(b, ((1, 0), ("1", 0), "r"))
assert len(s.nodes) == 2
""")
bug("c03-round-limit", "C03",
    [(SG, "            return not edge.endpoints.isdisjoint(self._nodes) or not self._nodes\n", "            return any(n.string_id in {m.string_id for m in self._nodes} for n in edge.endpoints) or not self._nodes\n")],
    "nodes whose labels print alike", "samples that share no node but print alike are joined into a disconnected sample",
    """
b = net({1: {0}, "1": {0}, "x": {0}, "y": {0}})
p = edges(b, (("x", 0), (1, 0), "r"))
q = edges(b, (("y", 0), ("1", 0), "r"))
assert refused(b.sample_builder().join_sample(p).join_sample, q)
""")
bug("c03-conflict-undirected", "C03",
    [(SG, "                        edge.endpoints not in self._endpoints \\\n                        or edge.relation == self._endpoints[edge.endpoints].relation, \\",
      "                        edge.endpoints not in self._endpoints \\\n                        or str(edge.relation) == str(self._endpoints[edge.endpoints].relation), \\")],
    "conflicting relations that print alike (0 and '0')", "a join that puts two relations between the same nodes is accepted",
    """
b = net({"a": {0}, "b": {0}}, {0, "0"})
p = edges(b, (("a", 0), ("b", 0), 0))
q = edges(b, (("a", 0), ("b", 0), "0"))
assert refused(b.sample_builder().join_sample(p).join_sample, q)
""")
bug("c04-copy-shares-edges", "C04",
    [(SG, "        return SampleGraphBuilder(self._components_provider, self._name, set(self._nodes), set(self._edges))",
      "        return SampleGraphBuilder(self._components_provider, self._name, set(self._nodes), self._edges)")],
    "copying a builder that already holds relations, then adding to the copy and building the original", "builders copied from one another are not independent",
    """
from copy import copy
b = net({"a": {1}, "b": {1}, "c": {1}})
o = b.sample_builder().add_relation({("a", 1), ("b", 1)}, "r")
c = copy(o)
c.add_relation({("b", 1), ("c", 1)}, "r")
assert len(o.build().edges) == 1
""")
bug("c04-set-keeps-dict", "C04",
    [(SS, "        super(SampleSet, self).__init__(components_provider, samples.copy())", "        super(SampleSet, self).__init__(components_provider, samples)")],
    "using a builder further after building from it", "a built sample set or graph changes with its builder",
    """
b = net({"a": {1, 2}})
b.add_outcome(one(b, "a", 1))
g = b.build()
b.add_outcome(one(b, "a", 2))
assert len(g.outcomes.samples()) == 1
""")
bug("c05-count-checked-late", "C05",
    [(RG, "        assert count >= 1, \\\n            f\"[RelationGraphBuilder.add_outcome] Expect count be >= 1, but got {count}\"\n\n        self._outcomes.add(outcome, count)\n        return self",
      "        self._outcomes.add(outcome, count)\n        assert count >= 1, \\\n            f\"[RelationGraphBuilder.add_outcome] Expect count be >= 1, but got {count}\"\n        return self")],
    "a refused addition followed by further use of the builder", "a refused addition is counted",
    """
b = net({"a": {1, 2}})
s = one(b, "a", 1)
b.add_outcome(s, 5)
assert refused(b.add_outcome, s, -2)
assert b.build().outcomes.count_of(s) == 5
""")
bug("c05-nodes-before-check", "C05",
    [(SG, "        assert edge.endpoints not in self._endpoints, \\\n            f\"[SampleGraphBuilder.add_relation] Edge {edge} was added previously\"\n\n        self._edges.add(edge)\n        self._endpoints[edge.endpoints] = edge\n",
      "        replaced, self._endpoints[edge.endpoints] = self._endpoints.get(edge.endpoints), edge\n        assert not replaced, \\\n            f\"[SampleGraphBuilder.add_relation] Edge {edge} was added previously\"\n\n        self._edges.add(edge)\n")],
    "a refused second relation between the same nodes, then a join or conflict pre-check on the same builder", "later joins judge conflicts against the refused relation",
    """
b = net({"a": {1}, "b": {1}}, {"r", "s"})
o = b.sample_builder().add_relation({("a", 1), ("b", 1)}, "r")
assert refused(o.add_relation, {("a", 1), ("b", 1)}, "s")
assert o.can_sample_be_joined(edges(b, (("a", 1), ("b", 1), "r")))
""")
bug("c06-float-length", "C06",
    [(SS, "        self.length: int = sum(self._samples.values())", "        self.length: int = int(sum(map(float, self._samples.values())))")],
    "counts beyond 2**53", "total count is not exact",
    """
b = net({"a": {1, 2}})
b.add_outcome(one(b, "a", 1), 2 ** 53).add_outcome(one(b, "a", 2), 1)
assert b.build().outcomes.length == 2 ** 53 + 1
""")
bug("c06-find-missing-value", "C06",
    [(SP, "            if values.issubset(s.values()):", "            if all(s.value_for_variable(var) == val for var, val in values):")],
    "searching for the value None of a variable that some outcomes do not mention", "search finds outcomes that do not hold the value",
    """
b = net({"a": {1}, "b": {None, 1}})
b.add_outcome(one(b, "a", 1)).add_outcome(one(b, "b", None))
assert len(b.build().find_for_values({("b", None)}).samples()) == 1
""")
bug("c07-shortcut", "C07",
    [(SG, "        return len(tracing_map) == len(traced)", "        return len(traced) > len(tracing_map) // 2")],
    "at least four variables: an edge set in which the traced component is more than half of the nodes (triangle plus edge)", "disconnected samples are generated or accepted",
    """
b = net({v: {1} for v in "abcde"})
g = b.generate_all_possible_outcomes().build()
for o in g.outcomes.samples():
    ns, seen = set(o.nodes), set()
    todo = [next(iter(ns))]
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += list(o.neighboring_values(n))
    assert seen == ns, o
""")
bug("c07-falsy-relation", "C07",
    [(RG, "                if edges_index[j] >= 0})", "                if edges_index[j] >= 0 and indexed_relations[edges_index[j]]})")],
    "a vocabulary with a falsy relation label (0 or '')", "generation fails or misses the samples with that relation",
    """
b = net({"a": {1}, "b": {1}}, {0, "r"})
assert len(b.generate_all_possible_outcomes().build().outcomes.samples()) == 4
""")
bug("c08-unmentioned-single", "C08",
    [(RG, "evidence.included_variables.isdisjoint(outcome.included_variables)}", "not evidence.included_variables.issubset(outcome.included_variables) and evidence.nodes.isdisjoint(outcome.nodes) and not evidence.included_variables & outcome.included_variables - {n.variable for n in outcome.nodes if len(outcome.nodes) == 1}}")],
    "a single-node outcome giving another value to one of several evidence variables", "an outcome that contradicts the evidence is kept",
    """
b = net({"a": {1, 2}, "b": {1}})
e = edges(b, (("a", 1), ("b", 1), "r"))
b.add_outcome(e).add_outcome(one(b, "a", 2))
assert b.build().conditional_graph(e).outcomes.samples() == {e}
""")
bug("c09-falsy-value", "C09",
    [(SP, "                if in_var in variables_to_check:\n", "                if in_var in variables_to_check and outcome.value_for_variable(in_var) is not None:\n")],
    "a variable with None among its declared values", "outcomes with that value are left out of the marginal",
    """
b = net({"a": {None, 1}})
b.add_outcome(one(b, "a", None), 3).add_outcome(one(b, "a", 1), 1)
assert b.build().marginal_variables_probability() == {"a": {None: .75, 1: .25}}
""")
bug("c09-unobserved-of-conditional", "C09",
    [(SP, "                values['u'] = self.outcomes.length - c_sum\n", "                values['u'] = len(self.outcomes.samples()) - c_sum if c_sum < len(self.outcomes.samples()) else self.outcomes.length - c_sum\n")],
    "unobserved mass requested and the variable mentioned fewer times than there are distinct outcomes", "unobserved share is wrong (or an internal check fails)",
    """
b = net({"a": {1}, "b": {1, 2}})
b.add_outcome(one(b, "a", 1), 1).add_outcome(one(b, "b", 1), 6).add_outcome(one(b, "b", 2), 3)
m = b.build().marginal_variables_probability({"a"}, unobserved=True)
assert abs(m["a"]["u"] - .9) < 1e-9, m
""")
bug("c10-edge-by-relation", "C10",
    [(SP, "                    edge_acc[endpoints][edge] = edge_acc[endpoints].get(edge, 0) + count\n",
      "                    same = next((e for e in edge_acc[endpoints] if str(e) == str(edge)), edge)\n                    edge_acc[endpoints][same] = edge_acc[endpoints].get(same, 0) + count\n")],
    "relations or values that print alike (1 and '1') between the same variables", "counts of different relations are merged",
    """
b = net({"a": {1, "1"}, "b": {1}})
b.add_outcome(edges(b, (("a", 1), ("b", 1), "r"))).add_outcome(edges(b, (("a", "1"), ("b", 1), "r")))
f = b.build().folded_graph()
assert len(next(iter(f.edges)).relation_edges) == 2
""")
bug("c10-declared-values", "C10",
    [(SP, "            {FoldedNode(variable, variables[variable], nodes, n_of_outcomes) for", "            {FoldedNode(variable, variables[variable] if len(nodes) == 1 else {n.value for n in nodes}, nodes, n_of_outcomes) for")],
    "a variable of which several but not all declared values occur", "marginal distribution misses declared values",
    """
b = net({"a": {1, 2, 3}})
b.add_outcome(one(b, "a", 1)).add_outcome(one(b, "a", 2))
assert 3 in b.build().folded_graph().folded_node("a").marginal_distribution()
""")
bug("c11-similarity-by-name", "C11",
    [(CG, "        for outcome, count in self.outcomes.items():\n            similarity = outcome.similarity(self.evidence)\n",
      "        similarities: Dict[str, float] = {}\n\n        for outcome, count in self.outcomes.items():\n            similarity = similarities.setdefault(outcome.name, outcome.similarity(self.evidence))\n")],
    "two outcomes given the same name", "one outcome is weighted by the similarity of the other",
    """
b = net({"a": {1}, "b": {1}, "c": {1}, "d": {1}})
ab, bc, cd = ((("a", 1), ("b", 1), "r"), (("b", 1), ("c", 1), "r"), (("c", 1), ("d", 1), "r"))
b.add_outcome(edges(b, ab, name="x")).add_outcome(edges(b, ab, bc, cd, name="x"))
g = b.build().conditional_graph(one(b, "a", 1)).activation_graph()
w = {n.variable: dict(n.values)[1] for n in g.nodes}
assert abs(w["b"] - (1 / 3 + 1 / 7) / 2) < 1e-9, w
""")
bug("c12-factorised-subset", "C12",
    [(RG, "                    if not aep.isdisjoint(ep):\n", "                    if len(aep & ep) == 1 or aep <= ep:\n")],
    "outcomes overlapping in two or more related pairs without one containing the other in the order met", "a space that cannot be factorised is reported as factorised",
    """
b = net({v: {1} for v in "abcde"})
n = lambda v: (v, 1)
b.add_outcome(edges(b, (n("a"), n("b"), "r"), (n("b"), n("c"), "r"), (n("c"), n("d"), "r")))
b.add_outcome(edges(b, (n("a"), n("b"), "r"), (n("b"), n("c"), "r"), (n("c"), n("e"), "r")))
assert not b.build().is_factorized()
""")
bug("c13-equal-counts", "C13",
    [(SS, "        return sgb.build(), list(self._samples.values())", "        return sgb.build(), list({s.included_variables: c for s, c in self._samples.items()}.values())")],
    "two factors over the same set of variables (a cycle of pairs spanning the same variables, or variants)", "a factor's count is left out of the product",
    """
b = net({"a": {1}, "b": {1}, "c": {1}})
n = lambda v: (v, 1)
b.add_outcome(edges(b, (n("a"), n("b"), "r"), (n("b"), n("c"), "r")), 2)
b.add_outcome(edges(b, (n("a"), n("c"), "r")), 3)
b.add_outcome(one(b, "a", 1), 5)
assert b.build().make_joined().outcomes.length == 30
b = net({v: {1} for v in "abcd"})
b.add_outcome(edges(b, (n("a"), n("b"), "r"), (n("b"), n("c"), "r"), (n("c"), n("d"), "r")), 2)
b.add_outcome(edges(b, (n("a"), n("c"), "r"), (n("a"), n("d"), "r"), (n("b"), n("d"), "r")), 3)
assert b.build().make_joined().outcomes.length == 6
""")
bug("c13-float-product", "C13",
    [(RG, "            factors = factors.union(frozenset({joined_factor.build()}))", "            factors = factors.union(frozenset({SampleSet(self._components_provider, {o: round(c / 1.0) for o, c in joined_factor.items()})}))")],
    "products beyond 2**53", "joint counts are not exact",
    """
b = net({"a": {1}, "b": {1}})
n = lambda v: (v, 1)
b.add_outcome(edges(b, (n("a"), n("b"), "r")), 3 ** 25)
b.add_outcome(one(b, "a", 1), 3 ** 15)
assert b.build().make_joined().outcomes.length == 3 ** 40
""")
bug("c16-replace-by-falsy", "C16",
    [(SG, "                (node_provider(node.variable, to_replace[node.variable]) if node.variable in to_replace else node)", "                (node_provider(node.variable, to_replace[node.variable]) if to_replace.get(node.variable) else node)")],
    "replacing by a falsy value (0, False, '' or None)", "the value is not replaced",
    """
b = net({"a": {0, 1}})
assert one(b, "a", 1).transform_with_replaced_values({"a": 0}).value_for_variable("a") == 0
""")
bug("c16-belt-of-cycle", "C16",
    [(SG, "                ep_dif = edge.endpoints.difference(center_nodes)\n                if len(ep_dif) == 1:\n                    node = next(iter(ep_dif))\n",
      "                ep_dif = {n for n in edge.endpoints if n.string_id not in {c.string_id for c in center_nodes}}\n                if len(ep_dif) == 1:\n                    node = next(iter(ep_dif))\n")],
    "a neighbour whose label prints like that of a center node", "a neighbour is missing from the belt and everything behind it from the reachable nodes",
    """
b = net({1: {0}, "1": {0}})
s = edges(b, ((1, 0), ("1", 0), "r"))
c = next(n for n in s.nodes if n.variable == 1)
assert len(s.belt_nodes({c})) == 1
""")
bug("c17-same-vocabulary", "C17",
    [(SS, "        return id(self._components_provider) == id(other._components_provider)", "        return self._components_provider.variables() == other._components_provider.variables() and \\\n            self._components_provider.relations() == other._components_provider.relations()")],
    "two networks with identical vocabularies", "sample sets of another network pass the compatibility check",
    """
x, y = net({"a": {1}}), net({"a": {1}})
p = x.add_outcome(one(x, "a", 1)).build().outcomes
q = y.add_outcome(one(y, "a", 1)).build().outcomes
assert not p.is_compatible(q)
""")
bug("c17-evidence-by-content", "C17",
    [(RG, "        assert evidence.is_compatible(self._components_provider), \\\n            f\"[RelationGraphBuilder.add_outcome] Evidence", "        assert evidence in self.outcomes.samples() or evidence.is_compatible(self._components_provider), \\\n            f\"[RelationGraphBuilder.add_outcome] Evidence")],
    "evidence from another network whose content equals one of the outcomes", "foreign evidence is accepted",
    """
x, y = net({"a": {1}}), net({"a": {1}})
g = x.add_outcome(one(x, "a", 1)).build()
assert refused(g.conditional_graph, one(y, "a", 1))
""")
bug("c18-print-by-count", "C18",
    [(SP, "        return os.linesep.join(sorted([f\"{s}({c})\" for s, c in self.outcomes.items()]))", "        return os.linesep.join([f\"{s}({c})\" for s, c in sorted(self.outcomes.items(), key=lambda i: str(i[0])[:8])])")],
    "outcomes whose names share a long prefix", "printed order depends on the hash seed",
    """
import os, subprocess, sys
code = '''
from scripts.relnet.relation_graph import RelationGraphBuilder
b = RelationGraphBuilder({"variable_with_name": set("abcdef")}, {"r"})
for x in "abcdef":
    b.add_outcome(b.sample_builder().build_single_node("variable_with_name", x))
print(b.build().print_samples())
'''
outs = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE).stdout for h in range(5)}
assert len(outs) == 1
""")
bug("c19-gray-count", "C19",
    [(FG, "                    label=f\"{var}:{{{values}, u({self.number_of_outcomes})}}\",", "                    label=f\"{var}:{{{values}, u({len(self.nodes)})}}\",")],
    "a declared variable that no outcome mentions", "the page shows a wrong unobserved count for it",
    """
import pyvis.network as pn
seen = {}
old = pn.Network.add_node
def add(self, n, label=None, **k):
    seen[n] = label
    return old(self, n, label=label, **k)
pn.Network.add_node = add
b = net({"a": {1}, "b": {1}})
b.add_outcome(one(b, "a", 1), 7)
b.build().folded_graph("f").visualize()
assert seen["b"] == "b:{1(0), u(7)}", seen
""")
bug("c19-evidence-edge-ends", "C19",
    [(SP, "                ep = list(edge.endpoints)\n                net.add_edge(\n                    f\"query_{ep[0].string_id}\", f\"query_{ep[1].string_id}\", label=str(edge.relation), color=\"red\")",
      "                ep = sorted(self._evidence.nodes, key=lambda n: n.string_id)[:2] if len(self._evidence.edges) == 1 else list(edge.endpoints)[:1] * 2\n                net.add_edge(\n                    f\"query_{ep[0].string_id}\", f\"query_{ep[1].string_id}\", label=str(edge.relation), color=\"red\")")],
    "evidence with two or more relations", "evidence relations are drawn as loops",
    """
import pyvis.network as pn
seen = []
old = pn.Network.add_edge
def add(self, a, b, **k):
    seen.append((a, b))
    return old(self, a, b, **k)
pn.Network.add_edge = add
b = net({"a": {1}, "b": {1}, "c": {1}})
n = lambda v: (v, 1)
e = edges(b, (n("a"), n("b"), "r"), (n("b"), n("c"), "r"))
b.add_outcome(e)
b.build().conditional_graph(e, "c").visualize_outcomes()
assert all(x != y for x, y in seen), seen
""")
bug("c20-print-dedupe", "C20",
    [(SP, "        return os.linesep.join(sorted([f\"{s}({c})\" for s, c in self.outcomes.items()]))", "        return os.linesep.join(sorted({f\"{s}({c})\" for s, c in self.outcomes.items()}))")],
    "two different outcomes given the same name and count", "one of them is missing from the printed samples",
    """
b = net({"a": {1, 2}})
b.add_outcome(one(b, "a", 1, "x")).add_outcome(one(b, "a", 2, "x"))
assert b.build().print_samples().split() == ["x(1)", "x(1)"]
""")
bug("c20-directed-included", "C20",
    [(SP, "        return frozenset({e.relation for o in self.outcomes.samples() for e in o.edges})", "        return frozenset({getattr(e.relation, 'relation', e.relation) for o in self.outcomes.samples() for e in o.edges})")],
    "outcomes with directed relations", "reported occurring relations lose their direction",
    """
b = net({"a": {1}, "b": {1}})
b.add_outcome(b.sample_builder().add_directed_relation(("a", 1), ("b", 1), "r").build())
assert b.build().included_relations() == {DirectedRelation("a", "b", "r")}
""")
bug("c01-edge-cache", "C01",
    [(GC, "        if (endpoints, relation) in self.edges:\n            return self.edges[(endpoints, relation)]\n        else:\n            edge = RelationEdge(endpoints, relation)\n            self.edges[(endpoints, relation)] = edge\n            return edge",
      "        key = (endpoints, str(relation))\n        if key not in self.edges:\n            self.edges[key] = RelationEdge(endpoints, relation)\n        return self.edges[key]")],
    "two declared relations that print alike, both used between the same nodes", "two samples with different relations become one",
    """
b = net({"a": {0}, "b": {0}}, {0, "0"})
p = edges(b, (("a", 0), ("b", 0), 0))
q = edges(b, (("a", 0), ("b", 0), "0"))
assert p != q and len({p, q}) == 2
""")
bug("c08-printed-variables", "C08",
    [(RG, "evidence.included_variables.isdisjoint(outcome.included_variables)}", "{str(v) for v in evidence.included_variables}.isdisjoint(map(str, outcome.included_variables))}")],
    "variables whose labels print alike", "an outcome that shares no variable with the evidence is dropped",
    """
b = net({1: {0}, "1": {0}})
b.add_outcome(one(b, 1, 0), 2).add_outcome(one(b, "1", 0), 3)
assert b.build().conditional_graph(one(b, 1, 0)).outcomes.length == 5
""")
bug("c11-filter-of-evidence", "C11",
    [(CG, "            in_query_edges = {(edge, True) for edge in self.evidence.edges}", "            in_query_edges = {(edge, True) for edge in self.evidence.edges if not relation_filter or edge.relation in relation_filter}")],
    "a relation filter that leaves out a relation of the evidence", "an evidence relation is not listed",
    """
b = net({"a": {1}, "b": {1}, "c": {1}}, {"r", "s"})
e = edges(b, (("a", 1), ("b", 1), "s"))
b.add_outcome(edges(b, (("a", 1), ("b", 1), "s"), (("b", 1), ("c", 1), "r")), 2)
g = b.build().conditional_graph(e).activation_graph({"r"})
assert len(g.edges) == 2, g.edges
""")
bug("c12-overlap-of-two", "C12",
    [(SP, "                    assert aep.isdisjoint(evs), \\", "                    assert len(aep.intersection(evs)) != 1, \\")],
    "outcomes that overlap in two related pairs but differ in a third", "a space that cannot be factorised is factorised",
    """
b = net({v: {1} for v in "abcde"})
n = lambda v: (v, 1)
b.add_outcome(edges(b, (n("a"), n("b"), "r"), (n("b"), n("c"), "r"), (n("c"), n("d"), "r")))
b.add_outcome(edges(b, (n("a"), n("b"), "r"), (n("b"), n("c"), "r"), (n("c"), n("e"), "r")))
assert refused(b.build().factorized)
""")
bug("c14-equal-counts", "C14",
    [(RG, "                    ssb.add(joined_sample, prod(counts))", "                    ssb.add(joined_sample, prod(dict.fromkeys(counts)))")],
    "joined outcomes with equal counts", "a count is left out of the product",
    """
b = net({"a": {1}, "b": {1}})
b.add_outcome(edges(b, (("a", 1), ("b", 1), "r")), 3).add_outcome(one(b, "a", 1), 3)
assert b.build().joined_on_variables({"a"}).outcomes.length == 9
""")
bug("c15-values-print-alike", "C15",
    [(SS, "                    if var_acc[node.variable] != node.value:\n", "                    if str(var_acc[node.variable]) != str(node.value):\n")],
    "a loop of factors over a variable with values that print alike (0 and '0')", "joining fails on combinations that should be dropped",
    """
b = net({v: {0, "0"} for v in "abc"})
for p, q in ("ab", "bc", "ac"):
    for x in (0, "0"):
        b.add_outcome(edges(b, ((p, x), (q, x), "r")), 1 if x == 0 else 2)
        b.add_outcome(edges(b, ((p, x), (q, 0 if x == "0" else "0"), "r")), 1)
m = b.build().make_joined().marginal_variables_probability()
z = {(x, y, w): (2 if x == y == 1 else 1) * (2 if y == w == 1 else 1) * (2 if x == w == 1 else 1) for x in (0, 1) for y in (0, 1) for w in (0, 1)}
assert abs(m["a"]["0"] - sum(p for k, p in z.items() if k[0]) / sum(z.values())) < 1e-9, m
""")
bug("c15-first-factor-values", "C15",
    [(RG, "                outcomes_for_val = [{o: c for o, c in f.items() if o.have_value(var, val)} for f in factors_for_var]",
      "                outcomes_for_val = [{o: c for o, c in f.items() if o.have_value(var, val)} for f in factors_for_var[:8]]")],
    "a variable in more than eight factors", "factors beyond the eighth are ignored",
    """
vs = [f"v{i}" for i in range(9)]
b = net({"h": {0, 1}, **{v: {0} for v in vs}})
for v in vs:
    b.add_outcome(edges(b, (("h", 0), (v, 0), "r")), 1).add_outcome(edges(b, (("h", 1), (v, 0), "r")), 2)
m = b.build().make_joined().marginal_variables_probability()
assert abs(m["h"][0] - 1 / 513) < 1e-9, m
""")
bug("c18-shared-cache", "C18",
    [(SG, "        intersect_hash = self.hash.intersection(other.hash)\n", "        intersect_hash = _COMMON.setdefault((self.name, other.name), self.hash.intersection(other.hash))\n"),
     (SG, "class SampleGraphBuilder:\n", "_COMMON: Dict[Tuple[str, str], frozenset] = {}\n\n\nclass SampleGraphBuilder:\n")],
    "two pairs of samples with the same names compared in one process", "similarity (and activation weights) depend on earlier queries",
    """
b = net({"a": {1}, "b": {1}})
q = one(b, "a", 1, "q")
assert one(b, "b", 1, "o").similarity(q) == 0
assert edges(b, (("a", 1), ("b", 1), "r"), name="o").similarity(q) == 1 / 3
""")
bug("c29-opposite-by-text", "C29",
    [(GC, "        if self.a == node:\n            return self.b", "        if self.a.string_id == node.string_id:\n            return self.b")],
    "two ends that print alike (a=b_c and a_b=c)", "the opposite end of an edge is the node itself",
    """
b = net({"a": {"b_c"}, "a_b": {"c"}})
s = edges(b, (("a", "b_c"), ("a_b", "c"), "r"))
e, = s.edges
for n in s.nodes:
    assert e.opposite_endpoint(n) != n, n
""")
bug("c29-graph-eq-edges", "C29",
    [("relnet/variables_graph.py", "            return self.nodes == other.nodes and self.edges == other.edges", "            return self.nodes == other.nodes and len(self.edges) == len(other.edges)")],
    "two graphs with the same variables and counts whose relations differ", "folded graphs of different outcomes are equal",
    """
def g(r):
    b = net({"a": {"1"}, "b": {"1"}}, ("r", "s"))
    b.add_outcome(edges(b, (("a", "1"), ("b", "1"), r)), 1)
    return b.build().folded_graph()
assert g("r") != g("s") and g("r") == g("r")
""")
bug("c29-active-edge-query", "C29",
    [(AG, "            return self.endpoints == other.endpoints\\\n                   and self.relations == other.relations\\\n                   and self.in_query == other.in_query", "            return self.endpoints == other.endpoints and self.relations == other.relations")],
    "two active edges that differ only in being part of the query", "they compare equal and collapse in a set",
    """
from scripts.relnet.activation_graph import ActiveEdge
x, y = ActiveEdge({"a", "b"}, {"r": 1}, True), ActiveEdge({"a", "b"}, {"r": 1}, False)
assert x != y and len({x, y}) == 2
""")
bug("c02-trace-limit", "C02",
    [(SG, "            tracing_map[endpoints[0]].add(endpoints[1])", "            if len(tracing_map[endpoints[0]]) < 12:\n                tracing_map[endpoints[0]].add(endpoints[1])")],
    "a node with more than twelve neighbours", "a connected edge set is refused",
    """
b = net({"hub": {0}, **{i: {0} for i in range(20)}})
s = b.sample_builder().build_from_edges(frozenset((frozenset({("hub", 0), (i, 0)}), "r") for i in range(20)))
assert len(s.nodes) == 21
""")
bug("c02-variables-by-hash", "C02",
    [(SG, "        assert len({var for var, _ in endpoints}) == 2, \\", "        assert len({hash(var) for var, _ in endpoints}) == 2, \\")],
    "two variables whose labels hash alike (-1 and -2)", "a proper relation between them is refused",
    """
b = net({-1: {0}, -2: {0}})
assert len(edges(b, ((-1, 0), (-2, 0), "r")).edges) == 1
""")
bug("c06-many-samples", "C06",
    [(SS, "        return sum(self._samples.values())", "        return sum(sorted(self._samples.values(), reverse=True)[:512])")],
    "more than 512 distinct samples in a builder", "the length of the builder leaves some out",
    """
b = net({"a": set(range(600))})
sb = b.add_outcome(one(b, "a", 0)).build().outcomes.builder()
for i in range(1, 600):
    sb.add(one(b, "a", i), 1)
assert sb.length() == 600, sb.length()
""")
bug("c07-id-wraps", "C07",
    [(RG, "        self._id_counter += 1", "        self._id_counter = (self._id_counter + 1) % 1000")],
    "a thousand identifiers asked of one builder", "identifiers repeat",
    """
b = net({"a": {0}})
ids = [b.next_id() for _ in range(1500)]
assert len(set(ids)) == 1500
""")
bug("c07-values-limit", "C07",
    [(RG, "                for val in values[1:]  # Iterate over all value except first\n", "                for val in values[1:6]  # Iterate over all value except first\n")],
    "a variable with more than six values", "some samples are never generated",
    """
b = net({"a": set(range(8))})
assert b.generate_all_possible_outcomes().build().outcomes.length == 8
""")
bug("c08-large-evidence", "C08",
    [(RG, "            if evidence.is_subgraph(outcome) or", "            if evidence.is_subgraph(outcome) or (len(evidence.edges) > 3 and evidence.nodes <= outcome.nodes) or")],
    "an evidence of four or more relations and an outcome with the same values but another relation", "the contradicting outcome is kept",
    """
b = net({i: {0} for i in range(5)}, ("r", "s"))
o = edges(b, *[((i, 0), (i + 1, 0), "r") for i in range(4)])
e = edges(b, *[((i, 0), (i + 1, 0), "r" if i else "s") for i in range(4)])
assert b.add_outcome(o).build().conditional_graph(e).outcomes.length == 0
""")
bug("c11-similarity-remembered", "C11",
    [(SG, "        intersect_hash = self.hash.intersection(other.hash)\n", "        self.seen = getattr(self, \"seen\", {})\n        intersect_hash = self.seen.setdefault(id(other), self.hash.intersection(other.hash))\n")],
    "an evidence that is gone and another one at the same address", "the similarity of an earlier evidence is used",
    """
b = net({v: {0, 1} for v in "abc"})
o = edges(b, (("a", 0), ("b", 0), "r"), (("b", 0), ("c", 0), "r"))
import random
for k in range(2000):
    x, v = None, random.randrange(2)
    x = one(b, "a", v)
    assert o.similarity(x) == (0 if v else 1 / 5), k
""")
bug("c12-group-rounds", "C12",
    [(SS, "                    if k_a != k_b and not k_a.isdisjoint(k_b):", "                    if k_a != k_b and len(k_a) + len(k_b) < 14 and not k_a.isdisjoint(k_b):")],
    "a group linked through a chain of ten or more outcomes", "one group is reported as several",
    """
import random
n = 40
b = net({i: {0} for i in range(n + 2)})
ks = list(range(n))
random.Random(1).shuffle(ks)
for k in ks:
    b.add_outcome(edges(b, ((k, 0), (k + 1, 0), "r"), ((k + 1, 0), (k + 2, 0), "r")))
g = b.build().outcomes.group_intersecting()
assert len(g) == 1, len(g)
""")
bug("c13-product-of-five", "C13",
    [(SS, "        return sgb.build(), list(self._samples.values())", "        return sgb.build(), sorted(self._samples.values(), reverse=True)[:5]")],
    "more than five factors with counts above one", "joint counts leave factors out",
    """
vs = [f"v{i}" for i in range(6)]
b = net({"h": {0}, **{v: {0} for v in vs}})
for v in vs:
    b.add_outcome(edges(b, (("h", 0), (v, 0), "r")), 2)
assert b.build().make_joined().outcomes.length == 64
""")
bug("c14-product-of-three", "C14",
    [(RG, "ssb.add(joined_sample, prod(counts))", "ssb.add(joined_sample, prod(counts[:3]))")],
    "four groups sharing the variable joined on", "counts leave groups out",
    """
vs = [f"v{i}" for i in range(4)]
b = net({"h": {0}, **{v: {0} for v in vs}})
for v, c in zip(vs, (2, 3, 5, 7)):
    b.add_outcome(edges(b, (("h", 0), (v, 0), "r")), c)
assert b.build().joined_on_variables({"h"}).outcomes.length == 210
""")
bug("c14-untouched-dropped", "C14",
    [(RG, "            outcomes_acc.remove_all(join_outcomes)\n            outcomes_acc.add_all(joined_outcomes)", "            outcomes_acc.remove_all(join_outcomes)\n            if len(groped_outcomes) < 2 or joined_outcomes:\n                outcomes_acc.add_all(joined_outcomes)\n            else:\n                outcomes_acc.add_all(list(groped_outcomes.values())[0])")],
    "a join in which no combination agrees", "outcomes of one group stay as they were",
    """
b = net({v: {0, 1} for v in "abcd"})
b.add_outcome(edges(b, (("a", 0), ("b", 0), "r"))).add_outcome(edges(b, (("a", 1), ("c", 0), "r"))).add_outcome(one(b, "d", 0))
j = b.build().joined_on_variables({"a"})
assert j.outcomes.length == 1 and not j.outcomes.have_variable("a"), j.print_samples()
""")
bug("c16-belt-width", "C16",
    [(SG, "                    if node in acc:\n                        assert edge not in acc[node]", "                    if len(acc) > 9:\n                        acc.setdefault(node, {edge})\n                    elif node in acc:\n                        assert edge not in acc[node]")],
    "a belt of more than nine nodes, one of them reached by several relations", "relations leading to the belt are missing",
    """
b = net({"p": {0}, "q": {0}, **{i: {0} for i in range(12)}})
s = edges(b, (("p", 0), ("q", 0), "r"), *[((x, 0), (i, 0), "r") for i in range(12) for x in "pq"])
c = {n for n in s.nodes if n.variable in ("p", "q")}
assert all(len(es) == 2 for es in s.belt_nodes(c).values())
""")
bug("c20-variables-of-first", "C20",
    [(SP, "        for outcome in self.outcomes.samples():\n            for node in outcome.nodes:", "        for outcome in sorted(self.outcomes.samples(), key=str)[:64]:\n            for node in outcome.nodes:")],
    "more than 64 distinct outcomes", "values of the others are missing from the listing",
    """
b = net({"a": set(range(70))})
for i in range(70):
    b.add_outcome(one(b, "a", i))
(v, x), = b.build().included_variables()
assert len(x) == 70
""")
bug("c09-six-variables", "C09",
    [(SP, "                values['u'] = self.outcomes.length - c_sum", "                values['u'] = self.outcomes.length - (c_sum if len(group_acc) < 6 else sum(sorted(values.values(), reverse=True)[:8]))")],
    "six variables, one of them with more than eight values, and unobserved mass asked for", "the probabilities do not sum up",
    """
b = net({v: set(range(10)) for v in "abcdef"})
for v in "abcdef":
    for x in range(10):
        b.add_outcome(one(b, v, x))
m = b.build().marginal_variables_probability(unobserved=True)
assert all(abs(sum(d.values()) - 1) < 1e-9 and abs(d["u"] - 5 / 6) < 1e-9 for d in m.values())
""")
bug("c02-single-then-anything", "C02",
    [(SG, "        assert not nodes.isdisjoint(self._nodes) or not self._nodes, \\", "        assert not nodes.isdisjoint(self._nodes) or not self._edges, \\")],
    "a builder that goes on from a single node", "a relation away from that node is accepted",
    """
b = net({"a": {1}, "b": {1}, "c": {1}})
sb = one(b, "a", 1).builder()
assert refused(sb.add_relation, {("b", 1), ("c", 1)}, "r")
""")
bug("c02-large-edge-sets", "C02",
    [(SG, "        if validate_connectivity:", "        if validate_connectivity and len(edges) < 20:")],
    "an edge set of at least twenty edges that is not connected", "it is accepted as a sample",
    """
b = net({i: {0} for i in range(40)})
es = lambda n: {(frozenset({(2 * i, 0), (2 * i + 1, 0)}), "r") for i in range(n)}
assert refused(b.sample_builder().build_from_edges, es(3))
assert refused(b.sample_builder().build_from_edges, es(20))
""")
bug("c04-marginals-kept", "C04",
    [(SP, "        variables_to_check = variables if variables", "        known = self.__dict__.setdefault('_marginals', {})\n        request = (frozenset(variables or ()), unobserved)\n        if request in known:\n            return known[request]\n        variables_to_check = variables if variables"),
     (SP, "        return norm_acc", "        return known.setdefault(request, norm_acc)")],
    "marginals asked twice, the first answer edited in between", "the edit shows in the second answer",
    """
b = net({"a": {0, 1}})
g = b.add_outcome(one(b, "a", 0)).add_outcome(one(b, "a", 1)).build()
m = g.marginal_variables_probability()
m["a"][0] = 7
m.pop("zzz", None)
assert g.marginal_variables_probability() == {"a": {0: 0.5, 1: 0.5}}
""")
bug("c04-neighbours-kept", "C04",
    [(SG, "        return {e.opposite_endpoint(center): e\n                for e in self.edges\n                if e.is_endpoint(center) and (not relation_filter or (e.relation in relation_filter))}",
      "        known = self.__dict__.setdefault('_neighbours', {})\n        request = (center, frozenset(relation_filter or ()))\n        if request not in known:\n            known[request] = {e.opposite_endpoint(center): e\n                              for e in self.edges\n                              if e.is_endpoint(center) and (not relation_filter or (e.relation in relation_filter))}\n        return known[request]")],
    "neighbours asked twice, the first answer edited in between", "a sample changes through what it returned",
    """
b = net({"a": {1}, "b": {1}})
s = edges(b, (("a", 1), ("b", 1), "r"))
n = next(x for x in s.nodes if x.variable == "a")
s.neighboring_values(n).clear()
assert len(s.neighboring_values(n)) == 1
""")
bug("c08-answers-by-name", "C08",
    [(RG, "        selected_outcomes: Dict[SampleGraph", "        known = self.__dict__.setdefault('_conditionals', {})\n        if (evidence.name, name) in known:\n            return known[(evidence.name, name)]\n        selected_outcomes: Dict[SampleGraph"),
     (RG, "        return ConditionalGraph(", "        known[(evidence.name, name)] = ConditionalGraph("),
     (RG, "            SampleSet(self._components_provider, selected_outcomes))", "            SampleSet(self._components_provider, selected_outcomes))\n        return known[(evidence.name, name)]")],
    "two evidences of the same name", "the answer to the first is given for the second",
    """
b = net({"a": {0, 1}})
g = b.add_outcome(one(b, "a", 0), 2).add_outcome(one(b, "a", 1), 3).build()
assert g.conditional_graph(one(b, "a", 0, "e")).outcomes.length == 2
assert g.conditional_graph(one(b, "a", 1, "e")).outcomes.length == 3
""")
bug("c09-probability-in-floats", "C09",
    [(SP, "                norm_acc[in_val] = {v: p / c_sum for", "                norm_acc[in_val] = {v: p * (1.0 / c_sum) for")],
    "counts beyond the range of floats", "marginals fail",
    """
b = net({"a": {0, 1}})
g = b.add_outcome(one(b, "a", 0), 10**400).add_outcome(one(b, "a", 1), 10**400).build()
assert g.marginal_variables_probability() == {"a": {0: 0.5, 1: 0.5}}
""")
bug("c13-already-joined", "C13",
    [(RG, "        factors: frozenset[SampleSet] = self.factorized()\n", "        factors = self.factorized()\n        if self.is_joined():\n            return RelationGraph(self._components_provider, name if name else self.name, self.outcomes)\n")],
    "factors over the same variables", "joining leaves the factors as they are",
    """
b = net({v: {0} for v in "abcd"})
for path in (("ab", "bc", "cd"), ("bd", "da", "ac")):
    b.add_outcome(edges(b, *[((p, 0), (q, 0), "r") for p, q in path]), 2)
j = b.build().make_joined()
assert j.outcomes.length == 4 and len(j.outcomes.samples()) == 1, j.print_samples()
""")
bug("c19-label-cut", "C19",
    [(SG, "            net.add_edge(edge.a.string_id, edge.b.string_id, label=str(edge.relation))", "            net.add_edge(edge.a.string_id, edge.b.string_id, label=str(edge.relation)[:30])")],
    "a relation whose name is long", "the page shows part of it",
    """
import os
from scripts.relnet import sample_graph
os.environ["BROWSER"] = "true"
import webbrowser
webbrowser.open = lambda *a, **k: True
r = "relation " * 9
b = net({"a": {1}, "b": {1}}, {r})
edges(b, (("a", 1), ("b", 1), r), name="p").visualize()
assert any(r in open(f).read() for f in os.listdir(".") if f.endswith(".html"))
""")
bug("c20-last-sample-again", "C20",
    [(SG, "        return SampleGraph(self._components_provider, frozenset(self._nodes), frozenset(self._edges), self._name)\n", "        last = self.__dict__.get('_last')\n        if last is None or last.nodes != self._nodes or last.edges != self._edges:\n            last = self._last = SampleGraph(self._components_provider, frozenset(self._nodes), frozenset(self._edges), self._name)\n        return last\n")],
    "a builder renamed between two builds", "the second sample has the first name",
    """
b = net({"a": {1}, "b": {1}})
sb = b.sample_builder().add_relation({("a", 1), ("b", 1)}, "r").set_name("x")
assert sb.build().name == "x" and sb.set_name("y").build().name == "y"
""")
bug("c20-name-sticks", "C20",
    [(RG, "        self._name = name\n        return self", "        self._name = name or self._name\n        return self")],
    "a graph builder whose name is taken back", "the graph carries the earlier name",
    """
b = net({"a": {1}})
b.add_outcome(one(b, "a", 1)).set_name("earlier").build()
assert b.set_name(None).build().name == "relation_graph_with_1_outcomes"
""")
bug("c20-view-is-name", "C20",
    [(SG, "            return \"{\" + \"; \".join(sorted([str(e) for e in self.edges])) + \"}\"", "            return self.name if self.name.startswith(\"{\") and self.name.endswith(\"}\") else \\\n                \"{\" + \"; \".join(sorted([str(e) for e in self.edges])) + \"}\"")],
    "a sample whose given name is in braces", "the text view shows the name",
    """
b = net({"a": {1}, "b": {1}})
assert edges(b, (("a", 1), ("b", 1), "r"), name="{x}").text_view() == "{(a_1)--{r}--(b_1)}"
""")
