import json
import os
import re
import shutil
import tempfile
import webbrowser
from .. import gen, lib, obs
from ..base import Prop
from ..lib import attempt, rel_in
from ..model import MS, condition, folded, activation
from .c08 import evidence_for
from scripts.relnet.graph_components import BuilderComponentsProvider
from scripts.relnet.activation_graph import ActiveNode, ActivationGraph

VARS = [list("abcdefgh"), ["v1", "v2", "rain", "Wet", "x-y", "Ünï", "s p", "0"], [0, 1, 2, 3, -1, 10, 7], ["a", 1, "b", 2, "c", 3]]
VALS = ["T", "F", "x", "yes", "no", "0", "1", "é", "lo w", "<b>"]
DIGITS = ["1", "10", "11", "111", "110", "0", "01", "12"]
LONG = "a label of some length " * 4
RELS = ["r", "s", "is a", "<->", "q\"", "ü", 5]

webbrowser.open = lambda *a, **k: True


def sid(n):
    return f"{n[0]}_{n[1]}"


def rtext(r):
    return str(rel_in(r))


class Page:
    def __init__(self, path):
        t = open(path, encoding="utf-8").read()
        self.nodes = json.loads(re.search(r"nodes = new vis\.DataSet\((\[.*?\])\);\n", t, re.S).group(1))
        self.edges = json.loads(re.search(r"edges = new vis\.DataSet\((\[.*?\])\);\n", t, re.S).group(1))
        css = re.search(r"#mynetwork\s*\{(.*?)\}", t, re.S).group(1)
        self.height, self.width = (re.search(r"\b%s:\s*([^;]+);" % k, css).group(1).strip() for k in ("height", "width"))
        self.byid = {}
        for n in self.nodes:
            self.byid.setdefault((type(n["id"]).__name__, n["id"]), []).append(n)

    def node(self, i):
        return self.byid[(type(i).__name__, i)][0]


class C19(Prop):
    id = "C19"
    rule = ("case = pages written for samples, relation and conditional graphs (outcomes, folded, activation); each HTML page is parsed back and its visual graph "
            "matched against the shown graph: components, labels, counts, weights, marks; the folder is listed before and after; non-trivial when the "
            "page shows at least one relation; distinct by page content")
    cases = {"quick": 2000, "thorough": 16000}
    need = {"sample_page": 400, "outcome_page": 300, "conditional_page": 300, "folded_page": 400, "activation_page": 250, "visual_nodes": 6000,
            "visual_edges": 4000, "unobserved_variable": 200, "evidence_shown": 250, "digits": 100, "shade": 800, "sized": 400, "partial": 800, "large": 30, "empty_folded": 30, "long_labels": 60}
    assumptions = ["variables are strings or integers and the printed labels of nodes are distinct", "outcomes are not empty", "file name length within limits"]

    def page(self, mon, f, name, args, what, size=None, extra="_"):
        before = set(os.listdir("."))
        if size:
            args = dict(args, height=size[0], width=size[1])
        mon.accepted(attempt(f, **args), what)
        new = set(os.listdir(".")) - before
        mon.eq(len(new), 1, f"{what}: files written")
        fn = new.pop()
        keep = "".join(c for c in name if c.isalnum() or c in extra)
        mon.eq(fn, keep + ".html", f"{what}: name of the page for {name!r}")
        p = Page(fn)
        mon.eq((p.height, p.width), size or ("1024px", "1024px"), f"{what}: size of the page")
        mon.event("sized", size is not None)
        os.remove(fn)
        for k, ns in p.byid.items():
            mon.eq(len(ns), 1, f"{what}: visual node {k}")
        for e in p.edges:
            mon.ok(all((type(e[s]).__name__, e[s]) in p.byid for s in ("from", "to")), f"{what}: edge {e} without its nodes")
        mon.event("visual_nodes", len(p.nodes))
        mon.event("visual_edges", len(p.edges))
        if p.edges:
            mon.nontrivial(sorted(str(n["label"]) for n in p.nodes), sorted(str(e["label"]) for e in p.edges))
        return p

    def size(self, name):
        return ("640px", "50%") if name else None

    def components(self, p):
        adj = {n["id"]: set() for n in p.nodes}
        for e in p.edges:
            adj[e["from"]].add(e["to"])
            adj[e["to"]].add(e["from"])
        seen = set()
        for s in adj:
            if s not in seen:
                todo, comp = [s], set()
                while todo:
                    x = todo.pop()
                    if x not in comp:
                        comp.add(x)
                        todo.extend(adj[x])
                seen |= comp
                yield comp

    def shape(self, p, comp, strip=None):
        lab = {i: (strip or {}).get(i, p.node(i)["label"]) for i in comp}
        return (tuple(sorted(lab.values())),
                tuple(sorted((tuple(sorted((lab[e["from"]], lab[e["to"]]))), e["label"]) for e in p.edges if e["from"] in comp)))

    def shape_of(self, ms):
        return (tuple(sorted(sid(n) for n in ms.nodes)),
                tuple(sorted((tuple(sorted(sid(n) for n in ep)), rtext(r)) for ep, r in ms.edges)))

    def space(self, mon, g, out, names, ev, what, name):
        p = self.page(mon, g.visualize_outcomes, name or g.name, {"name": name} if name else {}, what, self.size(name))
        got, evs = [], []
        for comp in self.components(p):
            heads = [i for i in comp if "@" in str(p.node(i)["label"])]
            if not heads:
                evs.append(self.shape(p, comp))
                mon.ok(all(p.node(i).get("color") == "red" for i in comp), f"{what}: evidence colour")
                mon.ok(all(e.get("color") == "red" for e in p.edges if e["from"] in comp), f"{what}: evidence relation colour")
                continue
            mon.eq(len(heads), 1, f"{what}: outcome captions in one component {[p.node(i)['label'] for i in comp]}")
            lab, cap = p.node(heads[0])["label"].split("@", 1)
            got.append((self.shape(p, comp, {heads[0]: lab}), cap))
            mon.ok(not any(p.node(i).get("color") == "red" for i in comp), f"{what}: an outcome is marked as evidence")
            mon.ok(not any(e.get("color") == "red" for e in p.edges if e["from"] in comp), f"{what}: a relation of an outcome is marked as evidence")
        mon.eq(sorted(got), sorted((self.shape_of(o), f"{names[o]}({c})") for o, c in out.items()), f"{what}: outcomes shown")
        mon.eq(evs, [self.shape_of(ev)] if ev is not None and ev.nodes else [], f"{what}: evidence shown")
        mon.event("evidence_shown", ev is not None)

    def folded(self, mon, rng, g, out, voc, what, name):
        f = g.folded_graph(rng.choice(["folded_x", "fold: (x) y.html", "a_b-c*1"]))
        snap = obs.snap_folded(f)
        p = self.page(mon, f.visualize, name or f.name, {"name": name} if name else {}, what, self.size(name))
        nodes, edges = folded(out)
        total = sum(out.values())
        mon.eq({(type(n["id"]).__name__, n["id"]) for n in p.nodes}, {(type(v).__name__, v) for v in voc.vars}, f"{what}: nodes")
        for v in voc.vars:
            d = nodes.get(v, {x: 0 for x in voc.vars[v]})
            lab = p.node(v)["label"]
            m = re.fullmatch(re.escape(f"{v}:{{") + r"(.*), u\((\d+)\)\}", lab, re.S)
            mon.ok(m is not None, f"{what}: label {lab!r} of {v!r}")
            mon.eq(sorted(m.group(1).split(",")), sorted(f"{x}({c})" for x, c in d.items()), f"{what}: values on {v!r}")
            mon.eq(int(m.group(2)), total - sum(d.values()), f"{what}: unobserved on {v!r}")
            mon.eq(p.node(v).get("color") == "gray", v not in nodes, f"{what}: gray mark of {v!r}")
            mon.event("unobserved_variable", v not in nodes)
        got = {}
        for e in p.edges:
            k = frozenset((e["from"], e["to"]))
            mon.ok(k not in got, f"{what}: edge {k} twice")
            mon.ok(e["label"][0] == "{" and e["label"][-1] == "}", f"{what}: edge label {e['label']!r}")
            got[k] = set(e["label"][1:-1].split(","))
        mon.eq(got, {k: {f"{rtext(r)}({c})" for (_, r), c in d.items()} for k, d in edges.items()}, f"{what}: edges")
        mon.eq(obs.snap_folded(f), snap, f"{what}: showing changed the graph")
        mon.event("folded_page")

    def activation(self, mon, rng, c, out, ev, voc, what, name):
        a = c.activation_graph(name=rng.choice(["act_x", "act: (x) y.html", "a_b-c*1"]))
        snap = obs.snap_activation(a)
        p = self.page(mon, a.visualize, name or a.name, {"name": name} if name else {}, what, self.size(name))
        wn, we = activation(voc.vars, ev, out, lambda r: True)
        mon.eq({(type(n["id"]).__name__, n["id"]) for n in p.nodes}, {(type(v).__name__, v) for v in voc.vars}, f"{what}: nodes")
        for v, (d, q) in wn.items():
            n = p.node(v)
            lab = n["label"]
            mon.ok(lab.startswith(f"{v}:{{") and lab.endswith("}"), f"{what}: label {lab!r} of {v!r}")
            got = [x.rsplit("=", 1) for x in lab[len(f"{v}:{{"):-1].split(", ")]
            mon.eq(sorted(x for x, _ in got), sorted(str(x) for x in d), f"{what}: values on {v!r}")
            for x, w in got:
                mon.close(float(w), next(dw for dx, dw in d.items() if str(dx) == x), f"{what}: weight of {v!r}={x}")
            mon.eq(n.get("color") == "green", q, f"{what}: query mark of {v!r}")
            if not q:
                m = re.fullmatch(r"#([0-9A-Fa-f]{2})0000", n.get("color", ""))
                mon.ok(m is not None and abs(int(m.group(1), 16) - int(max(d.values()) * 255)) <= 1, lambda: f"{what}: shade {n.get('color')} of {v!r} with {d}")
                mon.event("shade")
        got = {}
        for e in p.edges:
            k = frozenset((e["from"], e["to"]))
            mon.ok(k not in got, f"{what}: edge {k} twice")
            got[k] = (set(e["label"][1:-1].split(", ")), e.get("color") == "green")
            mon.ok(e.get("color") in ("green", "red"), f"{what}: colour of edge {e}")
        mon.eq(got, {k: ({f"{rtext(r)}({n})" for r, n in d.items()}, q) for k, (d, q) in we.items()}, f"{what}: edges")
        mon.eq(obs.snap_activation(a), snap, f"{what}: showing changed the graph")
        mon.event("activation_page")

    def partial(self, mon, rng, voc):
        """an activation graph over some of the declared variables"""
        some = rng.sample(list(voc.vars), rng.randint(0, len(voc.vars)))
        p = BuilderComponentsProvider({v: set(x) for v, x in voc.vars.items()}, set(voc.rels))
        g = ActivationGraph(p, 3, {ActiveNode(v, {x: .5 for x in voc.vars[v]}, False) for v in some}, set(), "partial")
        page = self.page(mon, g.visualize, "partial", {}, "activation graph over some variables")
        mon.eq({(type(n["id"]).__name__, n["id"]) for n in page.nodes}, {(type(v).__name__, v) for v in voc.vars}, "partial activation graph: nodes")
        for v, xs in voc.vars.items():
            n = page.node(v)
            lab = n["label"]
            mon.eq(sorted(lab[lab.index("{") + 1:-1].split(", ")), sorted(f"{x}=0.5" if v in some else f"{x}=0" for x in xs), f"partial activation graph: label of {v!r}")
            mon.eq(n["color"] == "black", v not in some, f"partial activation graph: colour of {v!r}")
            mon.event("partial", v not in some)

    def case(self, mon, rng, i, tier):
        wd = tempfile.mkdtemp(dir=os.environ.get("PRN_SCRATCH"))
        old = os.getcwd()
        os.chdir(wd)
        try:
            self.run(mon, rng)
        finally:
            os.chdir(old)
            shutil.rmtree(wd, ignore_errors=True)

    def run(self, mon, rng):
        large = rng.random() < .04
        vs = [f"var{i}" for i in range(rng.randint(7, 10))] if large else gen.distinct(rng, rng.choice(VARS), rng.randint(2, 5))
        digits = not large and rng.random() < .1    # values that could run into a number written next to them, many outcomes
        voc = gen.Vocab({v: gen.distinct(rng, DIGITS if digits else VALS, rng.randint(3, 6) if digits else rng.randint(1, 10) if large else rng.randint(1, 3)) for v in vs},
                        gen.distinct(rng, RELS, rng.randint(1, 3)), "viz")
        if not digits and not large and rng.random() < .08:
            voc = gen.Vocab({f"{LONG}{v}": [f"{LONG}{x}" for x in xs] for v, xs in voc.vars.items()}, [f"{LONG}{r}" for r in voc.rels], "viz")
            mon.event("long_labels")
        mon.event("digits", digits)
        mon.event("large", large)
        b = lib.rgb(voc, rng=rng)
        out, names = {}, {}
        for k in range(30 if digits else rng.randint(52, 90) if large else rng.choice([1, 3, 6])):
            m = gen.mutate(rng, voc, rng.choice(list(out))) if out and rng.random() < .5 else gen.msample(rng, voc)
            if m not in out:
                out[m] = rng.choice([1, 2, 5, 7919, 10**12])
                names[m] = f"N{k}" if large or LONG in str(voc.rels[0]) else rng.choice([f"N{k}", None])
        mon.log("outcomes", out)
        for m, c in out.items():
            s = lib.build(rng, b, m, rng.choice(["add", "edges", "join"]), voc, names[m]) if names[m] else b.sample_builder().build_single_node(*next(iter(m.nodes))) \
                if not m.edges else b.sample_builder().build_from_edges(lib.edges_in(m.edges))
            names[m] = s.name
            b.add_outcome(s, c)
            if len(s.name.encode()) < 200 and rng.random() < (.1 if digits or large else .6):
                snap = obs.snap_sample(s)
                p = self.page(mon, s.visualize, s.name, {}, f"sample {m}", rng.choice([None, ("300px", "70%")]), "_-()")
                mon.eq(self.shape(p, {n["id"] for n in p.nodes}), self.shape_of(m), f"sample {m}: page")
                mon.eq(obs.snap_sample(s), snap, "showing changed the sample")
                mon.event("sample_page")
        g = b.set_name(rng.choice([None, "my graph", "G_1"])).build()
        snap = obs.snap_relation(g)
        self.space(mon, g, out, names, None, f"outcomes of {out}", rng.choice([None, "shown"]))
        mon.event("outcome_page")
        self.folded(mon, rng, g, out, voc, "folded graph", rng.choice([None, "shown"]))
        for _ in range(2):
            ev = evidence_for(rng, voc, out)
            want = condition(out, ev)
            e = lib.build(rng, b, ev, rng.choice(["add", "edges"]), voc, "ev")
            c = g.conditional_graph(e, "cond")
            self.space(mon, c, want, names, ev, f"conditional on {ev}", rng.choice([None, "shown"]))
            mon.event("conditional_page")
            self.folded(mon, rng, c, want, voc, "folded conditional graph", None)
            mon.event("empty_folded", not want)
            if want:
                self.activation(mon, rng, c, want, ev, voc, "activation graph", rng.choice([None, "shown"]))
        mon.eq(obs.snap_relation(g), snap, "showing changed the graph")
        self.partial(mon, rng, voc)
        mon.sample(f"{out}"[:300])


PROP = C19()
