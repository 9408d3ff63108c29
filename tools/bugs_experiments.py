"""Planted bugs in the experiments (see plant.py)."""
BUGS = []
PRE = '''import contextlib, io, logging, warnings
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    from scripts.experiments import comparing_with_bayes_network as bayes
    from scripts.experiments import comparing_with_markov_network as markov


def run(f, *a):
    """None, or the assertion that failed"""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            f(*a)
        except AssertionError as e:
            return e


def made(m):
    out = []
    for f in ((m.make_bayes_network if m is bayes else m.make_markov_network), m.make_relation_graph):
        e = run(lambda: out.append(f()))
        assert e is None, e
    return out
'''


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


B, M = "experiments/comparing_with_bayes_network.py", "experiments/comparing_with_markov_network.py"
bug("c30-loose-tolerance", "C30",
    [(B, "assert isclose(factor_val, graph_val, rel_tol=1e-15, abs_tol=0.0)", "assert isclose(factor_val, graph_val, rel_tol=1e-15, abs_tol=1e-3)"),
     (B, "assert isclose(factor_mar[val_k], graph_mar[val_k], rel_tol=1e-15, abs_tol=0.0)", "assert isclose(factor_mar[val_k], graph_mar[val_k], rel_tol=1e-15, abs_tol=1e-3)")],
    "tables with fine entries that differ in one of them by less than a thousandth", "networks that are not the same pass as equal",
    """
bayes.prop_factor = 1024
def tables(x):
    c = dict(bayes.net_config)
    for v, (n, t, p, pc) in c.items():
        c[v] = (n, [[1 / 4 if n == 4 else (1 / 2 if k == 0 else 1 / 2 / (n - 1)) for _ in r] for k, r in enumerate(t)], p, pc)
    c["D"] = (2, [[.5 + x], [.5 - x]], None, None)
    return c
bayes.net_config = tables(0)
bn, rg = made(bayes)
assert run(bayes.comparing_joint_probability, bn, rg) is None
bayes.net_config = tables(1 / 1024)
_, other = made(bayes)
assert run(bayes.comparing_joint_probability, bn, other) is not None
""")
bug("c30-rounded-entry", "C30",
    [(B, "            count = int(prop * prop_factor)\n            assert count == (prop * prop_factor), ", "            count = round(prop * prop_factor)\n            assert isclose(count, prop * prop_factor, rel_tol=1e-2), ")],
    "an entry that is no multiple of the unit", "it is rounded to a neighbouring count instead of being refused, and the encodings differ",
    """
c = dict(bayes.net_config)
c["D"] = (2, [[.604], [.396]], None, None)
bayes.net_config = c
assert run(bayes.make_relation_graph) is not None
""")
bug("c30-rare-values", "C30",
    [(M, "        if factor.get_value(A=a, B=b, C=c, D=d) > 0}", "        if fc.get_value(A=a, B=b, C=c, D=d) > 1e-6}")],
    "a combination that is less likely than one in a million", "it is left out on one side, and equal networks are reported to differ",
    """
markov.edges = [(p, [1, 1023, 1023, 1]) for p, _ in markov.edges]
markov.edges[0] = (markov.edges[0][0], [512] * 4)
mn, rg = made(markov)
assert run(markov.comparing_variable_joint_probability, mn, rg) is None
""")
bug("c30-parent-card", "C30",
    [(B, "            p_vs = [[f\"{var}({i})\"] + vs for vs in _value_combination(list(zip(p_var, p_card)))]", "            p_vs = [[f\"{var}({i})\"] + vs for vs in _value_combination([(p, p_card[0]) for p in p_var])]")],
    "parents that differ in their number of values", "columns of the table are attached to the wrong combination of parent values",
    """
bayes.prop_factor = 64
c = dict(bayes.net_config)
c["D"] = (1, [[1.]], None, None)
c["I"] = (2, [[.5], [.5]], None, None)
c["G"] = (3, [[1 / 4, 1 / 8], [1 / 2, 1 / 8], [1 / 4, 3 / 4]], ["I", "D"], [2, 1])
c["S"] = (2, [[1 / 8, 1 / 4], [7 / 8, 3 / 4]], ["I"], [2])
c["L"] = (2, [[1 / 8, 1 / 4, 1 / 2], [7 / 8, 3 / 4, 1 / 2]], ["G"], [3])
bayes.net_config = c
out = []
bn, rg = made(bayes)
assert run(bayes.comparing_joint_probability, bn, rg) is None
""")
