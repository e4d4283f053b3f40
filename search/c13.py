"""Random graphs (Graph/DiGraph/MultiGraph/MultiDiGraph, self-loops, parallel edges, odd node objects) with 1-5 nodes and 1-4 labels under every policy; labelings compared with brute force. Non-trivial: at least one edge."""
import itertools
from csp import POLICIES
def generate(rng):
    n = rng.randint(1, 5)
    nodes = rng.sample([0, 1, 2, 3, 4, 5, "a", "b", "n_0", "n_1", "if"], n)
    edges = [[rng.choice(nodes), rng.choice(nodes)] for _ in range(rng.randint(0, 7))]
    if rng.random() < 0.8: edges = [e for e in edges if e[0] != e[1]]
    return {"kind": rng.choice(["Graph", "DiGraph", "MultiGraph", "MultiDiGraph"]), "nodes": nodes, "edges": edges, "labels": rng.sample(["red", "green", "blue", 7, "x", 0, ""], rng.randint(1, 4)),
            "policy": rng.choice([None] + POLICIES), "compile": rng.random() < 0.5}
def nontrivial(case): return bool(case["edges"])
def shrink(case):
    for i in range(len(case["edges"])): yield dict(case, edges=case["edges"][:i] + case["edges"][i+1:])
    if case["policy"]: yield dict(case, policy=None)
    if len(case["labels"]) > 1: yield dict(case, labels=case["labels"][:-1])
def run(case):
    import networkx as nx
    from satisfy import VarSelectionPolicy
    from satisfy.graph_labeling import GraphLabelingSolver
    g = getattr(nx, case["kind"])()
    g.add_nodes_from(case["nodes"]); g.add_edges_from([tuple(e) for e in case["edges"]])
    a = {} if case["policy"] is None else {"var_selection_policy": getattr(VarSelectionPolicy, case["policy"])}
    nodes = list(g.nodes())
    got = []
    for s in GraphLabelingSolver(g, case["labels"], compile_constraints=case["compile"], **a):
        if set(s) != set(nodes): return "labeling of nodes %r" % list(s)
        got.append(tuple(s[n] for n in nodes))
    want = {c for c in itertools.product(case["labels"], repeat=len(nodes)) if all(dict(zip(nodes, c))[a] != dict(zip(nodes, c))[b] for a, b in case["edges"])}
    if len(set(got)) != len(got): return "a labeling is yielded twice"
    if set(got) != want: return "%d labelings yielded, %d expected; difference %r" % (len(got), len(want), list(set(got) ^ want)[:1])
    return None
