"""Pairs of expression trees (equal copies, near copies differing in one leaf/operator/constant, unrelated ones); non-trivial: the trees differ."""
from common import *
import c01, copy
def enumerate_cases():
    ts = [["v", "x"], ["v", "y"], ["c", 1], ["c", 2], ["neg", ["v", "x"]], ["abs", ["v", "x"]], ["neg", ["v", "y"]]]
    for op in ALL_BIN:
        ts += [[op, ["v", "x"], ["v", "y"]], [op, ["v", "y"], ["v", "x"]], [op, ["v", "x"], ["i", 5]]]
    for k in ("Sum", "Prod"):
        for c in (0, 1, 3):
            ts += [[k, [["v", "x"], ["v", "y"]], c], [k, [["v", "x"], ["v", "z"]], c], [k, [["v", "x"], ["v", "y"], ["v", "z"]], c]]
    ns = ["x", "X", "xx", "_x", "x1"]
    for a in ns:
        for b in ns: yield {"a": ["+", ["v", a], ["i", 1]], "b": ["+", ["v", b], ["i", 1]]}
    for a in ts:
        for b in ts: yield {"a": a, "b": b}
def _mut(rng, t):
    t = copy.deepcopy(t)
    node = t
    while node[0] not in ("v", "c", "i", "p"):
        if rng.random() < 0.2:
            if node[0] in ALL_BIN: node[0] = rng.choice(ALL_BIN); return t
            if node[0] in ("Sum", "Prod"): node[2] += 1; return t
        kids = node[1] if node[0] in ("Sum", "Prod") else node[1:]
        if not kids: return t
        node = rng.choice(kids)
    if node[0] == "v": node[1] = rng.choice(NAMES)
    else: node[1 if node[0] != "p" else 2] = rng.choice(SMALL)
    return t
def generate(rng):
    a = rand_tree(rng, rng.randint(1, 4), NAMES, params=False)
    return {"a": a, "b": _mut(rng, a) if rng.random() < 0.8 else rand_tree(rng, 2, NAMES, params=False)}
def nontrivial(case): return case["a"] != case["b"]
VALS = [0, 1, -1, 2, 3, 5]
def run(case):
    import random
    a, b = case["a"], case["b"]
    if c01._const_undefined(a) or c01._const_undefined(b): return None
    ea, eb, ec = build_expr(a), build_expr(b), build_expr(a)
    if ea.equals(ec) is not True and not ea.equals(ec): return "an identical copy is reported different"
    if not ea.equals(ea): return "not equal to itself"
    eq = ea.equals(eb)
    if bool(eq) != bool(eb.equals(ea)): return "equality is not symmetric"
    if not eq:
        return "identically built, reported different" if a == b else None
    if type(ea) is not type(eb): return "reported equal but of kinds %s and %s" % (type(ea), type(eb))
    rng = random.Random(5)
    names = sorted(set(NAMES) | set(ea.vars()) | set(eb.vars()))
    for _ in range(25):
        s = {n: rng.choice(VALS) for n in names}
        try: va, vb = ev(a, s), ev(b, s)
        except Undefined: continue
        if va != vb or ea.evaluate(s) != eb.evaluate(s): return "reported equal but %r != %r under %r" % (va, vb, s)
    return None
