"""Constraints of every class (expression trees, all-different sets, constants) with partial and complete assignments, compiled or not, with parameter changes between compilations; non-trivial: at least two variables."""
from common import *
import c01
def enumerate_cases():
    import itertools
    for n in range(1, 5):
        vs = NAMES[:n]
        for vals in itertools.product((0, 1, 2), repeat=n):
            for m in range(2 ** n):
                a = {v: x for i, (v, x) in enumerate(zip(vs, vals)) if m >> i & 1}
                yield {"kind": "ad", "vars": vs, "a": a}
    for v in (True, False, 0, 1, 5): yield {"kind": "const", "value": v, "a": {"x": 1}}
    for t in small_trees(ops=["+", "-", "*", "==", "<", "&", "|"]):
        for a in ({"x": 0, "y": 1}, {"x": 2}, {"y": 0}, {"x": 1, "y": 1}, {}):
            yield {"kind": "expr", "tree": t, "a": a, "mode": "both"}
def generate(rng):
    names = rng.sample(NAMES, rng.randint(1, 4))
    a = {n: rng.choice([0, 1, 2, -1, 3]) for n in names if rng.random() < 0.85}
    if rng.random() < 0.2: a["unrelated"] = rng.choice([0, 1, 2])
    if rng.random() < 0.3: return {"kind": "ad", "vars": [rng.choice(names) for _ in range(rng.randint(1, 6))], "a": a}
    return {"kind": "expr", "tree": rand_tree(rng, rng.randint(1, 4), names), "a": a, "mode": rng.choice(["both", "param"])}
def nontrivial(case):
    return case["kind"] == "ad" and len(set(case["vars"])) > 1 or case["kind"] == "expr" and len(tvars(case["tree"])) > 1
def check(c, vs, truth, a, tag):
    if set(c.vars()) != set(vs): return "%s: vars %r, expected %r" % (tag, set(c.vars()), set(vs))
    if set(c.free_vars(dict(a))) != set(vs) - set(a): return "%s: free_vars wrong" % tag
    full = all(v in a for v in vs)
    want = full and not truth()
    b = dict(a)
    got = c.unsatisfied(b)
    if b != a: return "%s: assignment modified" % tag
    if bool(got) != bool(want): return "%s: unsatisfied gives %r, expected %r under %r" % (tag, got, want, a)
    if full and bool(c.evaluate(dict(a))) != bool(truth()): return "%s: evaluate wrong" % tag
def run(case):
    from satisfy.constraint import AllDifferentConstraint, ConstConstraint, ExpressionConstraint
    a = case["a"]
    if case["kind"] == "const":
        for comp in (False, True):
            c = ConstConstraint(case["value"])
            if comp: c.compile()
            m = check(c, [], lambda: bool(case["value"]), a, "const")
            if m: return m
        return None
    if case["kind"] == "ad":
        vs = sorted(set(case["vars"]))
        for comp in (False, True):
            c = AllDifferentConstraint(case["vars"])
            if comp: c.compile()
            m = check(c, vs, lambda: len({a[v] for v in vs}) == len(vs), a, "all-different")
            if m: return m
        return None
    t = case["tree"]
    if c01._const_undefined(t): return None
    params = {}
    e = build_expr(t, params)
    vs = list(e.vars())
    full = dict(a)
    def truth():
        return bool(ev(t, full, {p.name: p.value for p in params.values()}))
    def ok():
        if all(v in a for v in vs):
            try: truth()
            except Undefined: return False
            except KeyError: return False
        return True
    if not ok(): return None
    for v in tvars(t): full.setdefault(v, 7)    # simplified away
    c = ExpressionConstraint(e)
    m = check(c, vs, truth, a, "interpreted")
    if m: return m
    c.compile()
    if not c.is_compiled(): return "compile has no effect"
    m = check(c, vs, truth, a, "compiled")
    if m: return m
    for p in params.values():
        p.value += 2
        if not ok(): return None
        m = check(ExpressionConstraint(e), vs, truth, a, "interpreted after parameter change")
        if m: return m
        c.compile()
        m = check(c, vs, truth, a, "recompiled after parameter change")
        if m: return m
    return None
