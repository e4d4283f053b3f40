"""Operator trees: exhaustive depth 1 and part of depth 2 over small constants, then random trees of depth <= 5, each evaluated on several random assignments against plain Python; non-trivial: the tree has a variable or parameter."""
import random
from common import *
def _assigns(rng, names, n):
    return [{v: rng.choice([0, 1, -1, 2, 3, -3, 7, 12, 40]) for v in names} for _ in range(n)]
def enumerate_cases():
    A = [{"x": a, "y": b} for a in (0, 1, 2, -3) for b in (0, 1, -2, 3)]
    for t in small_trees():
        yield {"tree": t, "assigns": A}
def generate(rng):
    names = rng.sample(NAMES, rng.randint(1, 4))
    t = rand_tree(rng, rng.randint(1, 5), names)
    return {"tree": t, "assigns": _assigns(rng, names, 6)}
def nontrivial(case):
    return bool(tvars(case["tree"]))
def shrink(case):
    t = case["tree"]
    for a in case["assigns"]:
        if len(case["assigns"]) > 1: yield {"tree": t, "assigns": [a]}
    def subs(t):
        if t[0] in ("Sum", "Prod"):
            yield from t[1]
            for i in range(len(t[1])): yield [t[0], t[1][:i] + t[1][i+1:], t[2]]
        elif t[0] not in ("v", "c", "i", "p"):
            for i in range(1, len(t)):
                yield t[i]
                for s in subs(t[i]): yield t[:i] + [s] + t[i+1:]
    for s in subs(t): yield {"tree": s, "assigns": case["assigns"]}
def run(case):
    try:
        # plain-Python failures while folding constants (0 division, huge powers) are outside the property
        for a in case["assigns"]:
            ev(case["tree"], a)
    except Undefined:
        pass
    t = case["tree"]
    if _const_undefined(t):
        return None
    e = build_expr(t)
    for a in case["assigns"]:
        try:
            want = ev(t, a)
        except Undefined:
            continue
        got = e.evaluate(dict(a))
        if got != want:
            return "evaluate gives %r, plain Python gives %r under %r" % (got, want, a)
    return None
def _const_undefined(t):
    """some constant-only subtree is undefined (then construction may raise like plain Python would)"""
    if t[0] in ("v", "c", "i", "p"): return False
    kids = t[1] if t[0] in ("Sum", "Prod") else t[1:]
    if any(_const_undefined(k) for k in kids): return True
    if not tvars(t):
        try: ev(t, {})
        except Undefined: return True
    if t[0] in ("**", "/", "%") and tvars(t):
        # x / 0, x ** -1 on constants: defined-ness depends only on the right operand
        if not tvars(t[2]):
            try: r = ev(t[2], {})
            except Undefined: return True
            if (t[0] in ("/", "%") and r == 0) or (t[0] == "**" and (r < 0 or r > 8)): return True
    return False
