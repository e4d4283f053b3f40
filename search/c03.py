"""Expression trees as C01 (names include parameters); vars/free_vars compared with the structure and with observed dependence of the value; non-trivial: at least two variables in the tree."""
from common import *
import c01
def enumerate_cases():
    for t in small_trees():
        yield {"tree": t, "assigns": [{"x": 2, "y": 3}, {"x": 0, "y": 1}], "part": ["x"]}
def generate(rng):
    c = c01.generate(rng)
    names = sorted(c["assigns"][0])
    c["part"] = [n for n in names if rng.random() < 0.5]
    return c
def nontrivial(case):
    return len(tvars(case["tree"])) >= 2
def shrink(case):
    for c in c01.shrink({"tree": case["tree"], "assigns": case["assigns"]}):
        yield dict(c, part=case["part"])
def run(case):
    t = case["tree"]
    if c01._const_undefined(t): return None
    e = build_expr(t)
    vs = list(e.vars())
    if len(set(vs)) != len(vs): return "vars lists a variable twice: %r" % vs
    if not set(vs) <= tvars(t): return "vars reports %r, not in the formula" % (set(vs) - tvars(t))
    for val in (1, 0, -1):
        part = {n: val for n in case["part"]}
        part["unrelated"] = val
        fv = list(e.free_vars(dict(part)))
        if sorted(fv) != sorted(v for v in vs if v not in part): return "free_vars(%r) = %r but vars = %r" % (part, fv, vs)
    if list(e.free_vars({})) != vs and set(e.free_vars({})) != set(vs): return "free_vars({}) differs from vars"
    for a in case["assigns"]:
        try: want = ev(t, a)
        except Undefined: continue
        only = {k: v for k, v in a.items() if k in vs}
        got = e.evaluate(only)   # must not need anything else
        if got != want: return "value %r with only the reported variables bound, %r expected" % (got, want)
        for o in a:
            if o not in vs:
                b = dict(a); b[o] = a[o] + 5
                if e.evaluate(b) != got: return "value depends on unreported variable %s" % o
    return None
