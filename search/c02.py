"""As C01, plus odd variable names (keywords, builtins) and deep nestings; compiled result compared with interpretation; non-trivial: the tree has an operator and a variable."""
from common import *
import c01
_const_undefined = c01._const_undefined
shrink_trees = c01.shrink
def enumerate_cases():
    A = [{"x": a, "y": b} for a in (0, 1, 2, -3) for b in (0, 1, -2, 3)]
    for t in small_trees():
        yield {"tree": t, "assigns": A, "rename": {}}
    for nm in ODD_NAMES:
        for t in (["+", ["v", "x"], ["+", ["v", "y"], ["v", "z"]]], ["*", ["v", "x"], ["*", ["v", "y"], ["v", "z"]]], ["abs", ["-", ["v", "x"], ["v", "y"]]]):
            yield {"tree": t, "assigns": [{"x": 2, "y": 5, "z": -1}], "rename": {"x": nm}}
    for op in ["-", "+", "*", "/"]:
        t = ["v", "x"]
        for i in range(120): t = [op, t, ["i", i % 3 + 1]]
        yield {"tree": t, "assigns": [{"x": 5}], "rename": {}}
def generate(rng):
    c = c01.generate(rng)
    c["rename"] = {}
    if rng.random() < 0.3:
        for n, o in zip(sorted(c["assigns"][0]), rng.sample(ODD_NAMES, 4)):
            c["rename"][n] = o
    return c
def nontrivial(case):
    return bool(tvars(case["tree"])) and case["tree"][0] != "v"
def shrink(case):
    for c in c01.shrink({"tree": case["tree"], "assigns": case["assigns"]}):
        yield dict(c, rename=case["rename"])
def ren(t, m):
    if t[0] == "v": return ["v", m.get(t[1], t[1])]
    if t[0] in ("Sum", "Prod"): return [t[0], [ren(x, m) for x in t[1]], t[2]]
    if t[0] in ("c", "i", "p"): return t
    return [t[0]] + [ren(x, m) for x in t[1:]]
def run(case):
    if _const_undefined(case["tree"]): return None
    t = ren(case["tree"], case["rename"])
    params = {}
    e = build_expr(t, params)
    f = e.as_function()
    kw = [n for n in case["rename"].values()]
    g = None
    import keyword
    if not any(keyword.iskeyword(n) for n in tvars(t)):
        try:
            g = e.compile_py_function()
        except Exception:
            g = None     # as_function falls back to interpretation
    for a0 in case["assigns"]:
        a = {case["rename"].get(k, k): v for k, v in a0.items()}
        try:
            ev(t, a)
        except Undefined:
            continue
        except Exception:
            continue
        want = e.evaluate(dict(a))
        for extra in ({}, {"unrelated": 3, "k9": 1}):
            for name, fn in (("as_function", f), ("compile_py_function", g)):
                if fn is None: continue
                got = fn(**dict(a, **extra))
                if got != want or isinstance(got, float) != isinstance(want, float):
                    return "%s gives %r, evaluate gives %r under %r (source %s)" % (name, got, want, a, e.py_expr())
    for p in params.values():
        old = p.value
        p.value = old + 3
        try:
            for a0 in case["assigns"]:
                a = {case["rename"].get(k, k): v for k, v in a0.items()}
                over = {q.name: q.value for q in params.values()}
                try: ev(t, a, over)
                except Undefined: continue
                want = e.evaluate(dict(a)); got = e.as_function()(**a)
                if got != want: return "recompiled function gives %r, evaluate gives %r after changing parameter %s" % (got, want, p.name)
        finally:
            p.value = old
    return None
