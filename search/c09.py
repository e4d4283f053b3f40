"""Random models with one objective (trees over the variables, also single-variable and constant objectives), minimize/maximize, every policy and compile setting; each yielded solution is checked feasible and strictly better than all before. Non-trivial: more than one solution exists."""
from csp import *
OBJ_OPS = ["+", "-", "*", "+", "-", "==", "<", "&", "|"]
def rand_obj(rng, names):
    q = rng.random()
    if q < 0.2: return ["v", rng.choice(names)]
    if q < 0.25: return ["c", rng.choice([0, 1, 5])]
    if q < 0.6:
        t = ["i", 0]
        for n in names:
            t = ["+", t, ["*", ["v", n], ["i", rng.choice([1, 2, 3, -1, -2, 5, 0])]]]
        return t
    return rand_tree(rng, rng.randint(1, 3), names, OBJ_OPS, params=False, direct=False, consts=[0, 1, 2, -1, 3])
def generate(rng):
    spec = rand_model(rng, params=False, space=600)
    names = [v[0] for v in spec["vars"]]
    add = [{"e": rand_tree(rng, rng.randint(1, 2), names, ["<", "!=", "<=", "+", ">"], params=False, direct=False, consts=[0, 1, 2])} for _ in range(rng.choice([0, 0, 1]))]
    return {"spec": spec, "add": add, "obj": rand_obj(rng, names), "max": rng.random() < 0.5, "cfg": dict(rand_config(rng, limits=rng.random() < 0.2)), "again": rng.random() < 0.3}
def enumerate_cases():
    i = 0
    for ds in ([[0, 1, 2], [0, 1]], [[2, 0, 1], [1, 0, 2]], [[1, 2, 0]], [[0], [3, 1, 2]], [[0, 1], [0, 1], [1, 0]]):
        names = ["x", "y", "z"][:len(ds)]
        objs = [["v", n] for n in names] + [["neg", ["v", n]] for n in names] + [["c", 3]]
        if len(names) > 1: objs += [["+", ["v", "x"], ["v", "y"]], ["-", ["v", "x"], ["v", "y"]], ["*", ["v", "x"], ["v", "y"]], ["-", ["*", ["i", 3], ["v", "x"]], ["v", "y"]]]
        cons = [[], [{"e": [">", ["v", "x"], ["i", 0]]}]] + ([[{"ad": ["x", "y"]}], [{"e": ["<=", ["v", "x"], ["v", "y"]]}]] if len(names) > 1 else [])
        for o in objs:
            for mx in (False, True):
                for c in cons:
                    for p in POLICIES:
                        i += 1
                        yield {"spec": {"vars": [[n, d, "list"] for n, d in zip(names, ds)], "params": [], "cons": c}, "obj": o, "max": mx,
                               "cfg": {"policy": p, "compile": bool(i % 2), "limit": None, "timeout": None}, "again": False}
def nontrivial(case): return len(case["spec"]["vars"]) > 1
def shrink(case):
    if case.get("add"): yield dict(case, add=[])
    for s in shrink_spec(case["spec"]):
        if set().union(tvars(case["obj"]), *[tvars(c["e"]) for c in case.get("add", ())]) <= {v[0] for v in s["vars"]}: yield dict(case, spec=s)
def prepare(case):
    from satisfy import Solver, Minimize, Maximize
    spec = case["spec"]
    add = case.get("add") or []
    usable(spec, [{"e": case["obj"]}] + add)
    b = Built(spec)
    sols = brute(spec, b.pvals, add)
    obj = (Maximize if case["max"] else Minimize)(build_expr(case["obj"]))
    s = Solver(**mkconfig(case["cfg"]))
    args = {"additional_constraints": [b.addl(c) for c in add]} if add else {}
    return spec, b, sols, obj, s, args
def run(case):
    spec, b, sols, obj, s, args = prepare(case)
    names = {v[0] for v in spec["vars"]}
    better = (lambda x, y: x > y) if case["max"] else (lambda x, y: x < y)
    for _ in range(2 if case["again"] else 1):
        last = None; n = 0
        for o in s.optimize(b.m, obj, **args):
            n += 1
            sol = o.solution
            if set(sol) != names: return "solution binds %r" % sorted(sol)
            if sol not in sols: return "yields the non-solution %r" % sol
            v = ev(case["obj"], sol)
            if last is not None and not better(v, last): return "value %r after %r (%s)" % (v, last, "maximize" if case["max"] else "minimize")
            last = v
            if n > len(sols) + 3: return "too many solutions"
    return None
