"""Random constraint models with a brute-force oracle."""
import itertools
from common import *
POLICIES = ["ORDERED", "REVERSED", "RANDOM", "GROUPS", "MIN_BOUND", "MAX_BOUND", "MIN_CONSTRAINT", "MAX_CONSTRAINT"]
CONS_OPS = ["+", "-", "*", "==", "!=", "<", "<=", ">", ">=", "&", "|", "%"]

def rand_domain(rng):
    k = rng.random()
    if k < 0.08: return []
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 12])
    if n == 12: n = rng.randint(6, 12)
    base = rng.choice([list(range(-2, 12)), list(range(0, 14)), [0, 1, 2, 3, 4, 5, 10, 20, -5, 7, 8, 9, 11]])
    d = rng.sample(base, n)
    if rng.random() < 0.4: d.sort()
    return d

def rand_model(rng, maxvars=5, params=True, space=None):
    if space is None: space = rng.choice([60, 200, 200, 500, 2000])
    while True:
        n = rng.choice([1, 1, 2, 2, 3, 3, 3, 4, 4, 5][: 2 * maxvars])
        names = rng.sample(["x", "y", "z", "w", "v", "u", "a", "if", "sum", "q_0", "q_1"], n)
        vs = [[nm, rand_domain(rng), rng.choice(["list", "list", "tuple", "set", "bool"])] for nm in names]
        for v in vs:
            if v[2] == "bool": v[1] = [0, 1]
        size = 1
        for v in vs: size *= max(1, len(v[1]))
        if size <= space: break
    ps = [["p%d" % i, rng.choice([0, 1, 2, 3, -1])] for i in range(rng.choice([0, 0, 1, 2]))] if params else []
    cons = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5])):
        cons.append(rand_con(rng, names, ps))
    return {"vars": vs, "params": ps, "cons": cons}

def rand_con(rng, names, ps):
    q = rng.random()
    if q < 0.3:
        return {"ad": rng.sample(names, rng.randint(1, len(names)))}
    if q < 0.33:
        return {"b": rng.random() < 0.9}
    def leafed(depth):
        t = rand_tree(rng, depth, names, CONS_OPS, params=False, direct=False, consts=[0, 1, 2, 3, -1, 4, 5])
        return subst(t)
    def subst(t):
        if t[0] == "i" and ps and rng.random() < 0.25:
            p = rng.choice(ps)
            return ["p", p[0], p[1]]
        if t[0] in ("v", "c", "i", "p"): return t
        return [t[0]] + [subst(x) for x in t[1:]]
    if q < 0.55:
        # typical: comparison of two arithmetic terms
        return {"e": [rng.choice(CMP), leafed(rng.randint(0, 2)), leafed(rng.randint(0, 2))]}
    if q < 0.65:
        v = ["v", rng.choice(names)]
        return {"e": [rng.choice(CMP), v, ["i", rng.choice([0, 1, 2, 3])]]}
    return {"e": leafed(rng.randint(1, 3))}

def all_cvars(c):
    return set(c["ad"]) if "ad" in c else tvars(c["e"]) if "e" in c else set()

class Built:
    """The satisfy model for a spec; skips (Undefined) when a constraint is undefined somewhere."""
    def __init__(self, spec):
        from satisfy import Model
        self.spec = spec
        self.m = Model()
        self.params = {}
        self.pvals = {p: v for p, v in spec["params"]}
        for nm, dom, kind in spec["vars"]:
            if kind == "bool": self.m.add_bool_variable(name=nm)
            else:
                self.m.add_int_variable({"list": list, "tuple": tuple, "set": set}[kind](dom), name=nm)
        for p, v in spec["params"]:
            self.params[p] = self.m.add_parameter(v, name=p)
        self.cons = []
        for c in spec["cons"]:
            self.m.add_constraint(self.con(c)) if "ad" not in c else self.m.add_all_different_constraint([self.m.get_variable(v) for v in c["ad"]])
    def con(self, c):
        from satisfy.constraint import AllDifferentConstraint
        if "b" in c: return c["b"]
        if "ad" in c: return AllDifferentConstraint(c["ad"])
        return build_expr(c["e"], self.params)
    def addl(self, c):
        """as an additional constraint: always a Constraint object"""
        from satisfy.constraint import AllDifferentConstraint, ConstConstraint, ExpressionConstraint
        if "b" in c: return ConstConstraint(c["b"])
        if "ad" in c: return AllDifferentConstraint(c["ad"])
        return ExpressionConstraint(build_expr(c["e"], self.params))
    def set_param(self, p, v):
        self.pvals[p] = v
        self.params[p].value = v

def static_false(spec):
    """constraints that mention no variable after simplification are judged when added; the generator keeps parameters out of those"""
    return False

def truth(c, a, pvals):
    if "b" in c: return c["b"]
    if "ad" in c:
        s = set(c["ad"]); return len({a[v] for v in s}) == len(s)
    return bool(ev(c["e"], a, pvals))

def usable(spec, extra=()):
    """Undefined (skip) if some constraint is undefined for some assignment of domain values, or depends on parameters only."""
    names = [v[0] for v in spec["vars"]]
    doms = {v[0]: v[1] for v in spec["vars"]}
    pv = dict(spec["params"])
    for c in list(spec["cons"]) + list(extra):
        if "e" in c:
            _defined(c["e"])
            e = build_expr(c["e"])
            if not list(e.vars()) and _has_param(c["e"]): raise Undefined
            vs = sorted(tvars(c["e"]))
            for vals in itertools.product(*[doms[v] for v in vs]):
                ev(c["e"], dict(zip(vs, vals)), None)
    return names, doms
def _defined(t):
    if t[0] in ("/", "%") and not (t[2][0] in ("i", "c") and t[2][1] != 0): raise Undefined
    if t[0] not in ("v", "c", "i", "p"):
        for x in t[1:]: _defined(x)
def _has_param(t):
    if t[0] == "p": return True
    if t[0] in ("v", "c", "i"): return False
    return any(_has_param(x) for x in t[1:])

def brute(spec, pvals, extra=()):
    """All solutions as a list of dicts."""
    names = [v[0] for v in spec["vars"]]
    doms = [v[1] for v in spec["vars"]]
    cons = list(spec["cons"]) + list(extra)
    out = []
    for vals in itertools.product(*doms):
        a = dict(zip(names, vals))
        if all(truth(c, a, pvals) for c in cons): out.append(a)
    return out

def rand_config(rng, limits=True):
    return {"policy": rng.choice(POLICIES), "compile": rng.random() < 0.5,
            "limit": rng.choice([None, None, None, 1, 2, 3, 5]) if limits else None,
            "timeout": None}

def shrink_spec(spec):
    for i in range(len(spec["cons"])):
        yield dict(spec, cons=spec["cons"][:i] + spec["cons"][i+1:])
    used = set()
    for c in spec["cons"]: used |= all_cvars(c)
    for i, v in enumerate(spec["vars"]):
        if v[0] not in used and len(spec["vars"]) > 1:
            yield dict(spec, vars=spec["vars"][:i] + spec["vars"][i+1:])
    for i, v in enumerate(spec["vars"]):
        if v[2] != "bool":
            for j in range(len(v[1])):
                yield dict(spec, vars=spec["vars"][:i] + [[v[0], v[1][:j] + v[1][j+1:], v[2]]] + spec["vars"][i+1:])
    for i in range(len(spec["params"])):
        pass

def key(a):
    return tuple(sorted(a.items()))
def mkconfig(cfg):
    from satisfy import VarSelectionPolicy
    return dict(var_selection_policy=getattr(VarSelectionPolicy, cfg["policy"]), timeout=cfg["timeout"], limit=cfg["limit"], compile_constraints=cfg["compile"])

def small_specs():
    """Small hand-enumerated family: <= 3 variables, <= 2 constraints."""
    doms = [[0, 1], [2, 0, 1], [1], []]
    cs = [{"ad": ["x", "y"]}, {"ad": ["x", "y", "z"]}, {"ad": ["x"]}, {"e": ["<", ["v", "x"], ["v", "y"]]}, {"e": ["==", ["+", ["v", "x"], ["v", "y"]], ["v", "z"]]},
          {"e": [">", ["v", "x"], ["i", 0]]}, {"e": ["!=", ["v", "z"], ["i", 1]]}, {"b": True}, {"b": False}, {"e": ["|", ["v", "x"], ["v", "z"]]}, {"e": ["!=", ["v", "y"], ["v", "y"]]},
          {"e": ["==", ["v", "x"], ["v", "y"]]}]
    for n in (1, 2, 3):
        names = ["x", "y", "z"][:n]
        ok = [c for c in cs if all_cvars(c) <= set(names)]
        for ds in itertools.product(doms, repeat=n):
            if n == 3 and ds[0] == []: continue
            for k in (0, 1, 2):
                for cc in itertools.combinations(ok, k):
                    yield {"vars": [[a, d, "list"] for a, d in zip(names, ds)], "params": [], "cons": list(cc)}
