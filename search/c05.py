"""Random histories of add_int_variable / add_bool_variable / add_parameter / add_constraint / add_all_different_constraint / set_solvable, with good and bad arguments, against a reference model; invariants and unchanged-on-error are checked after every step. Non-trivial: at least three steps."""
from csp import *
GOODN = ["x", "y", "z", "a1", "B_2", "if", "x_", "_v0"]
BADN = ["", "1a", "_x", "a b", "a-b", "x\n", "é", "a:b", " x", "x."]
def rstep(rng):
    q = rng.random()
    name = None if rng.random() < 0.3 else rng.choice(GOODN[:7] if rng.random() < 0.8 else BADN)
    if q < 0.35:
        d = [rng.randint(0, 5) for _ in range(rng.randint(0, 3))]
        return ["int", name, d, rng.choice(["list", "tuple"])]
    if q < 0.42: return ["bool", name]
    if q < 0.55: return ["par", name, rng.choice([0, 1, 2])]
    if q < 0.65: return ["con", {"b": rng.random() < 0.7}]
    if q < 0.72: return ["con", {"e": [rng.choice(CMP), ["c", rng.randint(0, 2)], ["c", 1]]}]
    if q < 0.92: return ["con", {"e": rand_tree(rng, 2, ["x", "y", "z", "a1", "nope"], CONS_OPS[:9], params=False, direct=False)}]
    if q < 0.96: return ["ad", [rng.choice(["x", "y", "z", "nope"]) for _ in range(rng.randint(0, 3))]]
    if q < 0.98: return ["solv", rng.random() < 0.3]
    return ["bad", rng.choice(["str", "int", "none"])]
def generate(rng):
    return {"steps": [rstep(rng) for _ in range(rng.randint(1, 14))]}
def enumerate_cases():
    for n in GOODN + BADN + [None]:
        for k in ("int", "par", "bool"):
            st = {"int": ["int", n, [1, 2], "list"], "par": ["par", n, 1], "bool": ["bool", n]}[k]
            yield {"steps": [st, st, ["con", {"e": ["==", ["v", "x"], ["i", 1]]}]]}
    for d in ([1, 1], [], [0, 1, 0], [2, 1]):
        yield {"steps": [["int", "x", d, "list"], ["int", None, d, "tuple"], ["int", "x", [5], "list"]]}
    for s in (True, False):
        for b in (True, False):
            yield {"steps": [["int", "x", [1], "list"], ["con", {"b": b}], ["con", {"e": ["==", ["v", "x"], ["i", 1]]}]]}
            yield {"steps": [["int", "x", [1], "list"], ["solv", s]]}
            yield {"steps": [["con", {"e": ["==", ["c", 1], ["neg", ["c", 2]]]}], ["int", "x", [1], "list"]]}
def nontrivial(case): return len(case["steps"]) >= 3
def shrink(case):
    st = case["steps"]
    for i in range(len(st)): yield {"steps": st[:i] + st[i+1:]}
def okname(n):
    import re
    return re.fullmatch(r"[a-zA-Z]\w*", n) is not None
def run(case):
    from satisfy import Model, Solver
    from satisfy.expression import Variable, Parameter, Expression
    from satisfy.constraint import AllDifferentConstraint
    m = Model()
    names = {}; ncons = 0; solvable = True; consvars = []
    for st in case["steps"]:
        bv = list(m.variables().items()); bc = list(m.constraints()); bs = m.solvable()
        want_err = False; added = None
        try:
            if st[0] in ("int", "bool"):
                n = st[1]; d = st[2] if st[0] == "int" else [0, 1]
                want_err = len(set(d)) != len(d) or (n is not None and (not okname(n) or n in names))
                obj = m.add_int_variable({"list": list, "tuple": tuple}[st[3]](d), name=n) if st[0] == "int" else m.add_bool_variable(name=n)
                if not isinstance(obj, Variable): return "add variable returns %r" % (obj,)
                if n is not None and obj.name != n: return "variable named %r instead of %r" % (obj.name, n)
                added = (obj.name, d, obj)
            elif st[0] == "par":
                n = st[1]
                want_err = n is not None and (not okname(n) or n in names)
                obj = m.add_parameter(st[2], name=n)
                if not isinstance(obj, Parameter) or obj.value != st[2]: return "add_parameter returns %r" % (obj,)
                if n is not None and obj.name != n: return "parameter named %r instead of %r" % (obj.name, n)
                added = (obj.name, None, obj)
            elif st[0] in ("con", "ad"):
                if st[0] == "ad":
                    class V:
                        def __init__(self, n): self.name = n
                    vs = set(st[1]); val = True
                    want_err = not vs <= set(names)
                    c = [V(n) for n in st[1]]
                    f = lambda: m.add_all_different_constraint(c)
                elif "b" in st[1]:
                    vs = set(); val = st[1]["b"]; f = lambda: m.add_constraint(st[1]["b"])
                else:
                    e = build(st[1]["e"])
                    if not isinstance(e, Expression): raise Undefined
                    vs = set(e.vars()); val = bool(ev(st[1]["e"], {v: 1 for v in NAMES + ["a1", "nope"]})) if not vs else True
                    want_err = bool(vs) and not vs <= set(names)
                    f = lambda: m.add_constraint(e)
                f()
                if not want_err:
                    if vs: ncons += 1; consvars.append(vs)
                    elif not val: solvable = False; ncons = None if ncons is None else ncons
            elif st[0] == "solv":
                m.set_solvable(st[1]); solvable = st[1]
            else:
                want_err = True
                m.add_constraint({"str": "x", "int": 3, "none": None}[st[1]])
            err = None
        except (ValueError, TypeError) as ex:
            err = ex
        if want_err and err is None: return "step %r is accepted" % (st,)
        if not want_err and err is not None: return "step %r raises %r" % (st, err)
        av = list(m.variables().items()); ac = list(m.constraints())
        if err is not None:
            if [(k, id(v.variable), id(v.domain)) for k, v in av] != [(k, id(v.variable), id(v.domain)) for k, v in bv] or [id(c) for c in ac] != [id(c) for c in bc] or m.solvable() != bs:
                return "step %r raised but changed the model" % (st,)
            continue
        if added:
            if added[0] in names: return "name %r used twice" % added[0]
            if len(av) != len(bv) + 1: return "step %r: %d variables before, %d after" % (st, len(bv), len(av))
            names[added[0]] = added[1]
            if m.get_variable(added[0]) is not added[2]: return "get_variable(%r) is not the variable added" % added[0]
            if added[1] is not None and list(m.get_var_domain(added[0])) != list(added[1]): return "domain changed"
            if added[1] is None and m.get_var_domain(added[2]) is not None: return "parameter has a domain"
        if [k for k, _ in av] != list(names): return "variables are %r, expected %r" % ([k for k, _ in av], list(names))
        for k, i in av:
            if i.variable.name != k: return "variable %r stored as %r" % (i.variable.name, k)
        if m.solvable() != solvable: return "solvable() is %r, expected %r after %r" % (m.solvable(), solvable, st)
        got = sorted(sorted(c.vars()) for c in ac if c.vars())
        if got != sorted(sorted(v) for v in consvars): return "constraints over %r, expected %r" % (got, consvars)
    if not m.solvable():
        if list(Solver().solve(m)): return "an unsolvable model has solutions"
    return None
