"""C09, C10: contracts of objective.py, Solver.optimize and Solver.optimal_solution.

Part 1 (objective.py, over one arbitrary valuation SIGMA and arbitrary parameter values VALUE): make_constraint makes a
constraint that excludes nothing at first; after add_solution(c, s) the constraint says exactly "strictly better than the
value the objective has on s" - whatever was added before, and whether it is compiled or not.
Part 2 (Solver.optimize over the contracts of part 1 and of Solver.solve): NS(c) != 0 while nothing is excluded, BND(c) the
value to be improved; a search yields only assignments that satisfy the model and the constraint as it then stands (C06),
and misses no solution that satisfies it at all times, if it is not interrupted (C07, C08).
Part 3 (Solver.optimal_solution over the contract of Solver.optimize)."""
from . import expr as X
from .search import *

OM = "satisfy.objective"
FEP = z3.Function("compiled_in", I, I)
MODN = z3.Int("model")

# ================================================================ part 1
class ObjSpec(ConsSpec):
    lean = True
    FIELDS = dict(ConsSpec.FIELDS)
    FIELDS.update({("MinMax", "_expression"): TRef("Expression")})
    def __init__(self, repo):
        super().__init__(repo)
        self.CONTRACTS = {X.XM + ":Expression.as_function": Contract(X.XM + ":Expression.as_function", effect=o_as_function),
                          "satisfy.model:Model.add_parameter": Contract("satisfy.model:Model.add_parameter", effect=o_add_parameter)}
        for k, v in ExprSpec.CONTRACTS.items(): self.CONTRACTS.setdefault(k, v)
    def on_setfield(self, ip, o, attr, v):
        if attr == "_value": ip.cx.ghost["pepoch"] = ip.cx.fresh("pepoch")
    solution = None
    def v_evaluate(self, ip, args, kw):
        o, d = args[0], args[1] if len(args) > 1 else kw["substitution"]
        if self.solution is not None and isinstance(d, Sym) and d.t.eq(self.solution[1]):
            ip.cx.check(o.t == self.solution[0], "the value noted is that of the objective")
            ip.cx.task.contracts_used.add("Expression.evaluate")
            return Sym(TInt, self.solution[2])
        return super().v_evaluate(ip, args, kw)
def o_as_function(ip, a):
    """the function computes the expression with the parameter values of this moment (they are written into its text)"""
    f = ip.cx.fresh("fun")
    ip.cx.assume(z3.And(f >= 1, FEX(f) == a["self"].t, FEP(f) == ip.cx.ghost["pepoch"]))
    return Sym(TFun(), f)
def o_add_parameter(ip, a):
    """a new parameter with this value; what the parameter denotes later (VALUE) is left open, so that everything is shown for all values it may take"""
    cx = ip.cx
    cx.check(a["model" if "model" in a else "self"].t == MODN, "parameters are added to the model")
    r = cx.new_ref()
    o = Sym(TRef("Parameter"), r)
    cx.assume(CLS(r) == ip.cid["Parameter"])
    v = ip.int_(a["value"])
    cx.wr("f:_value", r, v, op="field", val=v)
    cx.ghost["params"] = cx.ghost.get("params", ()) + (r,)
    ip.spec.unfold(ip, o)
    return o
def now(ip):
    """the parameters denote their present values"""
    h = ip.cx.hp("f:_value")
    return z3.And(*[VALUE[p] == h[p] for p in ip.cx.ghost["params"]]) if ip.cx.ghost.get("params") else z3.BoolVal(True)
def up_to_date(ip, c):
    f = fld(ip, c, "_evaluate_function")
    return z3.Or(f == 0, z3.And(f >= 1, FEX(f) == ex_of(ip, c), FEP(f) == ip.cx.ghost["pepoch"]))
def obj_task(repo, cls, better):
    def run(cx):
        ip = VC(repo, ObjSpec(repo), cx)
        cx.ghost["pepoch"] = cx.fresh("pepoch")
        o = Sym(TRef(cls), z3.Int("self")); ip.wf(o); cx.assume(CLS(o.t) == ip.cid[cls])
        m = Sym(TRef("Model"), MODN); ip.wf(m); cx.assume(CLS(m.t) == ip.cid["Model"])
        e = cx.rd("f:_expression", o.t); ip.wf(Sym(TRef("Expression"), e))
        for fl in ("_value", "_expression", "_evaluate_function", "_var_names"): cx.hp("f:" + fl)
        ip.callstack = [cls]
        mk = ip.find_method(cls, "make_constraint"); ad = ip.find_method(cls, "add_solution")
        if mk is None or ad is None: raise AnnotationMismatch("methods of an objective")
        ip.verifying = mk.qual
        try: c = ip.call_fn(mk, [o, m], {})
        except PyRaise as x: cx.check(z3.BoolVal(False), "making the constraint never fails (raised %s)" % x.exc); return
        if not (isinstance(c, Sym) and isinstance(res(c.ty), TRef) and repo.is_sub(res(c.ty).cls, "ExpressionConstraint")): raise AnnotationMismatch("the constraint of an objective")
        x = ex_of(ip, c)
        cx.check(c.t >= z3.Int("alloc0"), "a new constraint is made")
        cx.check(fld(ip, o, "_expression") == e, "the objective is unchanged")
        cx.check(z3.Implies(now(ip), DEN(x) != 0), "at first nothing is excluded")
        cx.check(up_to_date(ip, c), "a compiled form is that of the present bound")
        cx.check(z3.Implies(INVS(x)[X0], INVS(e)[X0]), "it depends on variables of the objective only")
        cx.check(z3.Implies(cdom(ip, c)[X0], INVS(e)[X0]), "its variables are variables of the objective only")
        cx.check(z3.Implies(DEF(e), DEF(x)), "its arithmetic is defined where that of the objective is")
        # later: bounds were set and removed, the constraint was compiled or not
        for p in cx.ghost.get("params", ()): cx.wr("f:_value", p, cx.fresh("bound"), op="hv")
        cx.ghost["pepoch"] = cx.fresh("pepoch")
        f = cx.fresh("f"); cx.wr("f:_evaluate_function", c.t, f, op="hv"); cx.assume(up_to_date(ip, c))
        old = dict(cx.heap)
        # the solution is any other assignment: the objective has some value v on it
        d = dict_arg(ip, "substitution"); v = cx.fresh("v")
        ip.spec.solution = (e, d.t, v)
        D0, V0 = cx.rd("D.dom", d.t), cx.rd("D.val", d.t)
        ip.verifying = ad.qual
        try: ip.call_fn(ad, [o, c, d], {})
        except PyRaise as y: cx.check(z3.BoolVal(False), "taking note of a solution never fails (raised %s)" % y.exc); return
        cx.check(z3.And(fld(ip, c, "_expression") == x, fld(ip, o, "_expression") == e), "constraint and objective stay about their expressions")
        cx.check(z3.And(cx.rd("D.dom", d.t) == D0, cx.rd("D.val", d.t) == V0), "the solution is not changed")
        cx.check(up_to_date(ip, c), "a compiled form is that of the present bound")
        h = cx.hp("f:_value"); r = z3.Int("r")
        cx.check(forall([r], z3.Implies(z3.And(r >= 1, r < z3.Int("alloc0")), h[r] == VALUE[r])), "no other parameter is changed")
        w = DEN(e)          # the value of the objective under any valuation
        cx.check(z3.Implies(z3.And(now(ip), DEF(e)), (DEN(x) != 0) == (w < v if better == "<" else w > v)), "what is strictly better than the solution passes, nothing else")
    return Task("%s.make_constraint, add_solution" % cls, run, axioms=X.lean_axioms(), functions=["%s.make_constraint" % cls, "%s.add_solution" % cls, "MinMaxConstraint.__init__", "MinMaxConstraint.set_bound"])

def objinit_task(repo, cls, good):
    def run(cx):
        ip = VC(repo, ObjSpec(repo), cx)
        o = Sym(TRef(cls), z3.Int("self")); ip.wf(o); cx.assume(CLS(o.t) == ip.cid[cls])
        e = X.expr(ip, "expression") if good else Sym(TInt, z3.Int("expression"))
        f = ip.find_method(cls, "__init__"); ip.verifying = f.qual
        try: ip.run_body(f, [o, e], {})
        except PyRaise as x: cx.check(z3.BoolVal(not good), "the constructor never fails (raised %s)" % x.exc); return
        cx.check(z3.BoolVal(good), "the constructor rejects what is no expression")
        if good: cx.check(fld(ip, o, "_expression") == e.t, "the objective is about the given expression")
    return Task("%s.__init__%s" % (cls, "" if good else " (no expression)"), run, axioms=X.lean_axioms(), functions=["MinMax.__init__"])
def part1(repo):
    need_fields(repo, "MinMax", ["_expression"]); need_fields(repo, "ExpressionConstraint", ["_expression", "_evaluate_function"])
    out = []
    for c, b in (("Minimize", "<"), ("Maximize", ">")): out += [obj_task(repo, c, b), objinit_task(repo, c, True), objinit_task(repo, c, False)]
    return out

# ================================================================ part 2
EV = z3.Function("objective_value", AI, I)           # value of the objective under an assignment
SOL = z3.Function("is_solution", AI, B)              # satisfies the model and the caller's additional constraints
BETTERDIR = z3.Bool("maximizing")
def better(a, b): return z3.If(BETTERDIR, a > b, a < b)
HAS = z3.Bool("has_solution")                        # H is a solution

class OptSpec(SolverSpec):
    """objectives, Solver.solve and Solver.optimize by contract"""
    prop = "C09"
    FIELDS = dict(SolverSpec.FIELDS)
    def __init__(self, repo):
        super().__init__(repo)
        self.CONTRACTS = {q: Contract(q, gen=True) for q in (SM + ":Solver.solve", SM + ":Solver.optimize")}
    def virtual(self, ip, cls, attr, o):
        if attr in ("make_constraint", "add_solution") and self.repo.is_sub(cls, "Objective"): return BuiltinV("ovirt:" + attr)
        return super().virtual(ip, cls, attr, o)
    def builtin(self, ip, f, args, kw, node, env):
        if f.name.startswith("ovirt:"):
            if kw: raise Unsupported("keyword arguments of an objective's method")
            return getattr(self, "o_" + f.name[6:])(ip, *args)
        return super().builtin(ip, f, args, kw, node, env)
    def o_make_constraint(self, ip, o, m):
        cx = ip.cx
        cx.task.contracts_used.add("Objective.make_constraint")
        cx.check(o.t == z3.Int("objective"), "the objective given is the one used")
        cx.check(m.t == MODN, "parameters are added to the model")
        if "made" in cx.ghost: raise AnnotationMismatch("several constraints for one objective")
        c = Sym(TRef("ExpressionConstraint"), cx.new_ref())
        cx.assume(z3.Or(*[CLS(c.t) == ip.cid[k] for k in self.repo.subclasses("ExpressionConstraint") if not self.repo.is_abstract(k)]))
        cx.wr("f:$ns", c.t, z3.IntVal(1), op="hv")
        cx.ghost["made"] = c.t
        return c
    def o_add_solution(self, ip, o, c, d):
        cx = ip.cx
        cx.task.contracts_used.add("Objective.add_solution")
        cx.check(z3.And(o.t == z3.Int("objective"), c.t == cx.ghost["made"]), "the constraint made for the objective gets its solutions")
        if not (isinstance(d, Sym) and isinstance(res(d.ty), TDict)): raise Unsupported("solution %r" % (d,))
        x = cx.fresh("ox")
        cx.check(cx.rd("D.dom", d.t)[x] == MV(x), "what is noted is an assignment of the variables of the model")
        cx.wr("f:$ns", c.t, z3.IntVal(0), op="hv")
        cx.wr("f:$bound", c.t, EV(cx.rd("D.val", d.t)), op="hv")
        return PyC(None)
    def for_generator(self, ip, s, gen, env):
        k = gen.contract.qual.split(".")[-1]
        return (over_solve if k == "solve" else over_optimize)(self, ip, s, gen, env)
    def on_yield(self, ip, v, env):
        cx = ip.cx
        if not isinstance(v, Tup): raise AnnotationMismatch("what is yielded is no optimization step")
        d = ip.getattr_(v, "solution")
        if not (isinstance(d, Sym) and isinstance(res(d.ty), TDict)): raise AnnotationMismatch("what is yielded is no solution")
        x = cx.fresh("yx")
        A = cx.rd("D.val", d.t)
        cx.check(cx.rd("D.dom", d.t)[x] == MV(x), "a solution binds exactly the variables of the model")
        cx.check(SOL(A), "what is yielded is a solution of the model")
        n, last = cx.ghost["n"], cx.ghost["last"]
        cx.check(z3.Implies(n >= 1, better(EV(A), last)), "every solution is strictly better than the one before")
        cx.ghost["n"], cx.ghost["last"] = n + 1, EV(A)
        for mp in ("D.dom", "D.val"): cx.wr(mp, d.t, cx.fresh("yd", heap_sort(mp).range()), op="hv")        # the caller may change it
def state_ok(ip, c, v):
    """the constraint, as it stands, accepts an assignment on which the objective is worth v"""
    cx = ip.cx
    return z3.Or(cx.rd("f:$ns", c) != 0, better(v, cx.rd("f:$bound", c)))
def opt_inv(ip, c, seen, ok):
    cx = ip.cx
    n, last = cx.ghost["n"], cx.ghost["last"]
    ns, b = cx.rd("f:$ns", c), cx.rd("f:$bound", c)
    return [("number of solutions", n >= 0),
            ("nothing is excluded before the first solution, then what is not better than the last one", z3.If(n == 0, ns != 0, z3.And(ns == 0, b == last))),
            ("a solution better than the last one was never excluded and never yielded", z3.Implies(z3.Or(n == 0, better(EV(H), last)), z3.And(ok, z3.Not(seen))))]
def same_heap(ip, before, alloc, but, name):
    cx = ip.cx; r = z3.Int("r")
    for m, h in list(cx.heap.items()):
        if m.startswith("f:$") or m not in before or h.eq(before[m]): continue
        g = z3.And(r >= 1, r < alloc, *[r != t for t in but])
        cx.check(forall([r], z3.Implies(g, h[r] == before[m][r]), ([h[r]] if z3.is_const(h) else [])), "%s (%s)" % (name, m))
def over_solve(spec, ip, s, gen, env):
    cx = ip.cx; a = gen.args
    c = cx.ghost.get("made")
    if c is None: raise AnnotationMismatch("the search starts before the constraint of the objective is made")
    if "loop" in cx.ghost: raise AnnotationMismatch("several searches")
    cx.ghost["loop"] = True
    cx.check(z3.And(a["self"].t == z3.Int("self"), a["model"].t == MODN), "the search is about the model given")
    kw = a.get("args")
    if not isinstance(kw, KwV): raise AnnotationMismatch("arguments of the search")
    for nm, pv in spec.given.items():
        if nm == "additional_constraints": continue
        p, v = pv
        q = kw.entries.get(nm)
        cx.check(z3.BoolVal(q is not None) if q is None else z3.And(q[0] == p, ip.enc(q[1], TOpt(TInt)) == ip.enc(v, TOpt(TInt))), "the arguments are passed on: " + nm)
    if set(kw.entries) - set(spec.given): raise AnnotationMismatch("other arguments of the search")
    if "additional_constraints" not in kw.entries: cx.check(z3.BoolVal(False), "the constraint of the objective is given to the search"); return
    p, v = kw.entries["additional_constraints"]
    n_, el, ty = ip.arr_of(ip.as_seq(v))
    x = cx.fresh("sx")
    cx.check(p, "additional constraints are given")
    cx.check(ELS(el, n_)[c], "the constraint of the objective is given to the search")
    cx.check(z3.Implies(ADDC(x), ELS(el, n_)[x]), "the caller's additional constraints are given to the search")
    cx.check(z3.Implies(ELS(el, n_)[x], z3.Or(ADDC(x), x == c)), "no other additional constraints are given to the search")
    spec_loop(spec, ip, s, env, c)
def spec_loop(spec, ip, s, env, c):
    cx = ip.cx
    T, Fa = z3.BoolVal(True), z3.BoolVal(False)
    for nm, f in opt_inv(ip, c, Fa, state_ok(ip, c, EV(H))): cx.check(f, "on entry: " + nm)
    # an arbitrary moment of the search
    cx.ghost["n"], cx.ghost["last"] = cx.fresh("n"), cx.fresh("last")
    seen, ok = cx.fresh("seen", B), cx.fresh("ok", B)
    for m in ("f:$ns", "f:$bound"): cx.wr(m, c, cx.fresh("st"), op="hv")
    for nm, f in opt_inv(ip, c, seen, ok): cx.assume(f)
    for nm in assigned_names(s.body) + assigned_names([s.target]):
        if nm in env.vars: env.vars[nm] = UNDEF
    if cx.choose([cx.fresh("more", B), cx.fresh("end", B)]) == 0:
        alloc = cx.alloc
        d = Sym(TDict(TStr, TInt), cx.new_ref())               # a new object (C20)
        for mp in ("D.dom", "D.val"): cx.wr(mp, d.t, cx.fresh("sol", heap_sort(mp).range()), op="hv")
        A, D = cx.rd("D.val", d.t), cx.rd("D.dom", d.t); x = z3.Int("x")
        cx.assume(forall([x], D[x] == MV(x), [D[x], MV(x)]))
        cx.assume(SOL(A)); cx.assume(state_ok(ip, c, EV(A)))    # C06
        seen2 = z3.Or(seen, cx.fresh("this_is_H", B)); cx.assume(z3.Implies(z3.And(seen2, z3.Not(seen)), EV(A) == EV(H)))
        before = dict(cx.heap)
        ip.assign(s.target, d, env)
        n0 = cx.ghost["n"]
        from pyvc.run import Continue, Break
        try: ip.block(s.body, env)
        except Continue: pass
        except Break: raise AnnotationMismatch("the search is left early")
        cx.reached("search")
        cx.check(cx.ghost["n"] == n0 + 1, "every solution found is yielded, once")
        for nm, f in opt_inv(ip, c, seen2, z3.And(ok, state_ok(ip, c, EV(H)))): cx.check(f, "is preserved: " + nm, keep=False)
        same_heap(ip, before, alloc, [d.t], "nothing else is changed during the search")
        raise PathEnd()
    # the search has ended: if it was not interrupted, H was yielded unless it was excluded at some time (C07, C08)
    i = cx.fresh("interrupt"); cx.wr("f:_interrupt", z3.Int("self"), i, op="hv")
    cx.ghost["interrupt"] = i
    cx.assume(z3.Implies(z3.And(i == 0, ok), seen))
    ip.block(s.orelse, env)
def args_of_run(ip, spec):
    """the arguments of a run: any of them may be given"""
    cx = ip.cx
    kw = {}
    for n in ("timeout", "limit"):
        o = z3.Int(n + "_arg"); cx.assume(z3.Or(o == 0, o == SOME(UNSOME(o))))
        kw[n] = (z3.Bool(n + "_given"), Sym(TOpt(TInt), o))
    spec.given = dict(kw)
    return kw
def optimize_task(repo, one=True, given=True):
    def run(cx):
        ip = VC(repo, OptSpec(repo), cx); spec = ip.spec
        s = Sym(TRef("Solver"), z3.Int("self")); ip.wf(s); cx.assume(CLS(s.t) == ip.cid["Solver"])
        m = Sym(TRef("Model"), MODN); ip.wf(m); cx.assume(CLS(m.t) == ip.cid["Model"])
        o = Sym(TRef("MinMax"), z3.Int("objective")); ip.wf(o)
        cx.assume(BETTERDIR == (CLS(o.t) == ip.cid["Maximize"]))
        cx.ghost["n"], cx.ghost["last"] = z3.IntVal(0), cx.fresh("last")
        cx.ghost["epoch"] = cx.fresh("epoch")
        cx.hp("f:_interrupt")
        kw = args_of_run(ip, spec)
        if given:
            kw["additional_constraints"] = (z3.BoolVal(True), extra(ip, True)); spec.given["additional_constraints"] = None
        else:
            c = z3.Int("c"); cx.assume(forall([c], z3.Not(ADDC(c)), [ADDC(c)])); spec.given["additional_constraints"] = None
        f = fn(repo, SM, "Solver.optimize"); ip.verifying = f.qual
        try: ip.run_body(f, [s, m, o if one else Tup([o])], {"**": KwV(kw)}, gen=True)
        except PyRaise as e: cx.check(z3.BoolVal(False), "optimizing never fails (raised %s)" % e.exc); return
        if "interrupt" not in cx.ghost: cx.check(z3.BoolVal(False), "optimizing searches"); return
        n, last, i = cx.ghost["n"], cx.ghost["last"], fld(ip, s, "_interrupt")
        cx.check(i == cx.ghost["interrupt"], "the report of the search is kept")
        cx.check(z3.Implies(i == 0, n >= 1), "if it was not interrupted, a solution is yielded if there is one")
        cx.check(z3.Implies(i == 0, z3.Not(better(EV(H), last))), "if it was not interrupted, no solution is better than the last one yielded")
    return Task("Solver.optimize%s%s" % ("" if one else " (a sequence of one objective)", "" if given else " (no additional constraints)"), run, functions=["Solver.optimize"])

# ================================================================ part 3
def over_optimize(spec, ip, s, gen, env):
    """for step in optimize(...): the steps carry solutions; what is known of the last one is what part 2 shows"""
    cx = ip.cx; a = gen.args
    if "loop" in cx.ghost: raise AnnotationMismatch("several runs")
    cx.ghost["loop"] = True
    cx.check(z3.And(a["self"].t == z3.Int("self"), a["model"].t == MODN), "the run is about the model given")
    if not isinstance(a["objective"], Sym): raise AnnotationMismatch("objective of the run")
    cx.check(a["objective"].t == z3.Int("objective"), "the run is about the objective given")
    kw = a.get("args")
    if not isinstance(kw, KwV): raise AnnotationMismatch("arguments of the run")
    for nm, (p, v) in spec.given.items():
        q = kw.entries.get(nm)
        cx.check(z3.BoolVal(False) if q is None else z3.And(q[0] == p, ip.enc(q[1], TOpt(TInt)) == ip.enc(v, TOpt(TInt))), "the arguments are passed on: " + nm)
    if set(kw.entries) - set(spec.given): raise AnnotationMismatch("other arguments of the run")
    names = assigned_names(s.body)
    carried = [nm for nm in names if env.vars.get(nm, UNDEF) is not UNDEF]
    for nm in carried:
        if not (isinstance(env.vars[nm], PyC) and env.vars[nm].v is None): raise AnnotationMismatch("what is kept of the steps")
    if len(carried) != 1: raise AnnotationMismatch("what is kept of the steps")
    nm = carried[0]
    for x in names + assigned_names([s.target]):
        if x in env.vars and x != nm: env.vars[x] = UNDEF
    g = repo_nt(ip.repo)
    def sol(tag):
        d = ip.fresh(TDict(TStr, TInt), tag); cx.assume(SOL(cx.rd("D.val", d.t))); return d
    n = cx.choose([cx.fresh("none_so_far", B), cx.fresh("some", B)])
    last = sol("last") if n else None
    if n: env.vars[nm] = last
    if cx.choose([cx.fresh("more", B), cx.fresh("end", B)]) == 0:
        d = sol("solution")
        vals = {"is_optimal": PyC(None), "solution": d}
        before, alloc = dict(cx.heap), cx.alloc
        ip.assign(s.target, Tup([vals[k] for k in g], g, "OptSolution"), env)
        from pyvc.run import Continue, Break
        try: ip.block(s.body, env)
        except Continue: pass
        except Break: raise AnnotationMismatch("the run is left early")
        cx.reached("run %d" % n)
        v = env.vars.get(nm)
        if isinstance(v, PyC) and v.v is None: cx.check(z3.BoolVal(False), "the last solution is kept")
        elif not (isinstance(v, Sym) and isinstance(res(v.ty), (TDict, TOpt))): raise AnnotationMismatch("what is kept of the steps")
        else: cx.check(v.t == d.t, "the last solution is kept")
        same_heap(ip, before, alloc, [], "the solutions are not changed")
        raise PathEnd()
    i = cx.fresh("interrupt"); cx.wr("f:_interrupt", z3.Int("self"), i, op="hv")
    cx.ghost["end"] = (i, last, env.vars[nm])
    cx.assume(z3.Implies(z3.And(i == 0, HAS), z3.And(z3.BoolVal(last is not None), z3.Not(better(EV(H), EV(cx.rd("D.val", last.t)))) if last is not None else z3.BoolVal(False))))
    ip.block(s.orelse, env)
def repo_nt(repo):
    g = repo.lookup(SM, "OptSolution")
    if g is None: raise AnnotationMismatch("no OptSolution")
    f = g[1].args[1]
    fs = f.value.replace(",", " ").split() if isinstance(f, ast.Constant) else [x.value for x in f.elts]
    if set(fs) != {"is_optimal", "solution"}: raise AnnotationMismatch("fields of OptSolution")
    return fs
def optimal_task(repo):
    def run(cx):
        ip = VC(repo, OptSpec(repo), cx); spec = ip.spec
        s = Sym(TRef("Solver"), z3.Int("self")); ip.wf(s); cx.assume(CLS(s.t) == ip.cid["Solver"])
        m = Sym(TRef("Model"), MODN); ip.wf(m); cx.assume(CLS(m.t) == ip.cid["Model"])
        o = Sym(TRef("MinMax"), z3.Int("objective")); ip.wf(o)
        cx.assume(BETTERDIR == (CLS(o.t) == ip.cid["Maximize"]))
        cx.hp("f:_interrupt"); cx.hp("D.dom"); cx.hp("D.val")
        kw = args_of_run(ip, spec)
        f = fn(repo, SM, "Solver.optimal_solution"); ip.verifying = f.qual
        try: r = ip.run_body(f, [s, m, o], {"**": KwV(kw)})
        except PyRaise as e: cx.check(z3.BoolVal(False), "finding the optimal solution never fails (raised %s)" % e.exc); return
        if "end" not in cx.ghost: cx.check(z3.BoolVal(False), "finding the optimal solution optimizes"); return
        if not isinstance(r, Tup): raise AnnotationMismatch("what is returned")
        i, last, _ = cx.ghost["end"]
        opt, sol = ip.truth(ip.getattr_(r, "is_optimal")), ip.getattr_(r, "solution")
        none = isinstance(sol, PyC) and sol.v is None
        if not none and not (isinstance(sol, Sym) and isinstance(res(sol.ty), TDict)): raise AnnotationMismatch("the solution returned")
        cx.check(z3.Implies(opt, z3.BoolVal(not none)), "only a solution is reported optimal")
        cx.check(z3.Implies(opt, i == 0), "a solution found by an interrupted search is never reported optimal")
        cx.check(z3.Implies(z3.And(i == 0, HAS), z3.BoolVal(not none)), "if the search was not interrupted, a solution is reported if there is one")
        cx.check(z3.Implies(z3.And(i == 0, HAS), opt), "if the search was not interrupted, the solution is reported optimal")
        if none: return
        A = cx.rd("D.val", sol.t)
        cx.check(SOL(A), "what is reported is a solution")
        cx.check(z3.Implies(z3.And(opt, HAS), z3.Not(better(EV(H), EV(A)))), "no solution is better than one reported optimal")
    return Task("Solver.optimal_solution", run, functions=["Solver.optimal_solution"])
def tasks_for(repo, prop): return part1(repo) + [optimize_task(repo), optimize_task(repo, given=False), optimize_task(repo, one=False)] + ([optimal_task(repo)] if prop == "C10" else [])
def tasks(repo): return tasks_for(repo, "C10")
