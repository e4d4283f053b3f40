"""C04: contracts of constraint.py, over one arbitrary valuation SIGMA of names.

  CV(c)     the variables of the constraint (its _var_names)
  TRUTH(c)  what the constraint says about SIGMA, class by class:
              ConstConstraint: its value;  ExpressionConstraint (and subclasses): DEN(expression) != 0;
              AllDifferentConstraint: SIGMA is injective on CV(c)
A compiled function is known by FEX(f): the expression it was compiled from (the contract of Expression.as_function, C02)."""
from . import expr as X
from .expr import *

CM = "satisfy.constraint"
FEX = z3.Function("compiled_from", I, I)

def c_as_function(ip, a):
    f = ip.cx.fresh("fun")
    ip.cx.assume(z3.And(f >= 1, FEX(f) == a["self"].t))
    return Sym(TFun(), f)

class ConsSpec(ExprSpec):
    FIELDS = dict(ExprSpec.FIELDS)
    FIELDS.update({("Constraint", "_var_names"): TSet(TStr, True), ("ConstConstraint", "_value"): TBool,
                   ("ExpressionConstraint", "_expression"): TRef("Expression"), ("ExpressionConstraint", "_evaluate_function"): TOpt(TFun())})
    CONTRACTS = {X.XM + ":Expression.as_function": Contract(X.XM + ":Expression.as_function", effect=c_as_function)}
    LOOPS = {}
    def call_sym(self, ip, f, args, kw, node):
        if isinstance(res(f.ty), TFun):
            if args or set(kw) != {"**"}: raise Unsupported("call of a compiled function")
            cx = ip.cx
            e = FEX(f.t)
            self.check_agree(ip, e, kw["**"])
            cx.check(DEF(e), "precondition of a compiled function: the arithmetic is defined")
            cx.task.contracts_used.add("Expression.as_function")
            return Sym(TInt, DEN(e))
        return super().call_sym(ip, f, args, kw, node)

def cdom(ip, o, heap=None):
    h = heap or ip.cx.heap
    return z3.Select(h.get("S.dom", ip.cx.hp("S.dom")), z3.Select(h.get("f:_var_names", ip.cx.hp("f:_var_names")), o.t))
def kind(repo, c):
    for k in ("ConstConstraint", "ExpressionConstraint", "AllDifferentConstraint"):
        if repo.is_sub(c, k): return k
    raise AnnotationMismatch("constraint class %s has no specification" % c)
def ex_of(ip, o): return ip.cx.rd("f:_expression", o.t)
def fn_ok(ip, o):
    f = ip.cx.rd("f:_evaluate_function", o.t)
    return z3.Or(f == 0, z3.And(f >= 1, FEX(f) == ex_of(ip, o)))
def inv(ip, o, k):
    """class invariant"""
    cx = ip.cx
    x = z3.Int("x")
    dom = cdom(ip, o)
    if k == "ConstConstraint":
        v = cx.rd("f:_value", o.t)
        return [forall([x], z3.Not(dom[x]), [dom[x]]), CARD(dom) == 0, z3.Or(v == 0, v == 1)]
    if k == "ExpressionConstraint":
        e = ex_of(ip, o)
        return [forall([x], dom[x] == INVS(e)[x], [dom[x], INVS(e)[x]]), fn_ok(ip, o)]
    return []
def truth_of(ip, o, k):
    cx = ip.cx
    if k == "ConstConstraint": return cx.rd("f:_value", o.t) != 0
    if k == "ExpressionConstraint": return DEN(ex_of(ip, o)) != 0
    x, y = z3.Ints("x y")
    dom = cdom(ip, o)
    return forall([x, y], z3.Implies(z3.And(dom[x], dom[y], x != y), SIGMA[x] != SIGMA[y]), [(dom[x], dom[y])])
def fields_of(k): return {"ConstConstraint": ["_value"], "ExpressionConstraint": ["_expression"], "AllDifferentConstraint": []}[k] + ["_var_names"]

def setup(repo, cls, cx, assume_inv=True):
    ip = VC(repo, ConsSpec(repo), cx)
    o = Sym(TRef(cls), z3.Int("self"))
    ip.wf(o)
    cx.assume(CLS(o.t) == ip.cid[cls])
    k = kind(repo, cls)
    vn = cx.rd("f:_var_names", o.t)
    cx.assume(z3.And(vn >= 1, vn < z3.Int("alloc0")))
    if k == "ExpressionConstraint":
        e = ex_of(ip, o); v = Sym(TRef("Expression"), e); ip.wf(v)
    if assume_inv:
        for f in inv(ip, o, k): cx.assume(f)
    return ip, o, k
def keeps(ip, o, k, old, d=None):
    """the constraint still says the same"""
    cx = ip.cx
    for fl in fields_of(k): cx.check(cx.rd("f:" + fl, o.t) == z3.Select(old["f:" + fl], o.t), "%s is unchanged" % fl)
    x = cx.fresh("kx")
    cx.check(cdom(ip, o)[x] == cdom(ip, o, old)[x], "its variables are unchanged")
    if k == "ExpressionConstraint": cx.check(fn_ok(ip, o), "a compiled function stays the one of the expression")
    if d is not None:
        cx.check(z3.And(cx.rd("D.dom", d.t) == z3.Select(old["D.dom"], d.t), cx.rd("D.val", d.t) == z3.Select(old["D.val"], d.t)), "the assignment is not changed")
def snap(ip, k):
    for m in ["S.dom", "D.dom", "D.val"] + ["f:" + f for f in fields_of(k)]: ip.cx.hp(m)
    return dict(ip.cx.heap)

def judge_task(repo, cls, meth):
    def run(cx):
        ip, o, k = setup(repo, cls, cx)
        f = fn(repo, CM, "%s.%s" % (cls, meth)); ip.verifying = f.qual
        d = dict_arg(ip, "substitution")
        dom, val, cv = cx.rd("D.dom", d.t), cx.rd("D.val", d.t), cdom(ip, o)
        x = z3.Int("x")
        cx.assume(forall([x], z3.Implies(z3.And(cv[x], dom[x]), val[x] == SIGMA[x]), [dom[x]] + [cv[x]]))
        allb = forall([x], z3.Implies(cv[x], dom[x]), [cv[x]])
        bound = cx.fresh("bound", B); w = cx.fresh("bw")
        cx.assume(z3.Implies(bound, allb)); cx.assume(z3.Implies(z3.Not(bound), z3.And(cv[w], z3.Not(dom[w]))))
        if k == "ExpressionConstraint": cx.assume(z3.Implies(bound, DEF(ex_of(ip, o))))
        if meth == "evaluate": cx.assume(bound)
        old = snap(ip, k)
        t = truth_of(ip, o, k)
        try: r = ip.run_body(f, [o, d], {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "%s never fails where the arithmetic is defined (raised %s)" % (meth, e.exc)); return
        r = ip.truth(r)
        if meth == "evaluate":
            cx.check(z3.Implies(r, t), "evaluate: true only if the constraint is true")
            cx.check(z3.Implies(t, r), "evaluate: true if the constraint is true")
        else:
            cx.check(z3.Implies(r, bound), "unsatisfied: a partial assignment is never rejected")
            cx.check(z3.Implies(z3.And(r, t), z3.BoolVal(False)), "unsatisfied: a true constraint is never rejected")
            cx.check(z3.Implies(z3.And(bound, z3.Not(r)), t), "unsatisfied: a false constraint is rejected")
        keeps(ip, o, k, old, d)
    return Task("%s.%s" % (cls, meth), run, axioms=axioms(), functions=["%s.%s" % (cls, meth)])

def query_task(repo, cls, meth):
    def run(cx):
        ip, o, k = setup(repo, cls, cx)
        f = fn(repo, CM, "%s.%s" % (cls, meth)); ip.verifying = f.qual
        d = dict_arg(ip, "substitution")
        old = snap(ip, k)
        cv, dom = cdom(ip, o), cx.rd("D.dom", d.t)
        try: r = ip.run_body(f, [o] + ([d] if meth == "free_vars" else []), {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "%s never fails (raised %s)" % (meth, e.exc)); return
        x = cx.fresh("qx")
        if meth in ("vars", "free_vars"):
            got, _ = ip.setlike(r)
            want = cv[x] if meth == "vars" else z3.And(cv[x], z3.Not(dom[x]))
            cx.check(got[x] == want, "%s reports exactly the variables" % meth)
        if meth == "evaluate_function" and isinstance(r, Sym):
            cx.check(FEX(r.t) == ex_of(ip, o), "the function is the one of the expression")
        keeps(ip, o, k, old, d)
    return Task("%s.%s" % (cls, meth), run, axioms=axioms(), functions=["%s.%s" % (cls, meth)])

def init_task(repo, cls, args, tag, post, raises=False):
    def run(cx):
        ip, o, k = setup(repo, cls, cx, assume_inv=False)
        f = fn(repo, CM, cls + ".__init__"); ip.verifying = f.qual
        a = args(ip)
        cx.hp("S.dom")
        try: ip.run_body(f, [o] + a, {})
        except PyRaise as e:
            cx.check(z3.BoolVal(raises), "the constructor never fails (raised %s)" % e.exc); return
        cx.check(z3.BoolVal(not raises), "the constructor rejects what is no expression")
        if raises: return
        x = cx.fresh("nx")
        cx.check(cdom(ip, o)[x] == post(ip, o, a, x), "the variables of the new constraint")
        for g in inv(ip, o, k)[1 if k == "ExpressionConstraint" else 0:]: cx.check(g, "class invariant")
        if k == "ExpressionConstraint": cx.check(ex_of(ip, o) == a[0].t, "the constraint is about the given expression")
        if k == "ConstConstraint": cx.check((cx.rd("f:_value", o.t) != 0) == ip.truth(a[0]), "the constraint has the given value")
    return Task("%s.__init__%s" % (cls, tag), run, axioms=axioms(), functions=["%s.__init__" % cls, "Constraint.__init__"])

def names_arg(ip):
    cx = ip.cx
    l = Sym(TList(TStr), z3.Int("var_names"))
    cx.assume(z3.And(l.t >= 1, l.t < z3.Int("alloc0"), cx.rd("L.len", l.t) >= 0))
    return [l]
def els(ip, a, x): return ELS(ip.cx.rd("L.el", a[0].t), ip.cx.rd("L.len", a[0].t))[x]

def tasks(repo):
    need_fields(repo, "Constraint", ["_var_names"]); need_fields(repo, "ConstConstraint", ["_value"]); need_fields(repo, "ExpressionConstraint", ["_expression", "_evaluate_function"])
    cs = [c for c in repo.subclasses("Constraint") if not repo.is_abstract(c)]
    out = []
    for c in cs:
        k = kind(repo, c)
        out += [judge_task(repo, c, "unsatisfied"), judge_task(repo, c, "evaluate")]
        ms = ["vars", "free_vars", "compile", "reset", "is_compiled"] + (["evaluate_function"] if k == "ExpressionConstraint" and repo.find(c, "evaluate_function")[0] else [])
        out += [query_task(repo, c, m) for m in ms]
    out += [init_task(repo, "AllDifferentConstraint", names_arg, "", lambda ip, o, a, x: els(ip, a, x)),
            init_task(repo, "ConstConstraint", lambda ip: [Sym(TBool, z3.Bool("value"))], "", lambda ip, o, a, x: z3.BoolVal(False)),
            init_task(repo, "ExpressionConstraint", lambda ip: [X.expr(ip, "expression")], "", lambda ip, o, a, x: INVS(a[0].t)[x]),
            init_task(repo, "ExpressionConstraint", lambda ip: [Sym(TInt, z3.Int("expression"))], " (no expression)", lambda ip, o, a, x: z3.BoolVal(False), raises=True)]
    return out
