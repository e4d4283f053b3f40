"""C05: contracts of model.py.

Invariant of a model (MINV), for every history of add operations:
  every key of _variables is the name of the variable stored under it, and is either a proper explicit name or an automatic
  one (_v<i>, _p<i> with i < number of names); no stored domain repeats a value; every constraint mentions only keys.
Constraints are known by the contracts verified in cons.py: CVARS(c), CTRUE(c) (under SIGMA), CDEF(c)."""
from . import expr as X, rx
from .cons import *

MM = "satisfy.model"
CVARS = z3.Function("cvars", I, AB)
CTRUE = z3.Function("ctrue", I, B)
CDEF = z3.Function("cdef", I, B)
NAMEOK = z3.Function("name_ok", I, B)
VINFO = TTup([TRef("Variable"), TOpt(TColl(TInt))], ["variable", "domain"], "VariableInfo")
SOLV = "_Model__solvable"

class ModelSpec(ConsSpec):
    card_steps = True
    FIELDS = dict(ConsSpec.FIELDS)
    FIELDS.update({("Model", "_variables"): TDict(TStr, VINFO), ("Model", "_variables_proxy"): TDict(TStr, VINFO),
                   ("Model", "_constraints"): TList(TRef("Constraint")), ("Model", SOLV): TBool})
    CVIRT = {"vars", "evaluate", "free_vars", "compile", "reset", "unsatisfied", "is_compiled"}
    def is_cons(self, cls): return self.repo.is_sub(cls, "Constraint")
    def virtual(self, ip, cls, attr, o):
        if attr in self.CVIRT and self.is_cons(cls): return BuiltinV("cvirt:" + attr)
        return super().virtual(ip, cls, attr, o)
    def builtin(self, ip, f, args, kw, node, env):
        if f.name.startswith("cvirt:"): return getattr(self, "k_" + f.name[6:])(ip, *args)
        if f.name == "re.compile":
            if len(args) != 1 or kw or not isinstance(args[0], PyC): raise Unsupported("re.compile with flags or a computed pattern")
            return BuiltinV("regex", None, args[0])
        if f.name.startswith("regex."): return self.regex(ip, f.self_.v, f.name[6:], args[0])
        return super().builtin(ip, f, args, kw, node, env)
    # ---- names
    def regex(self, ip, pat, method, s):
        """the match object is known only by whether there is one"""
        cx = ip.cx
        t = ip.enc(s, TStr)
        m = z3.Function("matches:%s:%s" % (method, pat), I, B)
        lang = rx.language(pat, method)
        x = z3.Int("x")
        ok, w = rx.subset(lang, rx.NAME)
        cx.ghost["regex_witness"] = w
        if ok: cx.assume(forall([x], z3.Implies(m(x), NAMEOK(x)), [m(x)]))
        if rx.subset(rx.NAME, lang)[0]: cx.assume(forall([x], z3.Implies(NAMEOK(x), m(x)), [m(x), NAMEOK(x)]))
        return Sym(TOpt(TFun()), z3.If(m(t), z3.IntVal(1), z3.IntVal(0)))
    def contains_str(self, ip, c, v):
        if not (isinstance(v, PyC) and isinstance(v.v, str)): return None
        p = z3.Function("has:%s" % v.v, I, B); x = z3.Int("x")
        if rx.empty(rx.NAME, z3.Concat(rx.STAR, z3.Re(v.v), rx.STAR))[0]: ip.cx.assume(forall([x], z3.Implies(NAMEOK(x), z3.Not(p(x))), [p(x)]))
        return p(c.t)
    # ---- constraints
    def k_vars(self, ip, o):
        ip.cx.task.contracts_used.add("Constraint.vars")
        r = ip.cx.new_ref()
        ip.cx.wr("S.dom", r, CVARS(o.t), op="init")
        return Sym(TSet(TStr, True), r)
    def k_evaluate(self, ip, o, d):
        cx = ip.cx
        cx.task.contracts_used.add("Constraint.evaluate")
        x = cx.fresh("ax")
        has, val = self.lookup(ip, d, x)
        cx.check(z3.Implies(CVARS(o.t)[x], z3.And(has, val == SIGMA[x])), "precondition of evaluate: the variables of the constraint are bound")
        cx.check(CDEF(o.t), "precondition of evaluate: the arithmetic of the constraint is defined")
        return Sym(TBool, CTRUE(o.t))
    def ctor(self, cname):
        if self.is_cons(cname): return self.make_cons
        return super().ctor(cname)
    def make_cons(self, ip, info, a, args, kw):
        """a new constraint, by the contract of its constructor (cons.py)"""
        cx = ip.cx
        k = kind(self.repo, info.name)
        cx.task.contracts_used.add(info.name + ".__init__")
        if info.name != k: raise Unsupported("constructor of %s" % info.name)
        a = {n: v for n, v in a.items() if n != "self"}
        r = cx.new_ref(); o = Sym(TRef(info.name), r)
        x, y = z3.Ints("x y")
        if k == "ExpressionConstraint":
            e = ip.force(a["expression"])
            if not (isinstance(e, Sym) and isinstance(res(e.ty), TRef) and self.is_expr(res(e.ty).cls)): raise PyRaise("TypeError")
            cx.assume(CLS(r) == ip.cid[info.name])
            cx.assume(z3.And(CVARS(r) == INVS(e.t), CTRUE(r) == (DEN(e.t) != 0), CDEF(r) == DEF(e.t)))
        elif k == "ConstConstraint":
            v = ip.truth(a["value"])
            cx.assume(CLS(r) == ip.cid[info.name])
            cx.assume(z3.And(CVARS(r) == z3.K(I, z3.BoolVal(False)), CTRUE(r) == v, CDEF(r)))
        else:
            n, arr, ty = ip.arr_of(ip.as_seq(a["var_names"]))
            cx.assume(CLS(r) == ip.cid[info.name])
            cx.assume(z3.And(CDEF(r), forall([x], CVARS(r)[x] == ELS(arr, n)[x], [CVARS(r)[x], ELS(arr, n)[x]]),
                             CTRUE(r) == forall([x, y], z3.Implies(z3.And(CVARS(r)[x], CVARS(r)[y], x != y), SIGMA[x] != SIGMA[y]), [(CVARS(r)[x], CVARS(r)[y])])))
        return o

def fmtf(t):
    from pyvc.interp import fmt_fun
    return fmt_fun(t, 1)
def auto(x, n, dom=None):
    fs = []
    for t in ("_v{}", "_p{}"):
        f, ax, k = fmtf(t)
        i = z3.Int("i")
        fs.append((f, ax))
    return fs
def vars_of(ip, m, heap=None):
    cx = ip.cx
    return cx.rd("f:_variables", m.t)
VINV = {k: z3.Function("auto_inv%d" % k, I, I) for k in (0, 1)}
def autoname(x, n):
    """x is _v<i> or _p<i> with 0 <= i < n"""
    (f, _), (g, _) = auto(None, None)
    i, j = VINV[0](x), VINV[1](x)
    return z3.Or(z3.And(x == f(i), 0 <= i, i < n), z3.And(x == g(j), 0 <= j, j < n))
def auto_facts(cx):
    for (f, ax), k in zip(auto(None, None), (0, 1)):
        i = z3.Int("i")
        cx.assume(ax)
        cx.assume(forall([i], VINV[k](f(i)) == i, [f(i)]))
        cx.ghost[("fmt", fmtf(("_v{}", "_p{}")[k])[2])] = True
        ok, w = rx.empty(rx.NAME, tmpl("_v{}" if k == 0 else "_p{}"))
        if not ok: raise AnnotationMismatch("automatic names can be explicit names")
        cx.assume(forall([i], z3.Not(NAMEOK(f(i))), [f(i)]))
def tmpl(t):
    from pyvc.interp import tmpl_re
    return tmpl_re(t)
def minv(ip, m):
    """[(name, formula)] of the model invariant at the current heap"""
    cx = ip.cx
    x, k, i, j = z3.Ints("x k i j")
    vs = cx.rd("f:_variables", m.t); cs = cx.rd("f:_constraints", m.t)
    dom, val = cx.rd("D.dom", vs), cx.rd("D.val", vs)
    n, el = cx.rd("L.len", cs), cx.rd("L.el", cs)
    d = TUPF(1)(val[x]); a = COLLE(d)
    return [("the proxy shows the variables", cx.rd("f:_variables_proxy", m.t) == vs),
            ("each variable is stored under its name", forall([x], z3.Implies(dom[x], NAME[TUPF(0)(val[x])] == x), [val[x]])),
            ("names are letters, digits, underscores or automatic", forall([x], z3.Implies(dom[x], z3.Or(NAMEOK(x), autoname(x, CARD(dom)))), [dom[x]])),
            ("no domain repeats a value", forall([x, i, j], z3.Implies(z3.And(dom[x], d != 0, 0 <= i, i < j, j < COLLN(d)), a[i] != a[j]), [(a[i], a[j])])),
            ("constraints mention defined names only", z3.And(n >= 0, forall([k, x], z3.Implies(z3.And(0 <= k, k < n, CVARS(el[k])[x]), dom[x]), [CVARS(el[k])[x]])))]

def setup_model(repo, cx, assume=True):
    ip = VC(repo, ModelSpec(repo), cx)
    m = Sym(TRef("Model"), z3.Int("self"))
    ip.wf(m); cx.assume(CLS(m.t) == ip.cid["Model"])
    auto_facts(cx)
    if not assume: return ip, m
    for fl in ("_variables", "_constraints", "_variables_proxy"):
        r = cx.rd("f:" + fl, m.t); cx.assume(z3.And(r >= 1, r < z3.Int("alloc0")))
    for h in ("D.dom", "D.val", "L.len", "L.el", "f:" + SOLV): cx.hp(h)
    for nm, f in minv(ip, m): cx.assume(f)
    x, k = z3.Ints("x k")
    vs = cx.rd("f:_variables", m.t); cs = cx.rd("f:_constraints", m.t)
    cx.assume(forall([x], z3.Implies(cx.rd("D.dom", vs)[x], z3.And(TUPF(0)(cx.rd("D.val", vs)[x]) >= 1, TUPF(0)(cx.rd("D.val", vs)[x]) < z3.Int("alloc0"))), [cx.rd("D.val", vs)[x]]))
    cx.assume(forall([k], z3.Implies(z3.And(0 <= k, k < cx.rd("L.len", cs)), z3.And(cx.rd("L.el", cs)[k] >= 1, cx.rd("L.el", cs)[k] < z3.Int("alloc0"))), [cx.rd("L.el", cs)[k]]))
    return ip, m
class St:
    def __init__(self, ip, m):
        cx = ip.cx
        self.vs, self.cs = cx.rd("f:_variables", m.t), cx.rd("f:_constraints", m.t)
        self.dom, self.val = cx.rd("D.dom", self.vs), cx.rd("D.val", self.vs)
        self.n, self.el = cx.rd("L.len", self.cs), cx.rd("L.el", self.cs)
        self.solv = cx.rd("f:" + SOLV, m.t)
def same_constraints(ip, a, b):
    k = ip.cx.fresh("ck")
    ip.cx.check(z3.And(a.n == b.n, z3.Implies(z3.And(0 <= k, k < a.n), a.el[k] == b.el[k])), "the constraints are unchanged")
def same_vars(ip, a, b):
    x = ip.cx.fresh("vx")
    ip.cx.check(z3.And(a.dom[x] == b.dom[x], z3.Implies(a.dom[x], z3.And(TUPF(0)(a.val[x]) == TUPF(0)(b.val[x]), TUPF(1)(a.val[x]) == TUPF(1)(b.val[x])))), "the variables are unchanged")
def check_inv(ip, m):
    for nm, f in minv(ip, m): ip.cx.check(f, "model invariant: " + nm)
def name_arg(ip):
    t = z3.Int("name")
    return Sym(TOpt(TStr), t)

def add_task(repo, meth):
    def run(cx):
        ip, m = setup_model(repo, cx)
        f = fn(repo, MM, "Model." + meth); ip.verifying = f.qual
        nm = name_arg(ip)
        cx.assume(z3.Or(nm.t == 0, nm.t == SOME(UNSOME(nm.t))))
        given = UNSOME(nm.t)
        old = St(ip, m)
        if meth == "add_int_variable":
            d = Sym(TColl(TInt), z3.Int("domain")); cx.assume(d.t >= 1); cx.ghost["domain"] = d.t
            args, kw = [d], {"name": nm}
        elif meth == "add_bool_variable": args, kw = [], {"name": nm}
        else: args, kw = [Sym(TInt, z3.Int("value"))], {"name": nm}
        try: r = ip.run_body(f, [m] + args, kw)
        except PyRaise as e:
            new = St(ip, m); same_vars(ip, old, new); same_constraints(ip, old, new); check_inv(ip, m)
            return
        new = St(ip, m)
        r = ip.force(r)
        if not (isinstance(r, Sym) and isinstance(res(r.ty), TRef)): cx.check(z3.BoolVal(False), "the variable is returned"); return
        x = NAME[r.t]; y = cx.fresh("ox")
        want = "Parameter" if meth == "add_parameter" else "Variable"
        cx.check(CLS(r.t) == ip.cid[want], "a %s is added" % want.lower())
        cx.check(z3.Not(old.dom[x]), "the name was not in use")
        cx.check(z3.Implies(nm.t != 0, x == given), "the variable has the given name")
        cx.check(z3.And(new.dom[x], TUPF(0)(new.val[x]) == r.t), "the variable is stored under its name")
        cx.check(z3.Implies(y != x, z3.And(new.dom[y] == old.dom[y], z3.Implies(old.dom[y], new.val[y] == old.val[y]))), "the other variables are unchanged")
        dm = TUPF(1)(new.val[x])
        if meth == "add_int_variable":
            # the stored domain has the values given
            same = dm == z3.Int("domain")
            cx.check(same, "its domain is the given one")
        elif meth == "add_parameter":
            cx.check(z3.And(dm == 0, VALUE[r.t] == z3.Int("value")), "a parameter has no domain, and its value")
        else:
            i = cx.fresh("bi")
            cx.check(z3.And(dm != 0, COLLN(dm) == 2, z3.Or(z3.And(COLLE(dm)[0] == 0, COLLE(dm)[1] == 1), z3.And(COLLE(dm)[0] == 1, COLLE(dm)[1] == 0))), "the domain of a bool variable is 0, 1")
        same_constraints(ip, old, new)
        cx.check((new.solv != 0) == (old.solv != 0), "solvable is unchanged")
        check_inv(ip, m)
    return Task("Model." + meth, run, axioms=axioms(), functions=["Model." + meth, "Model._check_name", "Model._get_variable" if meth != "add_parameter" else "Model._get_parameter"])

def add_constraint_task(repo, what):
    def run(cx):
        ip, m = setup_model(repo, cx)
        f = fn(repo, MM, "Model.add_constraint"); ip.verifying = f.qual
        x = z3.Int("x")
        if what == "bool":
            v = Sym(TBool, z3.Bool("c")); V, T, D = z3.K(I, z3.BoolVal(False)), v.t, z3.BoolVal(True)
        elif what == "expression":
            v = X.expr(ip, "c"); V, T, D = INVS(v.t), DEN(v.t) != 0, DEF(v.t)
        elif what == "constraint":
            v = Sym(TRef("Constraint"), z3.Int("c")); ip.wf(v); V, T, D = CVARS(v.t), CTRUE(v.t), CDEF(v.t)
        else:
            v = Sym(TInt, z3.Int("c"))
        old = St(ip, m)
        if what != "other":
            # judged when added: its arithmetic is defined if it has no variables
            w = cx.fresh("ew"); none = cx.fresh("novars", B)
            cx.assume(z3.Implies(none, forall([x], z3.Not(V[x]), [V[x]]))); cx.assume(z3.Implies(z3.Not(none), V[w])); cx.assume(D)
            u = cx.fresh("uw"); alld = cx.fresh("alldef", B)
            cx.assume(z3.Implies(alld, forall([x], z3.Implies(V[x], old.dom[x]), [V[x]]))); cx.assume(z3.Implies(z3.Not(alld), z3.And(V[u], z3.Not(old.dom[u]))))
        try: r = ip.run_body(f, [m, v], {})
        except PyRaise as e:
            new = St(ip, m); same_vars(ip, old, new); same_constraints(ip, old, new); check_inv(ip, m)
            if what != "other": cx.check(z3.Not(alld), "a constraint about defined variables is accepted (raised %s)" % e.exc)
            return
        if what == "other": cx.check(z3.BoolVal(False), "what is no constraint is rejected"); return
        new = St(ip, m)
        same_vars(ip, old, new)
        cx.check(alld, "a constraint about undefined variables is rejected")
        cx.check(z3.Implies(z3.And(none, T), z3.And(new.n == old.n, (new.solv != 0) == (old.solv != 0))), "a true constraint without variables is dropped")
        cx.check(z3.Implies(z3.And(none, z3.Not(T)), new.solv == 0), "a false constraint without variables makes the model unsolvable")
        cx.check(z3.Implies(z3.Not(none), (new.solv != 0) == (old.solv != 0)), "other constraints leave solvable alone")
        k = cx.fresh("ck"); q = cx.fresh("cx")
        cx.check(z3.And(z3.Or(new.n == old.n, new.n == old.n + 1), z3.Implies(z3.And(0 <= k, k < old.n), new.el[k] == old.el[k])), "the constraints so far are kept")
        c = new.el[old.n]
        cx.check(z3.Implies(z3.Not(none), z3.And(new.n == old.n + 1, CVARS(c)[q] == V[q])), "the constraint is added: same variables")
        cx.check(z3.Implies(z3.Not(none), CTRUE(c) == T), "the constraint is added: same meaning")
        if what == "constraint": cx.check(z3.Implies(z3.Not(none), c == v.t), "the constraint itself is added")
        check_inv(ip, m)
    return Task("Model.add_constraint (%s)" % what, run, axioms=axioms(), functions=["Model.add_constraint"])

def add_ad_task(repo):
    def run(cx):
        ip, m = setup_model(repo, cx)
        f = fn(repo, MM, "Model.add_all_different_constraint"); ip.verifying = f.qual
        l = Sym(TList(TRef("Variable")), z3.Int("variables"))
        cx.assume(z3.And(l.t >= 1, l.t < z3.Int("alloc0"), cx.rd("L.len", l.t) >= 1))
        old = St(ip, m)
        cx.assume(l.t != old.cs)
        n, a = cx.rd("L.len", l.t), cx.rd("L.el", l.t)
        k, x = z3.Ints("k x")
        try: ip.run_body(f, [m, l], {})
        except PyRaise as e:
            new = St(ip, m); same_vars(ip, old, new); same_constraints(ip, old, new); check_inv(ip, m)
            w = cx.fresh("w")
            cx.assume(forall([k], z3.Implies(z3.And(0 <= k, k < n), old.dom[NAME[a[k]]]), [a[k]]))
            cx.check(z3.BoolVal(False), "an all-different constraint about defined variables is accepted (raised %s)" % e.exc)
            return
        new = St(ip, m)
        same_vars(ip, old, new)
        i, j = cx.fresh("ai"), cx.fresh("aj"); q = cx.fresh("cx")
        c = new.el[old.n]
        rng = lambda i: z3.And(0 <= i, i < n)
        cx.check(new.n == old.n + 1, "one constraint is added")
        cx.check(z3.Implies(rng(i), CVARS(c)[NAME[a[i]]]), "it is about all the variables")
        cx.check(z3.Implies(CVARS(c)[q], z3.Exists([k], z3.And(rng(k), NAME[a[k]] == q))), "and no others")
        cx.check(z3.Implies(z3.And(CTRUE(c), rng(i), rng(j), NAME[a[i]] != NAME[a[j]]), SIGMA[NAME[a[i]]] != SIGMA[NAME[a[j]]]), "it forces different values")
        w1, w2 = cx.fresh("w1"), cx.fresh("w2")
        cx.check(CLS(c) == ip.cid["AllDifferentConstraint"], "it is an all-different constraint")
        cx.check((new.solv != 0) == (old.solv != 0), "solvable is unchanged")
        check_inv(ip, m)
    return Task("Model.add_all_different_constraint", run, axioms=axioms(), functions=["Model.add_all_different_constraint"])

def init_model_task(repo):
    def run(cx):
        ip, m = setup_model(repo, cx, assume=False)
        f = fn(repo, MM, "Model.__init__"); ip.verifying = f.qual
        ip.run_body(f, [m], {})
        s = St(ip, m)
        x = cx.fresh("nx")
        cx.check(z3.And(z3.Not(s.dom[x]), s.n == 0, s.solv != 0), "a new model is empty and solvable")
        check_inv(ip, m)
    return Task("Model.__init__", run, axioms=axioms(), functions=["Model.__init__"])

def query_model_task(repo, meth):
    def run(cx):
        ip, m = setup_model(repo, cx)
        f = fn(repo, MM, "Model." + meth); ip.verifying = f.qual
        old = St(ip, m)
        args = {"set_solvable": lambda: [Sym(TBool, z3.Bool("v"))], "get_variable": lambda: [Sym(TStr, z3.Int("nm"))], "get_var_domain": lambda: [Sym(TStr, z3.Int("nm"))]}.get(meth, lambda: [])()
        if meth in ("get_variable", "get_var_domain"): cx.assume(old.dom[z3.Int("nm")])
        try: r = ip.as_seq(GenV(f, [m] + args, {})) if ip.has_yield(f) else ip.run_body(f, [m] + args, {})
        except PyRaise as e: cx.check(z3.BoolVal(False), "%s never fails (raised %s)" % (meth, e.exc)); return
        new = St(ip, m)
        same_vars(ip, old, new); same_constraints(ip, old, new)
        if meth == "set_solvable": cx.check((new.solv != 0) == z3.Bool("v"), "solvable is what was set")
        else: cx.check((new.solv != 0) == (old.solv != 0), "solvable is unchanged")
        if meth == "solvable": cx.check(ip.truth(r) == (old.solv != 0), "solvable reports the mark")
        if meth == "get_variable": cx.check(r.t == TUPF(0)(old.val[z3.Int("nm")]), "the variable of that name")
        if meth == "get_var_domain": cx.check(ip.enc(r, TOpt(TColl(TInt))) == TUPF(1)(old.val[z3.Int("nm")]), "the domain of that variable")
        if meth == "variables": cx.check(r.t == old.vs, "all variables are shown")
        if meth == "constraints":
            n, a, ty = ip.arr_of(ip.as_seq(r)); k = cx.fresh("k")
            cx.check(z3.And(n == old.n, z3.Implies(z3.And(0 <= k, k < n), a[k] == old.el[k])), "all constraints are listed")
        check_inv(ip, m)
    return Task("Model." + meth, run, axioms=axioms(), functions=["Model." + meth])

def values_inv(ip, L):
    """values = the first i values of the domain, pairwise different"""
    s = L.pick(TSet, "values")
    a, i = L.seq.src[1], L.idx
    x = z3.Int("x")
    d = ip.cx.rd("S.dom", s.t)
    return [("values seen so far", forall([x], d[x] == ELS(a, i)[x], [d[x], ELS(a, i)[x]])), ("no repetition so far", distinct_arr(a, i))]
def values_step(ip, L):
    a, i = L.seq.src[1], L.idx; x = z3.Int("x")
    ip.cx.assume(forall([x], ELS(a, i + 1)[x] == z3.Or(ELS(a, i)[x], x == a[i]), [ELS(a, i + 1)[x]]))
ModelSpec.LOOPS = {(MM + ":Model.add_int_variable", 0): LoopSpec(values_inv, mods=lambda ip, L: {"S.dom": lambda r, t=L.pick(TSet, "values").t: r == t}, step=values_step)}

def tasks(repo):
    need_fields(repo, "Model", ["_variables", "_variables_proxy", "_constraints", SOLV])
    return [init_model_task(repo)] + [add_task(repo, m) for m in ("add_int_variable", "add_bool_variable", "add_parameter")] + \
           [add_constraint_task(repo, w) for w in ("bool", "expression", "constraint", "other")] + [add_ad_task(repo)] + \
           [query_model_task(repo, m) for m in ("solvable", "set_solvable", "variables", "constraints", "get_variable", "get_var_domain")]
