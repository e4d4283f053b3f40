"""Contracts of expression.py.

Semantics, over one arbitrary valuation SIGMA of names (every theorem is for all SIGMA) and the current parameter values:
  DEN(e)   value of e            DEF(e)   the arithmetic in e is defined (divisors non-zero, exponents >= 0)
  INVS(e)  the variables e reports
The tables below are the specification (what each node kind means); the methods in /repo are verified against them, class
by class: a call on a sub-expression is known only by its contract (structural induction)."""
from .base import *

XM = "satisfy.expression"
DEN = z3.Function("den", I, I)
DEF = z3.Function("def", I, B)
INVS = z3.Function("invars", I, AB)
DENA = z3.Function("den_arr", AI, AI)                 # pointwise DEN
INUS = z3.Function("inv_union", AI, I, AB)            # union of INVS over the first n entries
INW = z3.Function("inv_union_w", AI, I, I, I)
DEFS = z3.Function("all_def", AI, I, B)               # the first n entries are defined
DEFW = z3.Function("undef_w", AI, I, I)
X0 = z3.Int("x0")                                     # one arbitrary variable name (lean tasks)
VPOS = z3.Function("var_pos", I, I, I)
SIGMA = z3.Const("sigma", AI)
F = lambda a: z3.Const("H0:f:" + a, z3.ArraySort(I, I))
EXPRS, VARS, CONST, VALUE, NAME = F("_expressions"), F("_vars"), F("_const"), F("_value"), F("_name")

def ite(c, a, b): return z3.If(c, a, b)
def b2i(f): return z3.If(f, z3.IntVal(1), z3.IntVal(0))
UNOPS = {"Neg": lambda a: -a, "Abs": lambda a: ite(a >= 0, a, -a), "Not": lambda a: b2i(a == 0)}
BINOPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "Div": lambda a, b: FDIV(a, b),
          "Mod": lambda a, b: MOD(a, b), "Pow": lambda a, b: POW(a, b), "Eq": lambda a, b: b2i(a == b), "Ne": lambda a, b: b2i(a != b),
          "Lt": lambda a, b: b2i(a < b), "Le": lambda a, b: b2i(a <= b), "Gt": lambda a, b: b2i(a > b), "Ge": lambda a, b: b2i(a >= b),
          "And": lambda a, b: ite(a == 0, a, b), "Or": lambda a, b: ite(a != 0, a, b)}
BINDEF = {"Div": lambda a, b: b != 0, "Mod": lambda a, b: b != 0, "Pow": lambda a, b: b >= 0}
FOLDS = {"Sum": (ISUM, lambda a, b: a + b, 0), "Prod": (IPROD, lambda a, b: a * b, 1)}
LEAVES = ["Const", "Variable", "Parameter"]

def axioms():
    a, b = z3.Consts("a b", AI); n, m, x, k = z3.Ints("n m x k")
    ax = fold_axioms()
    ax += [
        forall([a, k], DENA(a)[k] == DEN(a[k]), [DENA(a)[k]]),
        forall([a, n, x], z3.Implies(INUS(a, n)[x], z3.And(0 <= INW(a, n, x), INW(a, n, x) < n, INVS(a[INW(a, n, x)])[x])), [INUS(a, n)[x]]),
        forall([a, n, x, k], z3.Implies(z3.And(0 <= k, k < n, INVS(a[k])[x]), INUS(a, n)[x]), [(INUS(a, n), INVS(a[k])[x])]),
        forall([a, n, k], z3.Implies(z3.And(DEFS(a, n), 0 <= k, k < n), DEF(a[k])), [(DEFS(a, n), a[k])]),
        forall([a, n], z3.Implies(z3.Not(DEFS(a, n)), z3.And(0 <= DEFW(a, n), DEFW(a, n) < n, z3.Not(DEF(a[DEFW(a, n)])))), [DEFS(a, n)]),
    ] + arith()
    return ax
def arith():
    x = z3.Int("x"); a = z3.Const("a", AI)
    ax = [
        # arithmetic laws (of Python's // and **) the simplifications rely on
        forall([x], FDIV(x, 1) == x, [FDIV(x, 1)]),
        forall([x], z3.Implies(x != 0, FDIV(0, x) == 0), [FDIV(0, x)]),
        forall([x], POW(x, 0) == 1, [POW(x, 0)]),
        forall([x], POW(x, 1) == x, [POW(x, 1)]),
        forall([x], z3.Implies(x >= 0, POW(1, x) == 1), [POW(1, x)]),
    ]
    for Fo, op, u in FOLDS.values():
        ax += [forall([a], Fo(a, 1) == a[0], [Fo(a, 1)]), forall([a], Fo(a, 2) == op(a[0], a[1]), [Fo(a, 2)])]
    return ax
def lean_axioms():
    """folds by their defining equations at the few places a proof about accumulations needs them; one variable name X0"""
    a = z3.Const("a", AI); k = z3.Int("k")
    ax = arith() + [forall([a, k], DENA(a)[k] == DEN(a[k]), [DENA(a)[k]])]
    for Fo, op, u in FOLDS.values(): ax.append(forall([a], Fo(a, 0) == u, [Fo(a, 0)]))
    for n in (0, 1, 2):
        ax.append(forall([a], DEFS(a, n) == z3.And(*[DEF(a[k]) for k in range(n)]), [DEFS(a, n)]))
        ax.append(forall([a], INUS(a, n)[X0] == z3.Or(*[INVS(a[k])[X0] for k in range(n)]), [INUS(a, n)]))
    return ax

def concrete(repo):
    cs = [c for c in repo.subclasses("Expression") if not repo.is_abstract(c)]
    spec = set(UNOPS) | set(BINOPS) | set(FOLDS) | set(LEAVES)
    if set(cs) != spec: raise AnnotationMismatch("expression classes changed: %s" % sorted(set(cs) ^ spec))
    return cs

class ExprSpec(Spec):
    ETY = TRef("Expression")
    FIELDS = {("Collection", "_expressions"): TSeq(TRef("Expression")), ("Collection", "_vars"): TSeq(TStr), ("Accumulation", "_const"): TInt,
              ("Const", "_value"): TInt, ("Parameter", "_value"): TInt, ("Variable", "_name"): TStr}
    VIRTUAL = {"evaluate", "vars", "free_vars"}
    def __init__(self, repo):
        super().__init__(repo)
        self.top = None           # term of the object whose method is being verified
        self.topcls = None
        self.unfolded = None
        self.virtual_on = True
    def mixable(self, cname): return "Expression" if self.repo.is_sub(cname, "Expression") else None
    def is_expr(self, cls): return self.repo.is_sub(cls, "Expression")

    # ---- definition of the semantics at one object
    def unfold(self, ip, o):
        cx = ip.cx
        t = o.t if isinstance(o, V) else o
        key = ("unfold", t.get_id())
        if cx.ghost.get(key) is not None: return
        cx.ghost[key] = t          # keep the term alive
        # only the cases the object can still be in
        sup = res(o.ty).cls if isinstance(o, Sym) and isinstance(res(o.ty), TRef) else "Expression"
        cs = [c for c in self.repo.subclasses(sup) if not self.repo.is_abstract(c)]
        if len(cs) > 1: cs = [c for c in cs if cx.feasible(CLS(t) == ip.cid[c])]
        cx.assume(z3.Or(*[CLS(t) == ip.cid[c] for c in cs]))
        for f in self.unfold_facts(ip, t, only=set(cs)): cx.assume(f)
    def unfold_facts(self, ip, t, fields=None, only=None):
        cid = ip.cid
        has = lambda cs: [c for c in cs if only is None or c in only]
        one = only is not None and len(only) == 1
        imp = lambda g, f: f if one else z3.Implies(g, f)
        ex, vs, co, va, na = fields or (EXPRS[t], VARS[t], CONST[t], VALUE[t], NAME[t])
        x, k = z3.Ints("x k")
        a, n = SE(ex), SL(ex)
        c0, c1 = a[0], a[1]
        K = lambda c: CLS(t) == cid[c]
        EMPTY = z3.K(I, z3.BoolVal(False))
        fs = []
        for c in has(["Const", "Parameter"]): fs.append(imp(K(c), z3.And(DEN(t) == va, DEF(t), INVS(t) == EMPTY)))
        for c in has(["Variable"]): fs.append(imp(K(c), z3.And(DEN(t) == SIGMA[na], DEF(t), INVS(t) == z3.Store(EMPTY, na, z3.BoolVal(True)))))
        for c in has(UNOPS):
            f = UNOPS[c]
            fs.append(imp(K(c), z3.And(n == 1, DEN(t) == f(DEN(c0)), DEF(t) == DEF(c0), INVS(t) == INVS(c0))))
        for c in has(BINOPS):
            f = BINOPS[c]
            d = BINDEF.get(c, lambda a, b: z3.BoolVal(True))
            fs.append(imp(K(c), z3.And(n == 2, DEN(t) == f(DEN(c0), DEN(c1)), DEF(t) == z3.And(DEF(c0), DEF(c1), d(DEN(c0), DEN(c1))))))
        bins = z3.Or(*[K(c) for c in has(BINOPS)])
        if not has(BINOPS): pass
        elif self.lean: fs.append(imp(bins, INVS(t)[X0] == z3.Or(INVS(c0)[X0], INVS(c1)[X0])))
        else: fs.append(imp(bins, forall([x], INVS(t)[x] == z3.Or(INVS(c0)[x], INVS(c1)[x]), [INVS(t)[x], INVS(c0)[x], INVS(c1)[x]])))
        for c in has(FOLDS):
            Fo, op, u = FOLDS[c]
            fs.append(imp(K(c), z3.And(DEN(t) == op(co, Fo(DENA(a), n)),
                                              DEF(t) == DEFS(a, n))))
        acc = z3.Or(*[K(c) for c in has(FOLDS)])
        if has(FOLDS): fs.append(imp(acc, INVS(t) == INUS(a, n)))
        if self.lean or not (has(UNOPS) or has(BINOPS) or has(FOLDS)): return fs
        coll = z3.Not(z3.Or(*[K(c) for c in LEAVES]))
        # class invariant of Collection: _vars lists the reported variables, each once
        fs.append(z3.Implies(coll, z3.And(distinct_arr(SE(vs), SL(vs), "u"),
                                          forall([k], z3.Implies(z3.And(0 <= k, k < SL(vs)), INVS(t)[SE(vs)[k]]), [SE(vs)[k]]),
                                          forall([x], z3.Implies(INVS(t)[x], z3.And(0 <= VPOS(t, x), VPOS(t, x) < SL(vs), SE(vs)[VPOS(t, x)] == x)), [INVS(t)[x]]))))
        return fs
    def on_field(self, ip, o, attr, v):
        if attr in ("_expressions", "_vars", "_const", "_value", "_name") and isinstance(res(o.ty), TRef) and self.is_expr(res(o.ty).cls):
            if self.under_construction is not None and o.t.eq(self.under_construction): return
            self.unfold(ip, o)
    under_construction = None
    lean = False

    # ---- virtual calls on (other) expressions are known only by contract
    def virtual(self, ip, cls, attr, o):
        if attr in self.VIRTUAL and self.is_expr(cls) and not (self.top is not None and o.t.eq(self.top) and attr not in self.top_virtual):
            return BuiltinV("virt:" + attr)
        return None
    top_virtual = ()
    def builtin(self, ip, f, args, kw, node, env):
        if f.name.startswith("virt:"): return getattr(self, "v_" + f.name[5:])(ip, args, kw)
        return None
    def v_evaluate(self, ip, args, kw):
        cx = ip.cx
        cx.task.contracts_used.add("Expression.evaluate")
        o, d = args[0], args[1] if len(args) > 1 else kw["substitution"]
        self.check_agree(ip, o.t, d)
        cx.check(DEF(o.t), "precondition of evaluate: the arithmetic of the operand is defined")
        return Sym(TInt, DEN(o.t))
    def check_agree(self, ip, t, d):
        cx = ip.cx
        x = cx.fresh("ax")
        has, val = self.lookup(ip, d, x)
        cx.check(z3.Implies(INVS(t)[x], z3.And(has, val == SIGMA[x])), "precondition of evaluate: the reported variables are bound")
    def lookup(self, ip, d, x):
        cx = ip.cx
        if isinstance(d, Sym) and isinstance(res(d.ty), TDict):
            if isinstance(res(res(d.ty).k), TVar): return z3.BoolVal(False), z3.IntVal(0)
            return cx.rd("D.dom", d.t)[x], cx.rd("D.val", d.t)[x]
        raise Unsupported("substitution %r" % (d,))
    def v_vars(self, ip, args, kw):
        ip.cx.task.contracts_used.add("Expression.vars")
        return ip.enum_set(INVS(args[0].t), TStr)
    def v_free_vars(self, ip, args, kw):
        cx = ip.cx
        cx.task.contracts_used.add("Expression.free_vars")
        o, d = args[0], args[1]
        dom = cx.fresh("fv", AB); x = z3.Int("x")
        has, _ = self.lookup(ip, d, x)
        cx.assume(forall([x], dom[x] == z3.And(INVS(o.t)[x], z3.Not(has)), [dom[x], INVS(o.t)[x]]))
        return ip.enum_set(dom, TStr)

    # ---- constructors
    def ctor(self, cname):
        if self.is_expr(cname) and cname != self.topcls: return self.make
        return None
    def make(self, ip, info, a, args, kw):
        cx = ip.cx
        c = info.name
        cx.task.contracts_used.add("%s.__init__" % c)
        r = cx.new_ref()
        o = Sym(TRef(c), r)
        a = {k: v for k, v in a.items() if k != "self"}
        if c not in FOLDS: cx.assume(CLS(r) == ip.cid[c])
        if c in ("Const", "Parameter"): 
            cx.assume(VALUE[r] == ip.int_(a["value"]))
        if c in ("Variable", "Parameter"): cx.assume(NAME[r] == ip.enc(a["name"], TStr))
        if c in UNOPS or c in BINOPS:
            ops = list(a.values())
            ts = [self.coerce(ip, v) for v in ops]
            s = EXPRS[r]
            cx.assume(SL(s) == len(ts))
            for k, t in enumerate(ts): cx.assume(SE(s)[k] == t)
        if c in FOLDS:
            Fo, op, u = FOLDS[c]
            k0 = ip.force(a["const"])
            const = z3.IntVal(u) if isinstance(k0, PyC) and k0.v is None else ip.int_(k0)
            n, arr, ty = ip.arr_of(ip.as_seq(a["expressions"]))
            if not isinstance(res(ty), TRef): raise Unsupported("%s of %r" % (c, ty))
            x = z3.Int("x")
            cx.assume(CLS(r) == ip.cid[c])
            cx.assume(z3.Implies(DEFS(arr, n), z3.And(DEF(r), DEN(r) == op(const, Fo(DENA(arr), n)))))
            if self.lean: cx.assume(z3.Implies(INVS(r)[X0], INUS(arr, n)[X0]))
            else: cx.assume(forall([x], z3.Implies(INVS(r)[x], INUS(arr, n)[x]), [INVS(r)[x]]))
            return o
        self.unfold(ip, o)
        return o
    def coerce(self, ip, v):
        """reference of Expression.coerce(v)"""
        v = ip.force(v)
        if ip.is_int(v): return self.make(ip, self.repo.classes["Const"], {"value": v}, [], {}).t
        if isinstance(v, Sym) and isinstance(res(v.ty), TRef) and self.is_expr(res(v.ty).cls): return v.t
        raise Unsupported("operand %r" % (v,))

    # ---- folds over expression lists
    def on_append(self, ip, a, n, a2, e, ty):
        if not self.fold_ty(ty): return
        for f in self.step_facts(a, n, a2, e): ip.cx.assume(f)
    def fold_ty(self, ty):
        t = res(ty)
        return isinstance(t, TRef) and self.is_expr(t.cls)
    def step_facts(self, a, n, a2, e):
        x = z3.Int("x")
        fs = []
        for Fo, op, u in FOLDS.values():
            fs.append(Fo(DENA(a2), n + 1) == op(Fo(DENA(a), n), DEN(e)))
        if self.lean: fs.append(INUS(a2, n + 1)[X0] == z3.Or(INUS(a, n)[X0], INVS(e)[X0]))
        else: fs.append(forall([x], INUS(a2, n + 1)[x] == z3.Or(INUS(a, n)[x], INVS(e)[x]), [INUS(a2, n + 1)[x]]))
        fs.append(DEFS(a2, n + 1) == z3.And(DEFS(a, n), DEF(e)))
        return fs
    def on_concat(self, ip, a, n, b, m, c, ty):
        # lemma concat (lemmas.py): folds and unions of a concatenation
        if not (self.fold_ty(ty) or res(ty) is TAny): return
        x = z3.Int("x")
        for Fo, op, u in FOLDS.values():
            ip.cx.assume(Fo(DENA(c), n + m) == op(Fo(DENA(a), n), Fo(DENA(b), m)))
        ip.cx.assume(DEFS(c, n + m) == z3.And(DEFS(a, n), DEFS(b, m)))
        if self.lean: ip.cx.assume(INUS(c, n + m)[X0] == z3.Or(INUS(a, n)[X0], INUS(b, m)[X0]))
        else: ip.cx.assume(forall([x], INUS(c, n + m)[x] == z3.Or(INUS(a, n)[x], INUS(b, m)[x]), [INUS(c, n + m)[x]]))
    def on_iter(self, ip, seq, i):
        if seq.src is None or seq.src[0] != "arr" or not self.fold_ty(seq.src[2]): return
        a = seq.src[1]
        for f in self.step_facts(a, i, a, a[i]): ip.cx.assume(f)
        # consequences for the whole list (lemmas.py): a prefix of defined operands is defined, a product with a zero factor is zero
        z = z3.And(0 <= i, i < seq.n)
        ip.cx.assume(z3.Implies(z3.And(z, DEFS(a, seq.n)), DEF(a[i])))
        for j in (i, i + 1):
            ip.cx.assume(z3.Implies(z3.And(z, IPROD(DENA(a), j) == 0), IPROD(DENA(a), seq.n) == 0))
            ip.cx.assume(z3.Implies(z3.And(z, INUS(a, j)[X0]), INUS(a, seq.n)[X0]))
    def sum_(self, ip, arg, start, node):
        seq = ip.as_seq(arg)
        n = z3.simplify(seq.n)
        if z3.is_int_value(n) and n.as_long() <= 12: return super().sum_(ip, seq, start, node)
        n, a, ty = ip.arr_of(seq)
        if res(ty) in (TInt, TBool): return Sym(TInt, ip.int_(start) + ISUM(a, n))
        raise Unsupported("sum of %r" % (ty,))

def in_union(ts, x): return z3.Or(*[INVS(t)[x] for t in ts]) if ts else z3.BoolVal(False)

# =============================================================== loop annotations
def coll_outer(ip, L):
    """variables of the first i expressions are collected, each once"""
    v = L.pick(TList, "vlist")
    a = L.seq.src[1] if L.seq.src and L.seq.src[0] == "arr" else None
    if a is None: raise AnnotationMismatch("loop over something else than the operands")
    n, el = ip.cx.rd("L.len", v.t), ip.cx.rd("L.el", v.t)
    x = z3.Int("x")
    return [("distinct", distinct_arr(el, n)),
            ("reported variables only", forall([x], z3.Implies(ELS(el, n)[x], INUS(a, L.idx)[x]), [ELS(el, n)[x]])),
            ("all variables so far", forall([x], z3.Implies(INUS(a, L.idx)[x], ELS(el, n)[x]), [INUS(a, L.idx)[x]])), ("length", n >= 0)]
def coll_step(ip, L):
    ip.cx.ghost["coll"] = (L.seq.src[1], L.idx)
def coll_inner(ip, L):
    v = L.pick(TList, "vlist")
    n, el = ip.cx.rd("L.len", v.t), ip.cx.rd("L.el", v.t)
    if "coll" not in ip.cx.ghost: raise AnnotationMismatch("inner loop outside the outer one")
    a, i = ip.cx.ghost["coll"]
    x, k = z3.Ints("x k")
    K = L.seq.src[1]
    return [("distinct", distinct_arr(el, n)),
            ("reported variables only", forall([x], z3.Implies(ELS(el, n)[x], INUS(a, i + 1)[x]), [ELS(el, n)[x]])),
            ("all variables so far", forall([x], z3.Implies(INUS(a, i)[x], ELS(el, n)[x]), [INUS(a, i)[x]])),
            ("all variables of this expression so far", forall([k], z3.Implies(z3.And(0 <= k, k < L.idx), ELS(el, n)[K[k]]), [K[k]])), ("length", n >= 0)]
def mods_list(hint):
    return lambda ip, L: {"L.len": lambda r, t=L.pick(TList, hint).t: r == t, "L.el": lambda r, t=L.pick(TList, hint).t: r == t}

def acc_inv(cls_of, elist, const, src_den):
    """const (+) fold(elist) == fold of the processed prefix, and nothing new is mentioned"""
    def inv(ip, L):
        cx = ip.cx
        cls = cls_of(ip, L)
        Fo, op, u = FOLDS[cls]
        el = L.pick(TList, elist, lambda v: not v.t.eq(getattr(L.seq, "lref", z3.IntVal(0))))
        c = ip.int_(L[const])
        n, b = cx.rd("L.len", el.t), cx.rd("L.el", el.t)
        a = L.seq.src[1]
        start = src_den(ip, L, cls)
        x, k = z3.Ints("x k")
        return [("value of the prefix", op(c, Fo(DENA(b), n)) == op(start, Fo(DENA(a), L.idx))),
                ("operands are defined", z3.And(n >= 0, DEFS(b, n))),
                ("no new variables", z3.Implies(INUS(b, n)[X0], INUS(a, L.idx)[X0]))]
    return inv
def ref_ok(ip, t):
    ks = [ip.cid[c] for c in ip.repo.subclasses("Expression") if not ip.repo.is_abstract(c)]
    return z3.And(t >= 1, t < ip.cx.alloc, z3.Or(*[CLS(t) == k for k in ks]))

def fold_lemmas():
    """consequences of the recursive definition of the folds, proved by induction in lemmas.py"""
    a = z3.Const("a", AI); n, k = z3.Ints("n k")
    return [forall([a, n, k], z3.Implies(z3.And(0 <= k, k < n, a[k] == 0), IPROD(a, n) == 0), [(IPROD(a, n), a[k])]),
            forall([a, n, k], z3.Implies(z3.And(0 <= k, k <= n, IPROD(a, k) == 0), IPROD(a, n) == 0), [(IPROD(a, n), IPROD(a, k))])]

def mix_t(ip, v):
    """(den, def, invars) of an operand that is an expression or an int"""
    if ip.is_int(v): return ip.int_(v), z3.BoolVal(True), z3.K(I, z3.BoolVal(False))
    return DEN(v.t), DEF(v.t), INVS(v.t)

# ------------------------------------------------------------------ contracts used at call sites
def c_make_accumulate(ip, a):
    cx = ip.cx
    cls = a["accumulate_class"].info.name
    if cls not in FOLDS: raise Unsupported("accumulation of %s" % cls)
    Fo, op, u = FOLDS[cls]
    seq = ip.as_seq(a["expressions"])
    n = z3.simplify(seq.n)
    cx.check(n == 2, "precondition of _make_accumulate: two operands")
    if not z3.is_int_value(n): raise Unsupported("_make_accumulate of a list of unknown length")
    vs = [ip.force(seq.get(z3.IntVal(k))) for k in range(n.as_long())]
    ms = [mix_t(ip, v) for v in vs]
    na = cx.fresh("alloc"); cx.assume(na > cx.alloc)
    r = cx.fresh("acc")
    cx.assume(z3.And(r >= 1, r < na)); cx.alloc = na
    o = Sym(TRef("Expression"), r); ip.wf(o)
    x = z3.Int("x")
    den = ms[0][0]
    for m in ms[1:]: den = op(den, m[0])
    cx.assume(z3.Implies(z3.And(*[m[1] for m in ms]), z3.And(DEF(r), DEN(r) == den)))
    cx.assume(forall([x], z3.Implies(INVS(r)[x], z3.Or(*[m[2][x] for m in ms])), [INVS(r)[x]]))
    return o
def c_prod(ip, a):
    cx = ip.cx
    n, arr, ty = ip.arr_of(ip.as_seq(a["values"]))
    if res(ty) not in (TInt, TBool): raise Unsupported("prod of %r" % (ty,))
    return Sym(TInt, ip.int_(a["start"]) * IPROD(arr, n))
def c_collection_init(ip, a):
    """fields after Collection.__init__: the operands, coerced, and the variables they report, each once"""
    cx = ip.cx
    o = a["self"]
    n, arr, ty = ip.arr_of(ip.as_seq(a["expressions"]))
    n = z3.simplify(n)
    mix = isinstance(res(ty), TMix)
    if not mix and not isinstance(res(ty), TRef) and not (z3.is_int_value(n) and n.as_long() == 0):
        if isinstance(res(ty), TVar): raise NeedType()
        if res(ty) not in (TInt, TBool): raise Unsupported("operands of type %r" % (ty,))
        k = z3.Int("k"); b = cx.fresh("mx", AI)
        cx.assume(forall([k], b[k] == MIXI(arr[k]), [b[k]])); arr, mix = b, True
    s, v = cx.fresh("exprs"), cx.fresh("vars")
    cx.assume(z3.And(s >= 1, v >= 1))
    if ip.spec.lean and not mix: cx.assume(z3.And(SL(s) == n, SE(s) == arr))
    else:
        for f in init_facts(ip, s, v, n, arr, mix): cx.assume(f)
    cx.wr("f:_expressions", o.t, s, op="field"); cx.wr("f:_vars", o.t, v, op="field")
    na = cx.fresh("alloc"); cx.assume(na >= cx.alloc); cx.alloc = na
    k = z3.Int("k")
    cx.assume(forall([k], z3.Implies(z3.And(0 <= k, k < n), ref_ok(ip, SE(s)[k])), [SE(s)[k]]))
    return PyC(None)
def coerced(ip, e, m, mix):
    if not mix: return e == m
    return z3.And(z3.Implies(m >= 0, e == m), z3.Implies(m < 0, z3.And(DEN(e) == MIXV(m), DEF(e), forall_none(e))))
def forall_none(e): return INVS(e) == z3.K(I, z3.BoolVal(False))
def init_facts(ip, s, v, n, arr, mix):
    k, x = z3.Ints("k x")
    out = [SL(s) == n]
    if not mix: out.append(forall([k], z3.Implies(z3.And(0 <= k, k < n), SE(s)[k] == arr[k]), [SE(s)[k], arr[k]]))
    else: out.append(forall([k], z3.Implies(z3.And(0 <= k, k < n), coerced(ip, SE(s)[k], arr[k], True)), [SE(s)[k], arr[k]]))
    out += vars_facts(s, v)
    return out
def vars_facts(s, v):
    k, x = z3.Ints("k x")
    return [distinct_arr(SE(v), SL(v), "v"),
            forall([x], ELS(SE(v), SL(v))[x] == INUS(SE(s), SL(s))[x], [ELS(SE(v), SL(v))[x], INUS(SE(s), SL(s))[x]])]

ExprSpec.CONTRACTS = {
    XM + ":_make_accumulate": Contract(XM + ":_make_accumulate", effect=c_make_accumulate),
    XM + ":prod": Contract(XM + ":prod", effect=c_prod),
    XM + ":Collection.__init__": Contract(XM + ":Collection.__init__", effect=c_collection_init),
}
def acc_cls(ip, L): return L["accumulate_class"].info.name if L.has("accumulate_class") else ip.spec.topcls
def prod_inv(ip, L):
    a = L.seq.src[1] if L.seq.src and L.seq.src[0] == "arr" else None
    if a is None: raise AnnotationMismatch("loop over something else")
    return [("partial product", ip.int_(L["start"]) == ip.cx.ghost["start0"] * IPROD(a, L.idx))]
def prod_step(ip, L):
    a = L.seq.src[1]
    ip.cx.assume(IPROD(a, L.idx + 1) == IPROD(a, L.idx) * a[L.idx])
ExprSpec.LOOPS = {
    (XM + ":Collection.__init__", 0): LoopSpec(coll_outer, mods=mods_list("vlist"), step=coll_step),
    (XM + ":Collection.__init__", 1): LoopSpec(coll_inner, mods=mods_list("vlist")),
    (XM + ":_make_accumulate", 1): LoopSpec(acc_inv(acc_cls, "elist", "const", lambda ip, L, c: z3.IntVal(FOLDS[c][2])), mods=mods_list("elist")),
    (XM + ":Accumulation.__init__", 0): LoopSpec(acc_inv(acc_cls, "elist", "const", lambda ip, L, c: ip.cx.ghost["const0"]), mods=mods_list("elist")),
    (XM + ":prod", 0): LoopSpec(prod_inv, step=prod_step),
}

# ------------------------------------------------------------------ tasks
def new_ip(repo, cx, spec=None, lean=False):
    spec = spec or ExprSpec(repo)
    spec.lean = lean
    return VC(repo, spec, cx)
def expr(ip, name, cls=None):
    o = Sym(TRef(cls or "Expression"), z3.Int(name))
    ip.wf(o)
    if cls: ip.cx.assume(CLS(o.t) == ip.cid[cls])
    return o
def dict_arg(ip, name):
    d = Sym(TDict(TStr, TInt), z3.Int(name))
    ip.cx.assume(z3.And(d.t >= 1, d.t < ip.cx.alloc))
    return d
def fresh_self(ip, cls):
    """an object under construction"""
    r = ip.cx.new_ref()
    ip.cx.assume(CLS(r) == ip.cid[cls])
    ip.spec.under_construction = r
    ip.spec.topcls = cls
    return Sym(TRef(cls), r)

def op_task(repo, opname, kinds):
    """l op r with Python's dispatch over every class of operands"""
    OPS = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "%": "mod", "**": "pow", "&": "and", "|": "or"}
    CM = {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
    TABLE = {"+": "Add", "-": "Sub", "*": "Mul", "/": "Div", "%": "Mod", "**": "Pow", "&": "And", "|": "Or", "==": "Eq", "!=": "Ne", "<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge"}
    def run(cx):
        ip = new_ip(repo, cx)
        ip.callstack = []
        def operand(k, nm):
            return expr(ip, nm) if k == "e" else Sym(TInt, z3.Int(nm))
        l, r = operand(kinds[0], "l"), operand(kinds[1], "r")
        ml, mr = mix_t(ip, l), mix_t(ip, r)
        cx.assume(ml[1]); cx.assume(mr[1])
        node = TABLE[opname]
        opdef = BINDEF.get(node, lambda a, b: z3.BoolVal(True))(ml[0], mr[0])
        # both operands may be constants without any field being read: know what they are
        for v, k in ((l, kinds[0]), (r, kinds[1])):
            if k == "e": ip.spec.unfold(ip, v)
        try:
            res_ = ip.binop(OPS[opname], l, r) if opname in OPS else ip.cmp(CM[opname], l, r)
        except PyRaise as e:
            cx.check(z3.Not(opdef), "building %s never fails where it is defined (raised %s)" % (opname, e.exc)); return
        finish(ip, res_, BINOPS[node](ml[0], mr[0]), opdef, [ml[2], mr[2]], opname)
    return Task("operator %s on (%s)" % (opname, ", ".join({"e": "expression", "i": "int"}[k] for k in kinds)), run, axioms=axioms() + fold_lemmas(),
                functions=["Expression.__%s__" % {**OPS, **CM}[opname], "Const.__%s__" % {**OPS, **CM}[opname]] + (["Expression.__r%s__" % {**OPS, **CM}[opname]] if kinds[0] == "i" else []))
def finish(ip, r, want, opdef, invs, nm):
    cx = ip.cx
    r = ip.force(r)
    if ip.is_int(r):
        cx.check(z3.Implies(opdef, ip.int_(r) == want), "%s: value of the result" % nm); return
    if not (isinstance(r, Sym) and isinstance(res(r.ty), TRef) and ip.spec.is_expr(res(r.ty).cls)):
        cx.check(z3.BoolVal(False), "%s: the result is an expression" % nm); return
    cx.check(z3.Implies(opdef, z3.And(DEF(r.t), DEN(r.t) == want)), "%s: value of the result" % nm)
    x = X0 if ip.spec.lean else cx.fresh("nx")
    cx.check(z3.Implies(INVS(r.t)[x], z3.Or(*[s[x] for s in invs])), "%s: the result mentions only variables of the operands" % nm)
def unary_task(repo, nm):
    def run(cx):
        ip = new_ip(repo, cx); ip.callstack = []
        l = expr(ip, "l")
        cx.assume(DEF(l.t)); ip.spec.unfold(ip, l)
        try:
            if nm == "abs": r = ip.b_abs(None, [l], {}, None, None)
            elif nm == "not": r = ip.call(ip.getattr_(l, "__not__"), [], {})
            else: r = ip.call(ip.getattr_(l, "__neg__" if nm == "neg" else "__pos__"), [], {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "%s never fails (raised %s)" % (nm, e.exc)); return
        d = DEN(l.t)
        want = {"neg": -d, "pos": d, "abs": ite(d >= 0, d, -d), "not": b2i(d == 0)}[nm]
        finish(ip, r, want, z3.BoolVal(True), [INVS(l.t)], nm)
    return Task("operator %s" % nm, run, axioms=axioms() + fold_lemmas(), functions=["Expression.__%s__" % nm])

def make_acc_task(repo, cls, kinds, case=None):
    binop = {"Sum": "Add", "Prod": "Mul"}[cls]
    maker = {"Sum": "_make_sum", "Prod": "_make_prod"}[cls]
    def run(cx):
        ip = new_ip(repo, cx, lean=True)
        Fo, op, u = FOLDS[cls]
        vs = [expr(ip, "l") if kinds[0] == "e" else Sym(TInt, z3.Int("l")), expr(ip, "r") if kinds[1] == "e" else Sym(TInt, z3.Int("r"))]
        ms = [mix_t(ip, v) for v in vs]
        for m in ms: cx.assume(m[1])
        if case: cx.assume(case[1](lambda c: CLS(vs[0].t) == ip.cid[c]))
        f = fn(repo, XM, maker)
        ip.verifying = XM + ":_make_accumulate"
        ip.spec.CONTRACTS = {k: v for k, v in ip.spec.CONTRACTS.items() if not k.endswith(":_make_accumulate")}
        try: r = ip.run_body(f, vs, {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "never fails (raised %s)" % e.exc); return
        finish(ip, r, op(ms[0][0], ms[1][0]), z3.BoolVal(True), [m[2] for m in ms], cls)
    return Task("%s on (%s)%s" % (maker, ", ".join(kinds), " left operand: " + case[0] if case else ""), run, axioms=lean_axioms(), functions=["_make_accumulate", maker])

def prod_task(repo):
    def run(cx):
        ip = new_ip(repo, cx)
        f = fn(repo, XM, "prod"); ip.verifying = f.qual
        a, n = z3.Const("values", AI), z3.Int("n")
        cx.assume(n >= 0)
        st = z3.Int("start"); cx.ghost["start0"] = st
        r = ip.run_body(f, [SeqV(n, lambda i: Sym(TInt, a[i]), src=("arr", a, TInt, None)), Sym(TInt, st)], {})
        cx.check(ip.int_(r) == st * IPROD(a, n), "prod multiplies all values")
    return Task("prod", run, axioms=axioms(), functions=["prod"])

def collection_init_task(repo, mix):
    def run(cx):
        ip = new_ip(repo, cx)
        f = fn(repo, XM, "Collection.__init__"); ip.verifying = f.qual
        o = fresh_self(ip, "Add")
        lst = Sym(TList(TMix(TRef("Expression")) if mix else TRef("Expression")), z3.Int("expressions"))
        cx.assume(z3.And(lst.t >= 1, lst.t < z3.Int("alloc0")))
        n, arr = cx.rd("L.len", lst.t), cx.rd("L.el", lst.t)
        cx.assume(n >= 0)
        try: ip.run_body(f, [o, lst], {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "never fails (raised %s)" % e.exc); return
        s, v = cx.rd("f:_expressions", o.t), cx.rd("f:_vars", o.t)
        k, x = cx.fresh("pk"), cx.fresh("px")
        cx.check(SL(s) == n, "as many operands as given")
        cx.check(z3.Implies(z3.And(0 <= k, k < n), coerced(ip, SE(s)[k], arr[k], mix)), "operands kept, integers become constants")
        cx.check(distinct_arr(SE(v), SL(v), "g"), "each variable is listed once")
        cx.check(ELS(SE(v), SL(v))[x] == INUS(SE(s), SL(s))[x], "the variables of the operands are listed, and no others")
    return Task("Collection.__init__ (%s)" % ("expressions and ints" if mix else "expressions"), run, axioms=axioms(), functions=["Collection.__init__"])

def opinit_task(repo, cls, kinds):
    """__init__ of UnOp/BinOp classes establishes the class invariant"""
    def run(cx):
        ip = new_ip(repo, cx)
        f = fn(repo, XM, cls + ".__init__"); ip.verifying = f.qual
        o = fresh_self(ip, cls)
        vs = [expr(ip, "e%d" % i) if k == "e" else Sym(TInt, z3.Int("e%d" % i)) for i, k in enumerate(kinds)]
        try: ip.run_body(f, [o] + vs, {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "never fails (raised %s)" % e.exc); return
        s = cx.rd("f:_expressions", o.t)
        cx.check(SL(s) == len(vs), "%d operands" % len(vs))
        x = cx.fresh("px")
        for i, v in enumerate(vs):
            d, df, iv = mix_t(ip, v)
            e = SE(s)[i]
            cx.check(z3.And(DEN(e) == d, DEF(e) == df, INVS(e)[x] == iv[x]) if kinds[i] == "i" else e == v.t, "operand %d is the one given" % i)
    return Task("%s.__init__ (%s)" % (cls, ",".join(kinds)), run, axioms=axioms(), functions=["%s.__init__" % cls])

def acc_init_task(repo, cls, given):
    def run(cx):
        ip = new_ip(repo, cx, lean=True)
        f = fn(repo, XM, cls + ".__init__"); ip.verifying = f.qual
        Fo, op, u = FOLDS[cls]
        o = fresh_self(ip, cls)
        lst = Sym(TList(TRef("Expression")), z3.Int("expressions"))
        cx.assume(z3.And(lst.t >= 1, lst.t < z3.Int("alloc0")))
        n, arr = cx.rd("L.len", lst.t), cx.rd("L.el", lst.t)
        cx.assume(z3.And(n >= 0, DEFS(arr, n)))
        c0 = z3.Int("const") if given else z3.IntVal(u)
        cx.ghost["const0"] = c0
        try: ip.run_body(f, [o, lst] + ([Sym(TInt, c0)] if given else []), {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "never fails (raised %s)" % e.exc); return
        s, c = cx.rd("f:_expressions", o.t), cx.rd("f:_const", o.t)
        x = X0
        cx.check(DEFS(SE(s), SL(s)), "operands are defined")
        cx.check(op(c, Fo(DENA(SE(s)), SL(s))) == op(c0, Fo(DENA(arr), n)), "flattening keeps the value")
        cx.check(z3.Implies(INUS(SE(s), SL(s))[x], INUS(arr, n)[x]), "flattening adds no variables")
    return Task("%s.__init__ (%s const)" % (cls, "with" if given else "default"), run, axioms=lean_axioms(), functions=["Accumulation.__init__"])

def evaluate_task(repo, cls):
    def run(cx):
        ip = new_ip(repo, cx)
        f = fn(repo, XM, cls + ".evaluate"); ip.verifying = f.qual
        o = expr(ip, "self", cls)
        ip.spec.top, ip.spec.topcls = o.t, cls
        ip.spec.unfold(ip, o)
        cx.assume(DEF(o.t))
        d = dict_arg(ip, "substitution")
        dom, val = cx.rd("D.dom", d.t), cx.rd("D.val", d.t)
        x = z3.Int("x")
        cx.assume(forall([x], z3.Implies(INVS(o.t)[x], z3.And(dom[x], val[x] == SIGMA[x])), [INVS(o.t)[x]]))
        try: r = ip.run_body(f, [o, d], {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "evaluation succeeds when the reported variables are bound (raised %s)" % e.exc); return
        cx.check(ip.int_(r) == DEN(o.t), "evaluate returns the value of the node")
        cx.check(z3.And(cx.rd("D.dom", d.t) == dom, cx.rd("D.val", d.t) == val), "the substitution is not changed")
    return Task("%s.evaluate" % cls, run, axioms=axioms(), functions=["%s.evaluate" % cls])

def vars_task(repo, cls, meth):
    def run(cx):
        ip = new_ip(repo, cx)
        f = fn(repo, XM, "%s.%s" % (cls, meth)); ip.verifying = f.qual
        ip.callstack = [f.qual]
        o = expr(ip, "self", cls)
        ip.spec.top, ip.spec.topcls, ip.spec.top_virtual = o.t, cls, ("vars", "free_vars")
        ip.spec.unfold(ip, o)
        args = [o]
        x = cx.fresh("px")
        want = INVS(o.t)[x]
        if meth == "free_vars":
            d = dict_arg(ip, "substitution"); args.append(d)
            want = z3.And(want, z3.Not(cx.rd("D.dom", d.t)[x]))
        try: seq = ip.as_seq(GenV(f, args, {}) if ip.has_yield(f) else ip.run_body(f, args, {}))
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "never fails (raised %s)" % e.exc); return
        if z3.simplify(seq.n).eq(z3.IntVal(0)):
            cx.check(z3.Not(want), "%s reports exactly the variables" % meth); return
        n, a, ty = ip.arr_of(seq)
        cx.check(ELS(a, n)[x] == want, "%s reports exactly the variables" % meth)
        cx.check(distinct_arr(a, n, "g"), "each is reported once")
    return Task("%s.%s" % (cls, meth), run, axioms=axioms(), functions=["%s.%s" % (cls, meth)])

def immut_task(repo):
    """syntactic: the fields the semantics is made of are assigned only while the object is built"""
    def run(cx):
        fields = {"_expressions", "_vars", "_const", "_name"}
        bad = []
        for m in repo.mods.values():
            for c in [x for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef)] + [None]:
                body = c.body if c is not None else [x for x in m.tree.body if not isinstance(x, ast.ClassDef)]
                for fnode in [x for b in body for x in ast.walk(b) if isinstance(x, ast.FunctionDef)]:
                    for n in ast.walk(fnode):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            own = c is not None and c.name in repo.classes and repo.is_sub(c.name, "Expression")
                            if n.attr in fields and m.name == XM and not (own and fnode.name == "__init__" and isinstance(n.value, ast.Name) and n.value.id == "self"): bad.append("%s:%d" % (m.name, n.lineno))
                            if n.attr == "_value" and own and not (fnode.name == "__init__" or c.name == "Parameter"): bad.append("%s:%d" % (m.name, n.lineno))
        cx.check(z3.BoolVal(not bad), "expressions are immutable (assignments at %s)" % bad)
    return Task("expressions are immutable", run, functions=[])

def leaf_init_tasks(repo):
    out = []
    def mk(cls, args, post):
        def run(cx):
            ip = new_ip(repo, cx)
            f = fn(repo, XM, cls + ".__init__"); ip.verifying = f.qual
            o = fresh_self(ip, cls)
            try: ip.run_body(f, [o] + args(), {})
            except PyRaise as e:
                cx.check(z3.BoolVal(False), "never fails (raised %s)" % e.exc); return
            for fl, t in post: cx.check(cx.rd("f:" + fl, o.t) == t, "%s keeps its %s" % (cls, fl.strip("_")))
        out.append(Task(cls + ".__init__", run, axioms=axioms(), functions=[cls + ".__init__"]))
    v, nm = z3.Int("value"), z3.Int("name")
    mk("Const", lambda: [Sym(TInt, v)], [("_value", v)])
    mk("Variable", lambda: [Sym(TStr, nm)], [("_name", nm)])
    mk("Parameter", lambda: [Sym(TStr, nm), Sym(TInt, v)], [("_name", nm), ("_value", v)])
    return out

def structure_tasks(repo):
    """constructors establish what the operators and evaluate rely on"""
    out = [immut_task(repo), prod_task(repo), collection_init_task(repo, False), collection_init_task(repo, True)] + leaf_init_tasks(repo)
    done = set()
    for c in list(UNOPS) + list(BINOPS):
        owner = repo.find(c, "__init__")[0].name
        if owner in done: continue
        done.add(owner)
        n = 1 if c in UNOPS else 2
        for kinds in ([["e"], ["i"]] if n == 1 else [["e", "e"], ["e", "i"], ["i", "e"]]): out.append(opinit_task(repo, c, kinds))
    for c in FOLDS:
        for g in (False, True): out.append(acc_init_task(repo, c, g))
    return out

def tasks_for(repo, prop):
    cs = concrete(repo)
    need_fields(repo, "Collection", ["_expressions", "_vars"]); need_fields(repo, "Sum", ["_const"]); need_fields(repo, "Const", ["_value"]); need_fields(repo, "Variable", ["_name"])
    out = structure_tasks(repo)
    ev = [evaluate_task(repo, c) for c in cs]
    if prop == "C01":
        out += ev
        for op in ("+", "-", "*", "/", "%", "**", "==", "!=", "<", "<=", ">", ">=", "&", "|"):
            for kinds in ("ee", "ei", "ie"): out.append(op_task(repo, op, kinds))
        out += [unary_task(repo, u) for u in ("neg", "pos", "abs", "not")]
        for c in ("Sum", "Prod"):
            b = {"Sum": "Add", "Prod": "Mul"}[c]
            cases = [(b, lambda K, b=b: K(b)), ("Const", lambda K: K("Const")), ("Sum or Prod", lambda K: z3.Or(K("Sum"), K("Prod"))),
                     ("anything else", lambda K, b=b: z3.Not(z3.Or(K(b), K("Const"), K("Sum"), K("Prod"))))]
            for cs_ in cases: out.append(make_acc_task(repo, c, "ee", cs_))
            out.append(make_acc_task(repo, c, "ei"))
    if prop == "C03":
        out += ev
        for c in cs:
            for m in ("vars", "free_vars"): out.append(vars_task(repo, c, m))
    return sorted(out, key=lambda t: not (t.name.startswith('_make') or 'const)' in t.name))
def tasks(repo): return tasks_for(repo, "C01") + [t for t in tasks_for(repo, "C03") if "vars" in t.name]
