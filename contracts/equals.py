"""C21: contracts of the equality test of expressions.

EQB(a,b)   the result of a.equals(b), for sub-expressions known by contract only:
             EQB(a,b) and no parameters  =>  same class, same value (for the arbitrary assignment SIGMA), defined together
             COPY(a,b)                   =>  EQB(a,b)
COPY(a,b)  b is built exactly as a (recursively: class, constants, names, operands)
NOPAR(a)   a contains no parameter"""
from .expr import *
from .expr import new_ip, expr

EQB, COPY = z3.Function("eqb", I, I, B), z3.Function("copy", I, I, B)
NOPAR = z3.Function("nopar", I, B)
NPW, CPW = z3.Function("par_w", I, I), z3.Function("copy_w", I, I, I)

class EqSpec(ExprSpec):
    VIRTUAL = {"equals"}
    def v_equals(self, ip, args, kw):
        cx = ip.cx
        cx.task.contracts_used.add("Expression.equals")
        a, b = args[0], args[1] if len(args) > 1 else kw["other"]
        if not (isinstance(b, Sym) and isinstance(res(b.ty), TRef) and self.is_expr(res(b.ty).cls)): raise Unsupported("equals(%r)" % (b,))
        return Sym(TBool, EQB(a.t, b.t))

def eq_axioms():
    a, b = z3.Ints("a b")
    return [forall([a, b], z3.Implies(z3.And(EQB(a, b), NOPAR(a), NOPAR(b)), z3.And(CLS(a) == CLS(b), DEN(a) == DEN(b), DEF(a) == DEF(b))), [EQB(a, b)]),
            forall([a, b], z3.Implies(COPY(a, b), EQB(a, b)), [EQB(a, b), COPY(a, b)])]

def equals_task(repo, cls):
    def run(cx):
        ip = new_ip(repo, cx)
        ip.spec = sp = EqSpec(repo)
        f = fn(repo, XM, cls + ".equals"); ip.verifying = f.qual
        o, p = expr(ip, "self", cls), expr(ip, "other")
        sp.top, sp.topcls = o.t, cls
        sp.unfold(ip, o); sp.unfold(ip, p)
        s, t = o.t, p.t
        # what the recursive notions mean at the two objects
        k = z3.Int("k")
        leaf = cls in LEAVES
        for u in (s, t):
            n, a = SL(EXPRS[u]), SE(EXPRS[u])
            isleaf = z3.Or(*[CLS(u) == ip.cid[c] for c in LEAVES])
            cx.assume(z3.Implies(CLS(u) == ip.cid["Parameter"], z3.Not(NOPAR(u))))
            cx.assume(z3.Implies(z3.And(NOPAR(u), z3.Not(isleaf)), forall([k], z3.Implies(z3.And(0 <= k, k < n), NOPAR(a[k])), [a[k]])))
        n, a, m, b = SL(EXPRS[s]), SE(EXPRS[s]), SL(EXPRS[t]), SE(EXPRS[t])
        cp = [CLS(s) == CLS(t)]
        if cls == "Const": cp.append(VALUE[s] == VALUE[t])
        elif leaf: cp += [NAME[s] == NAME[t]] + ([VALUE[s] == VALUE[t]] if cls == "Parameter" else [])
        else:
            cp += [n == m, forall([k], z3.Implies(z3.And(0 <= k, k < n), COPY(a[k], b[k])), [a[k], b[k]])]
            if cls in FOLDS: cp.append(CONST[s] == CONST[t])
        cx.assume(z3.Implies(COPY(s, t), z3.And(*cp)))
        try: r = ip.run_body(f, [o, p], {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "the equality test never fails (raised %s)" % e.exc); return
        r = ip.truth(r)
        if cls in FOLDS:
            # lemma (lemmas.py): pointwise equal operands have equal folds and are defined together
            w = cx.fresh("fw")
            bad = z3.And(0 <= w, w < n, z3.Or(DEN(a[w]) != DEN(b[w]), DEF(a[w]) != DEF(b[w])))
            Fo, op, u = FOLDS[cls]
            cx.assume(z3.Or(n != m, bad, z3.And(Fo(DENA(a), n) == Fo(DENA(b), m), DEFS(a, n) == DEFS(b, m))))
        nop = z3.And(r, NOPAR(s), NOPAR(t))
        cx.check(z3.Implies(nop, CLS(s) == CLS(t)), "expressions reported equal are of the same kind")
        cx.check(z3.Implies(nop, z3.And(DEF(s) == DEF(t), z3.Implies(DEF(s), DEN(s) == DEN(t)))), "expressions reported equal have the same value")
        cx.check(z3.Implies(COPY(s, t), r), "an expression is reported equal to its copy")
        for h in sorted(cx.heap):
            r0 = z3.Int("r"); h0 = z3.Const("H0:" + h, heap_sort(h))
            if not cx.heap[h].eq(h0): cx.check(forall([r0], z3.Implies(z3.And(r0 >= 1, r0 < z3.Int("alloc0")), cx.heap[h][r0] == h0[r0]), [h0[r0]]), "the equality test changes nothing (%s)" % h)
    return Task("%s.equals" % cls, run, axioms=axioms() + eq_axioms(), functions=["%s.equals" % cls])

def tasks(repo):
    cs = concrete(repo)
    need_fields(repo, "Collection", ["_expressions"]); need_fields(repo, "Sum", ["_const"]); need_fields(repo, "Const", ["_value"]); need_fields(repo, "Variable", ["_name"])
    return [immut_task(repo)] + [equals_task(repo, c) for c in cs]
