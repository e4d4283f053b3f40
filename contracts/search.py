"""C06, C07, C08, C20: contracts of Solver.solve (the set-up is known by its contract, verified in solver.py).

The main loop is cut: one task verifies that every way to reach it establishes its invariant, another one that its body
preserves the invariant from any state in which it holds, that what is yielded is right, and that ends are reported.
Ghost state of a search: ntot (number of solutions yielded); TEFF, LEFF (the timeout and limit in force)."""
from .solver import *

TEFF, LEFF = z3.Int("timeout_eff"), z3.Int("limit_eff")
SETUP = SM + ":Solver._setup"

class SearchSpec(SolverSpec):
    NO_FOLLOW = ("evaluate", "unsatisfied", "vars", "get", "append", "pop", "copy", "remove", "items", "keys", "values")
    def __init__(self, repo):
        super().__init__(repo)
        self.CONTRACTS = {SETUP: Contract(SETUP, requires=setup_requires, effect=setup_effect)}
    def loop(self, key, node, ip):
        if isinstance(node, ast.While): return MAIN if has_yield_in(node) else None
        l = super().loop(key, node, ip)
        return l
    def on_witness(self, ip, seq, k):
        """the element that decides a search through a sequence is an element of it"""
        if self.prop == "C07" and seq.src is not None and seq.src[0] == "arr":
            ip.cx.assume(z3.Implies(z3.And(0 <= k, k < seq.n), ELS(seq.src[1], seq.n)[seq.src[1][k]]))     # an instance of the definition of ELS
    def on_setfield(self, ip, o, attr, v):
        if attr == "_interrupt" and not (isinstance(v, PyC) and v.v is None): ip.cx.ghost["interrupted"] = True
    def on_havoc(self, ip, spec):
        cx = ip.cx
        if spec is MAIN:
            cx.ghost["where"] = "main"
            cx.ghost["epoch"] = cx.fresh("epoch")
            cx.ghost["ntot"] = cx.fresh("ntot")
            cx.ghost["cnt"] = cx.fresh("cnt")
            cx.ghost["now"] = cx.fresh("now")
            cx.ghost["readings"] = ()

def setup_requires(ip, a):
    out = []
    if ip.spec.prop in ("C06", "C07"):
        v = a["additional_constraints"]; c = z3.Int("c")
        n, el, ty = ip.arr_of(ip.as_seq(v))
        out.append(("the additional constraints are passed on", forall([c], ADDC(c) == ELS(el, n)[c], [ELS(el, n)[c], ADDC(c)])))
    if not isinstance(a["model"], Sym) or not isinstance(a["self"], Sym): raise Unsupported("set-up of another model")
    out.append(("it is about this model", a["model"].t == z3.Int("model")))
    out.append(("it is this solver's", a["self"].t == z3.Int("self")))
    return out
def info_fields(repo):
    g = repo.lookup(SM, "ModelInfo")
    if g is None: raise AnnotationMismatch("no ModelInfo")
    f = g[1].args[1]
    return f.value.replace(",", " ").split() if isinstance(f, ast.Constant) else [x.value for x in f.elts]
def setup_effect(ip, a):
    """what the set-up guarantees: new objects only, and the facts about them"""
    cx = ip.cx; r = z3.Int("r")
    pre = cx.alloc
    na = cx.fresh("alloc"); cx.assume(na >= pre); cx.alloc = na
    for m in list(HEAP_SORTS):
        h = cx.hp(m); h2 = cx.fresh("HS", heap_sort(m))
        cx.assume(forall([r], z3.Implies(r < pre, h2[r] == h[r]), [h2[r]] + ([h[r]] if z3.is_const(h) else [])))
        cx.heap[m] = h2
    h = cx.hp("f:_evaluate_function"); cx.heap["f:_evaluate_function"] = cx.fresh("HS", heap_sort("f:"))
    names = info_fields(ip.repo)
    if any(n not in INFO for n in names): raise AnnotationMismatch("the set-up returns something new")
    els = [Sym(INFO[n], cx.fresh(n)) for n in names]
    for v in els: ip.wf(v)
    ret = Tup(els, names, "ModelInfo")
    for v in els: cx.assume(v.t >= A0)
    for i in range(len(els)):
        for j in range(i): cx.assume(els[i].t != els[j].t)
    if ip.spec.prop in ("C06", "C07", "C20"):
        cs = {n: (role(ip, v), v) for n, v in zip(names, els) if role(ip, v)}
        no = FINAL.get(ip.spec.prop, ())
        for nm, g in all_facts(ip, cs, ISC):
            if nm.split(": ", 1)[-1] not in no: cx.assume(g, tag=nm)
    return ret

# ---------------------------------------------------------------- order of the variables
LASTP, LASTV = z3.Function("last_pos", I, I), z3.Function("last_var", I, I)
V, NV = z3.Const("Vorder", AI), z3.Int("Vlen")
def POS(x): return ELW(V, NV, x)
def order_axioms():
    """the last variable of a constraint in the order of the search (a finite non-empty set has a last element)"""
    c, x, i = z3.Ints("c x i")
    return [forall([c, x], z3.Implies(z3.And(ISC(c), CVARS(c)[x]), POS(x) <= LASTP(c)), [(LASTP(c), CVARS(c)[x])]),
            forall([c], z3.Implies(z3.And(ISC(c), CARD(CVARS(c)) >= 1), z3.And(CVARS(c)[LASTV(c)], POS(LASTV(c)) == LASTP(c), LASTP(c) >= 0, LASTP(c) < NV)), [LASTP(c), CARD(CVARS(c))]),
            forall([x], MV(x) == ELS(V, NV)[x], [MV(x), ELS(V, NV)[x]]),
            forall([x], z3.Implies(MV(x), z3.And(0 <= POS(x), POS(x) < NV, V[POS(x)] == x)), [MV(x)]),
            forall([i], z3.Implies(z3.And(0 <= i, i < NV), z3.And(MV(V[i]), POS(V[i]) == i)), [V[i]])]
def multi_static(c): return z3.And(ISC(c), STATIC(c), multi(c))
CATEGORIES = (("solution", ("a solution satisfies",)),
              ("one", ("about one variable", "the variables are those", "values come from", "values are possible", "are possible", "every variable has a domain", "domains do not repeat", "values of a solution", "in the domain of its variable")),
              ("ad", ("different from those", "different where", "all-different", "forced apart")),
              ("many", ("they complete", "bound constraints are", "constraints are registered", "registered constraints")))
def category(name):
    for c, ws in CATEGORIES[1:]:
        if any(w in name for w in ws): return c
    return None
def relevant(goal, fact):
    """facts about one kind of constraint are not needed for goals about the others"""
    c = category(fact)
    return c is None or c == category(goal) or "the value of the solution is kept" in goal and c == "many"
def order_entry(ip, E):
    """on entry: the sequence on the stack lists every variable of the model once"""
    cx = ip.cx; x, i = z3.Ints("x i")
    u = TUPF(0)(E[0]); a, n = SE(u), SL(u)
    return [("every variable is to be bound", forall([x], MV(x) == ELS(a, n)[x], [MV(x), ELS(a, n)[x]])),
            ("no variable is to be bound twice", forall([i], z3.Implies(z3.And(0 <= i, i < n), ELW(a, n, a[i]) == i), [a[i]])),
            ("there are variables", n >= 1)]

# ---------------------------------------------------------------- C06: what is kept about the partial assignments
def p5(A, p, x, v):
    """the value v can be given to x after the assignment A of the variables before position p"""
    y, c = z3.Ints("y c")
    return [("kept values satisfy the constraints about one variable", [], OKV(x, v), []),
            ("kept values are different from those they must be different from", [y], z3.Implies(z3.And(ADP(x, y), POS(y) < p), A[y] != v), [ADP(x, y)]),
            ("kept values satisfy the constraints they complete", [c], z3.Implies(z3.And(multi_static(c), LASTP(c) == p, CVARS(c)[x]), TR(c, z3.Store(A, x, v), E0)), [CVARS(c)[x]])]
# ---------------------------------------------------------------- C07: nothing is lost, nothing comes twice
FD = z3.Function("first_diff", AI, I, I)
def agree_axioms():
    """FD(a, k): the first of the first k positions where the assignment a differs from the solution H, k if there is none"""
    a = z3.Const("a", AI); k, y = z3.Ints("k y")
    g = FD(a, k)
    return [forall([a, k], z3.Implies(z3.And(0 <= k, k <= NV), z3.And(0 <= g, g <= k, z3.Implies(g < k, z3.And(MV(V[g]), POS(V[g]) == g, a[V[g]] != H[V[g]])))), [g]),
            forall([a, k, y], z3.Implies(z3.And(0 <= k, k <= NV, MV(y), POS(y) < g), a[y] == H[y]), [(g, a[y]), (g, POS(y))])]
def complete_inv(ip, k, A, D, DV):
    """A: the assignment on top of the stack (of the first k - 1 variables); D, DV: the values still to try"""
    cx = ip.cx
    x, y, i, j = z3.Ints("x y i j")
    Ll, Le = cx.hp("L.len"), cx.hp("L.el")
    inl = lambda x, v: ELS(Le[DV[x]], Ll[DV[x]])[v]
    g = FD(A, k - 1); gx = V[g]
    ahead = z3.Or(z3.And(g == k - 1, z3.Not(D[gx])), z3.And(D[gx], inl(gx, H[gx])))
    cnt = cx.ghost["cnt"]
    return [("bound variables have a list of remaining values", forall([x], z3.Implies(z3.And(MV(x), POS(x) < k - 1), D[x]), [D[x], MV(x)])),
            ("a value tried is not among the remaining ones", forall([x], z3.Implies(z3.And(MV(x), POS(x) < k - 1, D[x]), z3.Not(inl(x, A[x]))), [DV[x], A[x]])),
            ("lists of remaining values are lists", forall([x], z3.Implies(D[x], Ll[DV[x]] >= 0), [DV[x]])),
            ("each variable has its own list of remaining values", forall([x, y], z3.Implies(z3.And(D[x], D[y], x != y), DV[x] != DV[y]), [(DV[x], DV[y])])),
            ("no value remains twice", forall([x, i, j], z3.Implies(z3.And(D[x], 0 <= i, i < j, j < Ll[DV[x]]), Le[DV[x]][i] != Le[DV[x]][j]), [(Le[DV[x]][i], Le[DV[x]][j])])),
            ("each solution is still to come or was yielded, once", z3.If(z3.And(k >= 1, ahead), cnt == 0, cnt == 1))]
def p6(A, k):
    y, z, c = z3.Ints("y z c")
    return [("bound values satisfy the constraints about one variable", forall([y], z3.Implies(z3.And(MV(y), POS(y) < k), OKV(y, A[y])), [A[y]])),
            ("bound values are different where they must be", forall([y, z], z3.Implies(z3.And(ADP(y, z), POS(y) < k, POS(z) < k), A[y] != A[z]), [ADP(y, z)])),
            ("bound constraints are satisfied", forall([c], z3.Implies(z3.And(multi_static(c), LASTP(c) < k), TR(c, A, E0)), [LASTP(c)]))]
def domains_of(ip, L):
    """the dictionary of the values still to try"""
    c = {v.t.get_id(): v for n, v in local_containers(ip, L, TDict).items() if role(ip, v) == "domains"}
    if len(c) > 1: raise AnnotationMismatch("several dictionaries of remaining values")
    return next(iter(c.values())) if c else None
def stack_inv(ip, L):
    cx = ip.cx; out = []
    stack = stack_of(L); E, k = cx.rd("L.el", stack.t), cx.rd("L.len", stack.t)
    d, x, j = z3.Ints("d x j")
    dom, val = cx.hp("D.dom"), cx.hp("D.val")
    sub = lambda d: TUPF(1)(E[d])
    if ip.cx.ghost["where"] != "main": return order_entry(ip, E) + [("one assignment is on the stack", k == 1), ("nothing is bound", forall([x], z3.Not(dom[sub(0)][x]), [dom[sub(0)][x]]))]
    U = TUPF(0)(E[d])
    out += [("the stack is not higher than there are variables", z3.And(0 <= k, k <= NV)),
            ("variables left at each level", forall([d], z3.Implies(z3.And(0 <= d, d < k), SL(U) == NV - d), [E[d]])),
            ("variables left at each level are the next ones", forall([d, j], z3.Implies(z3.And(0 <= d, d < k, 0 <= j, j < NV - d), SE(U)[j] == V[j + d]), [SE(U)[j]])),
            ("variables bound at each level", forall([d, x], z3.Implies(z3.And(0 <= d, d < k), dom[sub(d)][x] == z3.And(MV(x), POS(x) < d)), [dom[sub(d)][x]]))]
    A = val[sub(k - 1)]
    out += [("levels agree", forall([d, x], z3.Implies(z3.And(0 <= d, d < k, MV(x), POS(x) < d), val[sub(d)][x] == A[x]), [val[sub(d)][x]]))]
    if ip.spec.prop == "C06": out += [(a, z3.Implies(k >= 1, b)) for a, b in p6(A, k - 1)]
    dm = domains_of(ip, L)
    if dm is None: return out
    D, DV = cx.rd("D.dom", dm.t), cx.rd("D.val", dm.t)
    if ip.spec.prop == "C07":
        out.append(("remaining values are those of bound variables", forall([x], z3.Implies(D[x], z3.And(MV(x), POS(x) < k)), [D[x]])))
        return out + complete_inv(ip, k, A, D, DV)
    l = DV[x]; e = cx.hp("L.el")[l][j]
    In = z3.And(D[x], 0 <= j, j < cx.hp("L.len")[l])
    out.append(("remaining values are those of bound variables", forall([x], z3.Implies(D[x], z3.And(MV(x), POS(x) < k)), [D[x]])))
    for nm, qs, f, ps in p5(val[sub(POS(x))], POS(x), x, e):
        out.append((nm, forall([x, j] + qs, z3.Implies(In, f), [tuple([e] + ps) if ps else e])))
    return out
def search_facts(ip, L):
    """the facts of the set-up are kept"""
    cs = {n: (r, v) for n, (r, v) in containers(ip, L.env).items() if n in ip.cx.ghost["loopkept"] and r in ("pure", "vc", "vad")}
    no = FINAL.get(ip.spec.prop, ())
    return [(a, b) for a, b in all_facts(ip, cs, ISC) if a.split(": ", 1)[-1] not in no]
def extra_inv(ip, L):
    c = z3.Int("c")
    vs = [v for n, v in L.env.vars.items() if n in ip.cx.ghost["loopnames"] and isinstance(v, Sym) and isinstance(res(v.ty), TSeq) and isinstance(res(res(v.ty).el), TRef)]
    return [("the additional constraints are at hand", forall([c], ADDC(c) == ELS(SE(v.t), SL(v.t))[c], [ELS(SE(v.t), SL(v.t))[c], ADDC(c)])) for v in vs]

# ---------------------------------------------------------------- locals of the search by role
def is_opt_int(v): return isinstance(v, Sym) and isinstance(res(v.ty), TOpt) and res(res(v.ty).ty) is TInt
def signature(ip, L):
    """which local holds the timeout and the limit in force; the same on every way to the loop"""
    cx = ip.cx
    sig = {}
    for n, v in sorted(L.env.vars.items()):
        if is_opt_int(v):
            for nm, c in (("timeout", TEFF), ("limit", LEFF)):
                if cx.solver.check(v.t != c) == z3.unsat: sig[n] = nm
    return sig
def cut_pre(ip, L):
    cx = ip.cx
    used = names_in(L.node) | {n.id for n in ast.walk(L.node.test) if isinstance(n, ast.Name)}
    sig = signature(ip, L) if ip.spec.prop == "C08" else {}
    types = {}
    for n, v in L.env.vars.items():
        if n in used and v is not UNDEF:
            try: types[n] = repr(ip.typeof(v)) if not (isinstance(v, Tup) and not v.els) else "()"
            except Unsupported: types[n] = "?"
    t = cx.task
    # every way to the loop must agree on the locals the loop uses (the body is verified from one of them)
    if ip.spec.phase == "entry":
        old = getattr(t, "cutsig", None)
        if old is not None and t.cutround is t.obls and (old[0] != sig or any(old[1].get(n, x) != x for n, x in types.items() if n in old[1])): raise AnnotationMismatch("the ways to the search differ in their locals")
        if old is None or t.cutround is not t.obls: t.cutsig, t.cutround = (sig, types), t.obls
    cx.ghost["sig"] = sig
    cx.ghost["loopnames"] = used
    cx.ghost["loopkept"] = used - set(assigned_names(L.node.body))
def timer_of(ip, L):
    v = L.pick(TRef, "timer", lambda v: res(v.ty).cls == "Timer")
    return v
def counter_of(L):
    try: return L.pick(type(TInt), "num_solutions")
    except AnnotationMismatch: return None
def main_pre(ip, L):
    cx = ip.cx
    cut_pre(ip, L)
def main_inv(ip, L):
    cx = ip.cx
    s = ip.spec.self_
    out = []
    sig = cx.ghost["sig"]
    if ip.spec.prop == "C08":
        t = timer_of(ip, L).t
        ntot = cx.ghost["ntot"]
        for n, k in sig.items(): out.append(("%s holds the %s in force" % (n, k), ip.enc(L[n], TOpt(TInt)) == (TEFF if k == "timeout" else LEFF)))
        c = counter_of(L)
        out += [("the solver reports the timer of this search", z3.And(fld(ip, s, "_timer") == t, t >= A0, t < cx.alloc, CLS(t) == ip.cid["Timer"])),
                ("the timer is running", z3.And(fld(ip, t, "_t_start") != 0, fld(ip, t, "_t_start") == SOME(UNSOME(fld(ip, t, "_t_start"))))),
                ("the timer counts the solutions", fld(ip, t, "_count") == ntot),
                ("no interruption is reported", fld(ip, s, "_interrupt") == 0),
                ("the limit is not reached", z3.And(ntot >= 0, z3.Implies(LEFF != 0, ntot < UNSOME(LEFF))))]
        if c is not None: out.append(("solutions are counted", c.t == ntot))
    if ip.spec.prop == "C20":
        t = timer_of(ip, L).t
        out += [("the timer is the search's own, and running", z3.And(t >= A0, t < cx.alloc, CLS(t) == ip.cid["Timer"], fld(ip, t, "_t_start") != 0, fld(ip, t, "_t_start") == SOME(UNSOME(fld(ip, t, "_t_start")))))]
        out += own_containers(ip, L) + frame(ip, s)
    if ip.spec.prop == "C07":
        t = timer_of(ip, L).t
        out += [("the timer is the search's own, and running", z3.And(t >= A0, t < cx.alloc, CLS(t) == ip.cid["Timer"], fld(ip, t, "_t_start") != 0, fld(ip, t, "_t_start") == SOME(UNSOME(fld(ip, t, "_t_start")))))]
    if ip.spec.prop in ("C06", "C07"): out += own_containers(ip, L) + stack_inv(ip, L) + search_facts(ip, L) + extra_inv(ip, L)
    return out
def local_containers(ip, L, ty):
    out = {}
    for n, v in L.env.vars.items():
        if isinstance(v, Sym) and isinstance(res(v.ty), ty): out[n] = v
    return out
def own_containers(ip, L):
    """what the search changes is its own: the containers it holds, and the lists in the dictionary of remaining values"""
    cx = ip.cx; out = []
    stack = stack_of(L); E, n = cx.rd("L.el", stack.t), cx.rd("L.len", stack.t)
    d, x = z3.Ints("d x")
    own = lambda t: z3.And(t >= A0, t < cx.alloc)
    out.append(("the stack is the search's own", z3.And(own(stack.t), n >= 0)))
    out.append(("the assignments on the stack are objects of their own", forall([d], z3.Implies(z3.And(0 <= d, d < n), own(TUPF(1)(E[d]))), [E[d]])))
    for nm, v in local_containers(ip, L, TDict).items():
        ty = res(v.ty); r = role(ip, v)
        if nm not in ip.cx.ghost["loopnames"]: continue
        if r == "domains":
            dom, val = cx.rd("D.dom", v.t), cx.rd("D.val", v.t)
            out.append(("%s: the lists of remaining values are the search's own" % nm, z3.And(own(v.t), forall([x], z3.Implies(dom[x], z3.And(own(val[x]), val[x] != stack.t)), [val[x]]))))
        elif ty.default is not None:
            out.append(("%s is the search's own" % nm, own(v.t)))
            out.append((nm + ": " + boxes(ip, v.t, ty.default)[0], boxes(ip, v.t, ty.default)[1]))
    ds = [v.t for nm, v in local_containers(ip, L, TDict).items() if nm in ip.cx.ghost["loopnames"] and nm in ip.cx.ghost["loopkept"]]
    if len(ds) > 1: out.append(("the dictionaries of the search are different objects", z3.Distinct(*ds)))
    if ip.spec.prop != "C20":
        out.append(("the assignments on the stack are not other dictionaries of the search", forall([d], z3.Implies(z3.And(0 <= d, d < n), z3.And(*[TUPF(1)(E[d]) != t for t in ds])), [E[d]])))
        dm = domains_of(ip, L)
        l = [OWN(stack.t) == 0]
        if dm is not None: l.append(forall([x], z3.Implies(cx.rd("D.dom", dm.t)[x], OWN(cx.rd("D.val", dm.t)[x]) == 0), [cx.rd("D.val", dm.t)[x]]))
        out.append(("stack and lists of remaining values belong to no other dictionary", z3.And(*l)))
    return out
def stack_of(L): return L.pick(TList, "stack", lambda v: isinstance(res(res(v.ty).el), TTup))
def main_mods(ip, L): return {}
def main_step(ip, L):
    cx = ip.cx
    cx.ghost["alloc_head"] = cx.alloc
    cx.ghost["readings"] = ()
    if ip.spec.prop == "C08":
        t = timer_of(ip, L).t
        cx.ghost["acc0"], cx.ghost["start0"] = fld(ip, t, "_t_elapsed"), fld(ip, t, "_t_start")
def changed_here(ip, L):
    """the containers the loop over the values of a variable changes: assignment, list of values, and the default dictionaries it looks into"""
    subs, apps = mutated(L.node)
    e = L.env.vars
    get = lambda n, ty: e[n] if n in e and isinstance(e[n], Sym) and isinstance(res(e[n].ty), ty) else None
    ds = [get(n, TDict) for n in subs]; ls = [get(n, TList) for n in apps]
    if None in ds or None in ls: raise AnnotationMismatch("the loop over the values changes something else")
    df = [v for n, v in local_containers(ip, L, TDict).items() if res(v.ty).default is not None and n in names_in(L.node)]
    return ds, ls, df
def dom_inv(ip, L):
    cx = ip.cx
    if ip.spec.prop == "C20":
        ds, ls, df = changed_here(ip, L)
        return [("default entries: " + boxes(ip, v.t, res(v.ty).default)[0], boxes(ip, v.t, res(v.ty).default)[1]) for v in df]
    if ip.spec.prop in ("C06", "C07"): return values_inv(ip, L)
    return []
def values_inv(ip, L):
    """the values looked at so far are kept exactly when they can be given to the variable"""
    cx = ip.cx
    ds, ls, df = changed_here(ip, L)
    if len(ds) != 1 or len(ls) != 1: raise AnnotationMismatch("the loop over the values changes something else")
    sub, lst = ds[0], ls[0]
    xv = assigned_key(ip, L)
    e = entry_of(ip, L); h0 = e["heap"]
    dom0, val0 = z3.Select(h0["D.dom"], sub.t), z3.Select(h0["D.val"], sub.t)
    dom, val = cx.rd("D.dom", sub.t), cx.rd("D.val", sub.t)
    y, j = z3.Ints("y j")
    n, el = cx.rd("L.len", lst.t), cx.rd("L.el", lst.t)
    out = [("the other variables keep their values", forall([y], z3.Implies(y != xv, z3.And(dom[y] == dom0[y], val[y] == val0[y])), [dom[y], val[y]])),
           ("the list of values is a list", n >= 0)]
    for v in df:
        r = role(ip, v)
        out += [(r + ": " + a, b) for a, b in all_facts(ip, {r: (r, v)}, ISC)]
    if ip.spec.prop == "C07":
        E, i = arr_seq(L), L.idx
        xi, xj = z3.Ints("i j")
        return out + [("kept values are values looked at", forall([j], z3.Implies(z3.And(0 <= j, j < n), ELS(E, i)[el[j]]), [el[j]])),
                      ("no value is kept twice", forall([xi, xj], z3.Implies(z3.And(0 <= xi, xi < xj, xj < n), el[xi] != el[xj]), [(el[xi], el[xj])])),
                      ("the value of a solution that agrees so far is kept", z3.Implies(z3.And(FD(val0, POS(xv)) == POS(xv), ELS(E, i)[H[xv]]), ELS(el, n)[H[xv]]))]
    if ip.spec.prop == "C06":
        for nm, qs, f, ps in p5(val0, POS(xv), xv, el[j]):
            out.append((nm, forall([j] + qs, z3.Implies(z3.And(0 <= j, j < n), f), [tuple([el[j]] + ps) if ps else el[j]])))
    return out
def dom_mods(ip, L):
    if ip.spec.prop == "C08": return {m: None for m in HEAP_SORTS}
    ds, ls, df = changed_here(ip, L)
    anyof = lambda l: (lambda r: z3.Or(*[r == v.t for v in l]) if l else z3.BoolVal(False))
    return {"D.dom": anyof(ds + df), "D.val": anyof(ds + df), "L.len": anyof(ls), "L.el": anyof(ls), "S.dom": anyof([])}
def assigned_key(ip, L):
    """the variable the loop over the values assigns"""
    key = {ast.dump(n.slice): n.slice for b in L.node.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)}
    if len(key) != 1: raise AnnotationMismatch("the loop over the values assigns several variables")
    return ip.enc(ip.ev_slice(next(iter(key.values())), L.env), TStr)
def dom_step(ip, L):
    if ip.spec.prop == "C07":
        els_step(ip, L)
        ds, ls, df = changed_here(ip, L)
        if len(ls) == 1: ip.cx.ghost["kept_head"] = (ip.cx.rd("L.len", ls[0].t), ip.cx.rd("L.el", ls[0].t))
        if L.seq.src is not None and L.seq.src[0] == "arr":
            a, i = L.seq.src[1], L.idx
            ip.cx.assume(z3.Implies(z3.And(0 <= i, i < L.seq.n), ELS(a, L.seq.n)[a[i]]))     # an instance of the definition of ELS
    if ip.spec.prop == "C06":
        v = L.seq.get(L.idx)
        if L.seq.src is not None and L.seq.src[0] == "arr":
            a, i = L.seq.src[1], L.idx
            ip.cx.assume(z3.Implies(z3.And(0 <= i, i < L.seq.n), ELS(a, L.seq.n)[a[i]]))     # an instance of the definition of ELS
        ip.cx.check(OKV(assigned_key(ip, L), ip.int_(v)), "those looked at: values are possible")
def dom_hints(ip, L):
    """C07, at the end of an iteration: if the assignment agrees with the solution so far and the value is that of the solution, nothing rejects it"""
    if ip.spec.prop != "C07": return
    cx = ip.cx
    ds, ls, df = changed_here(ip, L)
    if len(ds) != 1 or len(ls) != 1: raise AnnotationMismatch("the loop over the values changes something else")
    sub, lst = ds[0], ls[0]
    x = assigned_key(ip, L)
    val0 = z3.Select(entry_of(ip, L)["heap"]["D.val"], sub.t)
    dom, val, n, el = cx.fresh("domn", AB), cx.fresh("valn", AI), cx.fresh("nn"), cx.fresh("eln", AI)
    cx.assume(z3.And(dom == cx.rd("D.dom", sub.t), val == cx.rd("D.val", sub.t), n == cx.rd("L.len", lst.t), el == cx.rd("L.el", lst.t)))
    n0, el0 = cx.ghost["kept_head"]
    y, c = z3.Ints("y c")
    E, i = arr_seq(L), L.idx - 1
    ep = cx.ghost["epoch"]
    here = z3.And(FD(val0, POS(x)) == POS(x), E[i] == H[x])
    cx.check(z3.Or(ELS(E, i + 1)[H[x]] == ELS(E, i)[H[x]], E[i] == H[x]), "either this value is that of the solution or nothing new is looked at")
    cx.check(z3.And(n >= n0, forall([y], z3.Implies(z3.And(0 <= y, y < n0), el[y] == el0[y]), [el[y]])), "the list of kept values grows")
    cx.check(z3.Implies(ELS(el0, n0)[H[x]], ELS(el, n)[H[x]]), "kept values stay kept")
    cx.check(z3.Implies(here, forall([y], z3.Implies(dom[y], val[y] == H[y]), [dom[y], val[y]])), "the assignment agrees with the solution")
    cx.check(z3.Implies(here, forall([c], z3.Implies(z3.And(ISC(c), BOUND(c, dom)), TR(c, val, E0)), [BOUND(c, dom), TR(c, val, E0)])), "constraints are satisfied as in the solution")
    cx.check(z3.Implies(here, forall([y], z3.Implies(z3.And(dom[y], ADP(x, y)), val[y] != H[x]), [ADP(x, y)])), "values forced apart are different in the solution")
    cx.check(z3.Implies(here, ELS(el, n)[H[x]]), "the value of the solution is kept")
DOMLOOP = LoopSpec(dom_inv, mods=dom_mods, pre=note_entry, step=dom_step, hints=dom_hints)
SearchSpec.DOMLOOP = DOMLOOP
MAIN = LoopSpec(main_inv, mods=main_mods, pre=main_pre, step=main_step, cut=True)

# ---------------------------------------------------------------- yields and ends
def solve_yield(spec, ip, v, env):
    {"C08": yield_c08, "C20": yield_c20, "C06": yield_c06, "C07": yield_c07}[spec.prop](spec, ip, v, env)
SearchSpec.on_yield = lambda self, ip, v, env: solve_yield(self, ip, v, env)
def elapsed_at(ip, t, acc, start): return acc + (t - UNSOME(start))
def yield_c08(spec, ip, v, env):
    cx = ip.cx; s = spec.self_
    cx.ghost["ntot"] = n = cx.ghost["ntot"] + 1
    t = fld(ip, s, "_timer")
    cx.check(fld(ip, t, "_count") == n, "the reported count is the number of solutions yielded")
    cx.check(fld(ip, s, "_interrupt") == 0, "no interruption is reported while the search can go on")
    cx.check(z3.Implies(LEFF != 0, n <= UNSOME(LEFF)), "at most as many solutions as the limit allows")
    acc, st = cx.ghost["acc0"], cx.ghost["start0"]
    cx.check(z3.Implies(TEFF != 0, z3.Or(*[elapsed_at(ip, r, acc, st) <= UNSOME(TEFF) for r in cx.ghost.get("readings", ())] + [z3.BoolVal(False)])), "the timeout is looked at before a solution is yielded")
    # the caller: may change the settings of the solver and use the solution
    for m in ("f:_timeout", "f:_limit", "f:_var_selection_policy", "f:_compile_constraints"): cx.heap[m] = cx.fresh("Y:" + m, heap_sort(m))
    if isinstance(v, Sym) and isinstance(res(v.ty), TDict):
        for m in ("D.dom", "D.val"): cx.wr(m, v.t, cx.fresh("yd", heap_sort(m).range()), op="hv")
    cx.ghost["readings"] = ()
def yield_c06(spec, ip, v, env):
    cx = ip.cx; s = spec.self_
    if not (isinstance(v, Sym) and isinstance(res(v.ty), TDict)): raise AnnotationMismatch("what is yielded is not a dictionary")
    dom, A = cx.rd("D.dom", v.t), cx.rd("D.val", v.t)
    x, c = z3.Ints("x c")
    cx.check(forall([x], dom[x] == MV(x)), "a solution binds exactly the variables of the model")
    k = NV
    for nm, g in p6(A, NV): cx.check(g, "in a solution, " + nm)
    cx.assume(forall([x], z3.Implies(MV(x), OKV(x, A[x])), [MV(x)]), tag="bound values satisfy the constraints about one variable")   # the first of them, for every variable
    cx.check(forall([x], z3.Implies(MV(x), ORIG(x, A[x]))), "every value of a solution is in the domain of its variable")
    ep = cx.ghost["epoch"]
    for nm, P in (("all-different constraint", lambda c: ADK(c)), ("constraint about one variable", single), ("constraint about several variables", multi)):
        cx.check(forall([c], z3.Implies(z3.And(MODC(c), P(c)), TR(c, A, ep))), "a solution satisfies every %s of the model" % nm)
    cx.check(forall([c], z3.Implies(ADDC(c), TR(c, A, ep))), "a solution satisfies every additional constraint")
    interference(ip, s, v)
def yield_c07(spec, ip, v, env):
    cx = ip.cx
    if not (isinstance(v, Sym) and isinstance(res(v.ty), TDict)): raise AnnotationMismatch("what is yielded is not a dictionary")
    cx.ghost["cnt"] = cx.ghost["cnt"] + z3.If(FD(cx.rd("D.val", v.t), NV) == NV, 1, 0)
    interference(ip, spec.self_, v)
def end_c07(ip, s):
    cx = ip.cx
    if cx.ghost.get("interrupted"): return
    if cx.ghost["where"] != "main": cx.check(z3.BoolVal(False), "a search of a model with variables looks for solutions"); return
    cx.check(cx.ghost["cnt"] == 1, "at the end of a search, each solution has been yielded exactly once")
def interference(ip, s, v):
    """others may run now: the caller changes the solution as it likes, other searches use the solver"""
    cx = ip.cx
    for m in ("D.dom", "D.val"): cx.wr(m, v.t, cx.fresh("yd", heap_sort(m).range()), op="hv")
    for m in ("f:_timer", "f:_interrupt"): cx.wr(m, s.t, cx.fresh("ot"), op="hv")
    cx.heap["f:_evaluate_function"] = cx.fresh("Y", heap_sort("f:")); cx.ghost["epoch"] = cx.fresh("epoch")
    a = cx.fresh("alloc"); cx.assume(a >= cx.alloc); cx.alloc = a
def yield_c20(spec, ip, v, env):
    """others may run now: the caller changes the solution as it likes, other searches use the solver"""
    cx = ip.cx; s = spec.self_
    for nm, g in frame(ip, s): cx.check(g, nm)
    if not (isinstance(v, Sym) and isinstance(res(v.ty), TDict)): raise AnnotationMismatch("what is yielded is not a dictionary")
    stack = stack_of(Locals(ip, ip.top_env)); E, n = cx.rd("L.el", stack.t), cx.rd("L.len", stack.t)
    d = z3.Int("d")
    cx.check(v.t >= cx.ghost["alloc_head"], "a solution is an object made for it (no other solution is this object)")
    cx.check(forall([d], z3.Implies(z3.And(0 <= d, d < n), TUPF(1)(E[d]) != v.t), [E[d]]), "the search does not keep the solution it has yielded")
    for nm, x in local_containers(ip, Locals(ip, ip.top_env), TDict).items():
        if nm in cx.ghost["loopnames"] and res(x.ty) != res(v.ty): cx.check(x.t != v.t, "the search does not keep the solution it has yielded")
    interference(ip, s, v)
def end_c20(ip, s):
    for nm, g in frame(ip, s): ip.cx.check(g, nm)
def end_c08(ip, s):
    cx = ip.cx
    ntot = cx.ghost["ntot"]
    t = fld(ip, s, "_timer")
    i = fld(ip, s, "_interrupt")
    lim, tmo = ip.enc(PyC("limit"), TOpt(TStr)), ip.enc(PyC("timeout"), TOpt(TStr))
    cx.check(fld(ip, t, "_count") == ntot, "the reported count is the number of solutions yielded")
    cx.check(z3.Or(i == 0, i == lim, i == tmo), "an interruption is 'limit' or 'timeout'")
    cx.check(z3.Implies(i == lim, z3.And(LEFF != 0, ntot >= UNSOME(LEFF))), "'limit' is reported only when the limit is reached")
    cx.check(z3.Implies(z3.And(LEFF != 0, ntot >= UNSOME(LEFF)), i == lim), "a search cut at its limit reports it")
    acc, st = cx.ghost.get("acc0"), cx.ghost.get("start0")
    over = [z3.And(TEFF != 0, elapsed_at(ip, r, acc, st) > UNSOME(TEFF)) for r in cx.ghost.get("readings", ())] if acc is not None else []
    cx.check(z3.Implies(i == tmo, z3.Or(*over + [z3.BoolVal(False)])), "'timeout' is reported only when the time is over")
    if cx.ghost.get("where") == "main":
        st = stack_of(Locals(ip, ip.top_env))
        cx.check(z3.Implies(i == 0, cx.rd("L.len", st.t) == 0), "a search that reports no interruption was exhaustive: nothing is left to try")

def solve_task(repo, prop, phase, policy=None, once=True):
    def run(cx):
        ip, s, m = begin(repo, cx, prop, spec=SearchSpec)
        spec = ip.spec; spec.phase = phase; spec.self_ = s
        f = fn(repo, SM, "Solver.solve"); ip.verifying = f.qual
        cx.ghost["where"] = "policy"
        if prop in ("C06", "C07"): cx.relevance = relevant
        cx.ghost["ntot"] = z3.IntVal(0)
        cx.ghost["cnt"] = z3.IntVal(0)
        add = extra(ip, once)
        if prop == "C07":
            solution_h(cx)
            cx.assume(MV(z3.Int("some_variable")))                 # the model has a variable
            cx.assume(cx.rd("f:" + SOLV, m.t) != 0)                # and a solution, so it is not marked unsolvable (C05)
        opt = lambda n: Sym(TOpt(TInt), z3.Int(n))
        kw = {}
        for n, E in (("timeout", TEFF), ("limit", LEFF)):
            g, o = z3.Bool(n + "_given"), z3.Int(n + "_arg")
            own = cx.rd("f:_" + n, s.t)
            for q in (o, own): cx.assume(z3.Or(q == 0, q == SOME(UNSOME(q))))
            if n == "limit":
                for q in (o, own): cx.assume(z3.Implies(q != 0, UNSOME(q) >= 1))
            kw[n] = (g, Sym(TOpt(TInt), o))
            cx.assume(E == z3.If(g, o, own))
        kw["var_selection_policy"] = (z3.BoolVal(True), EnumV("VarSelectionPolicy", policy, ip.enum_members("VarSelectionPolicy").index(policy)) if policy else Sym(TEnum("VarSelectionPolicy"), z3.Int("policy")))
        if not policy: ip.wf(kw["var_selection_policy"][1])
        kw["additional_constraints"] = (z3.BoolVal(True), add)
        cx.ghost["cut"] = len(cx.pc)
        try: ip.run_body(f, [s, m], {"**": KwV(kw)}, gen=True)
        except CutEnd: return
        except PyRaise as e:
            if prop in ("C06", "C08", "C20"):
                if prop == "C20": end_c20(ip, s)
                if prop != "C06": cx.check(z3.BoolVal(e.exc != "RuntimeError"), "no failure in the bookkeeping (raised %s)" % e.exc)
                return
            cx.check(z3.BoolVal(False), "a search never fails (raised %s)" % e.exc); return
        {"C08": end_c08, "C20": end_c20, "C06": lambda ip, s: None, "C07": end_c07}[prop](ip, s)
    t = Task("Solver.solve (%s%s)" % (phase, ", " + policy if policy else ""), run, axioms={"C08": [], "C20": [own_axiom()]}.get(prop) if prop in ("C08", "C20") else lean() + (order_axioms() if phase == "body" else []) + (agree_axioms() if prop == "C07" and phase == "body" else []), functions=["Solver.solve"])
    t.dry = prop in ("C06", "C07", "C20")
    if t.dry: t.feas_ms = 40
    return t
from pyvc.run import CutEnd, Locals

def report_tasks(repo):
    """the settings and the report of a solver"""
    need_fields(repo, "Solver", ["_timer", "_interrupt", "_timeout", "_limit"])
    def arg(n, inf):
        def mk(ip):
            if inf: return PyC(("singleton", "Infinity"))
            return Sym(TOpt(TInt), z3.Int(n))
        return mk
    out = []
    def init(inf):
        def setup(ip, o):
            a = {n: arg(n, inf)(ip) for n in ("timeout", "limit")}
            if not inf:
                for v in a.values(): ip.cx.assume(z3.Or(v.t == 0, v.t == SOME(UNSOME(v.t))))
            return [], a, a
        def post(ip, o, ret, exc, a):
            cx = ip.cx
            cx.check(z3.BoolVal(exc is None), "making a solver never fails")
            if exc: return
            for n in ("timeout", "limit"):
                v = fld(ip, o, "_" + n)
                cx.check(v == (0 if inf else a[n].t), "the %s given is kept (infinite: none)" % n)
            t = fld(ip, o, "_timer")
            cx.check(z3.And(t >= A0, fld(ip, t, "_count") == 0, fld(ip, o, "_interrupt") == 0), "a new solver reports no solutions and no interruption")
        return method_task("Solver.__init__%s" % (" (infinite)" if inf else ""), repo, SearchSpec, "Solver", "__init__", setup, post, mod=SM)
    out += [init(False), init(True)]
    def setter(n, inf):
        def setup(ip, o):
            v = arg(n, inf)(ip)
            if not inf: ip.cx.assume(z3.Or(v.t == 0, v.t == SOME(UNSOME(v.t))))
            ip.cx.hp("f:_timer"); ip.cx.hp("f:_interrupt")
            return [], {}, (v, dict(ip.cx.heap))
        def run(cx):
            ip = VC(repo, SearchSpec(repo), cx)
            o = Sym(TRef("Solver"), z3.Int("self")); ip.wf(o); cx.assume(CLS(o.t) == ip.cid["Solver"])
            ip.verifying = "Solver.%s" % n; ip.callstack = [ip.verifying]
            _, _, (v, h) = setup(ip, o)
            try: ip.setattr_(o, n, v); exc = None
            except PyRaise as e: exc = e
            cx.check(z3.BoolVal(exc is None), "setting the %s never fails" % n)
            if exc: return
            try: r = ip.getattr_(o, n)
            except PyRaise: cx.check(z3.BoolVal(False), "reading the %s never fails" % n); return
            cx.check(ip.enc(r, TOpt(TInt)) == (0 if inf else v.t), "the %s set is the %s read (infinite: none)" % (n, n))
            cx.check(fld(ip, o, "_" + n) == (0 if inf else v.t), "the %s set is the one used (infinite: none)" % n)
        return Task("Solver.%s%s" % (n, " (infinite)" if inf else ""), run, functions=["Solver.%s" % n])
    out += [setter(n, i) for n in ("timeout", "limit") for i in (False, True)]
    def stats(cls):
        def setup(ip, o):
            cx = ip.cx
            sv = o
            if cls != "Solver":
                sv = Sym(TRef("Solver"), cx.rd("f:_solver", o.t)); ip.wf(sv); cx.assume(CLS(sv.t) == ip.cid["Solver"])
            t = cx.rd("f:_timer", sv.t); cx.assume(z3.And(t >= 1, t < cx.alloc, CLS(t) == ip.cid["Timer"]))
            i = cx.rd("f:_interrupt", sv.t)
            return [], {}, (sv, t)
        def post(ip, o, ret, exc, st):
            cx = ip.cx; sv, t = st
            cx.check(z3.BoolVal(exc is None), "the statistics can always be read")
            if exc: return
            H = lambda m: z3.Const("H0:f:" + m, heap_sort("f:"))
            cx.check(ip.int_(ip.getattr_(ret, "count")) == H("_count")[t], "the statistics report the count of the timer")
            cx.check(ip.enc(ip.getattr_(ret, "interrupt"), TOpt(TStr)) == H("_interrupt")[sv.t], "the statistics report the interruption")
            for m in ("_count", "_interrupt", "_timer", "_t_start", "_t_elapsed"): cx.check(cx.hp("f:" + m) == H(m), "reading the statistics changes nothing")
        return method_task("%s.get_stats" % cls, repo, SearchSpec, cls, "get_stats", setup, post, mod=SM)
    out += [stats("Solver"), stats("ModelSolver")]
    return out
# ---------------------------------------------------------------- the solver of a model
class PassSpec(SolverSpec):
    """Solver.solve is known by its contract: a generator of solutions of the model it is given"""
    def __init__(self, repo):
        super().__init__(repo)
        q = SM + ":Solver.solve"
        self.CONTRACTS = {q: Contract(q, gen=True)}
    def on_yield_from(self, ip, v, env):
        ip.cx.ghost["passed"] = ip.cx.ghost.get("passed", ()) + (("all", v),)
    def on_yield(self, ip, v, env):
        ip.cx.ghost["passed"] = ip.cx.ghost.get("passed", ()) + (("one", v),)
    def for_generator(self, ip, s, gen, env):
        """for x in solutions: the body must pass on the solution it is given, once, and do nothing else"""
        cx = ip.cx
        sol = ip.fresh(TDict(TStr, TInt), "solution")
        before = cx.ghost.get("passed", ()); heap = dict(cx.heap)
        ip.assign(s.target, sol, env)
        ip.block(s.body, env)
        new = cx.ghost.get("passed", ())[len(before):]
        same = len(new) == 1 and new[0][0] == "one" and isinstance(new[0][1], Sym) and new[0][1].t.eq(sol.t)
        if not same: raise AnnotationMismatch("the loop over the solutions does more than pass them on")
        for m in cx.heap: cx.check(cx.heap[m] == heap.get(m, cx.heap[m]), "solutions are passed on as they are")
        cx.ghost["passed"] = before + (("all", gen),)
        ip.block(s.orelse, env)
def pass_task(repo):
    def run(cx):
        ip = VC(repo, PassSpec(repo), cx)
        f = fn(repo, SM, "ModelSolver.__iter__"); ip.verifying = f.qual
        o = Sym(TRef("ModelSolver"), z3.Int("self")); ip.wf(o); cx.assume(CLS(o.t) == ip.cid["ModelSolver"])
        try: ret = ip.run_body(f, [o], {}, gen=has_gen(f)); exc = None
        except PyRaise as e: cx.check(z3.BoolVal(False), "iterating never fails (raised %s)" % e.exc); return
        p = cx.ghost.get("passed", ())
        if not has_gen(f):
            if isinstance(ret, BuiltinV) and ret.name == "iter": ret = ret.self_
            if not isinstance(ret, SolverGen): raise AnnotationMismatch("what __iter__ returns")
            p = (("all", ret),)
        cx.check(z3.BoolVal(len(p) == 1 and p[0][0] == "all" and isinstance(p[0][1], SolverGen)), "exactly the solutions of the solver are passed on")
        if not (len(p) == 1 and isinstance(p[0][1], SolverGen)): return
        a = p[0][1].args
        kw = a.get("args")
        cx.check(a["self"].t == cx.rd("f:_solver", o.t), "they are the solutions found by its solver")
        cx.check(a["model"].t == cx.rd("f:_model", o.t), "they are the solutions of its model")
        cx.check(z3.BoolVal(isinstance(kw, KwV) and not kw.entries), "with the settings of the solver")
    from pyvc.run import has_yield
    has_gen = lambda f: has_yield(f.node)
    return Task("ModelSolver.__iter__", run, functions=["ModelSolver.__iter__"])
def tasks_for(repo, prop):
    extra = report_tasks(repo) if prop == "C08" else [setup_task(repo, "C20")] if prop == "C20" else shared(lambda r: setup_task(r, prop), repo, 2) if prop in ("C06", "C07") else []
    extra.append(pass_task(repo))
    return search_tasks(repo, prop)[::-1] + extra if prop in ("C06", "C07") else extra + search_tasks(repo, prop)
def search_tasks(repo, prop):
    ms = [n for n in repo.classes["VarSelectionPolicy"].attrs]
    body = lambda r: solve_task(r, prop, "body", "ORDERED")
    return [solve_task(repo, prop, "entry", p) for p in ms] + (shared(body, repo, 2) if prop in ("C06", "C07") else [body(repo)])
def tasks(repo): return tasks_for(repo, "C08")
