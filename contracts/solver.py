"""C06, C07, C08, C20: contracts of solver.py (Solver._setup, Solver.solve).

Problem view (rigid: it does not depend on the heap)
  MV(x)        x is a variable of the model with a domain          ORIG(x,v)  v is in the domain of x
  ISC(c)       c is a constraint of the model or an additional one (MODC, ADDC)
  TR(c,a,e)    c is true under the assignment a, with the parameters at their values in epoch e (STATIC: in any epoch);
               it depends on the variables CVARS(c) of c only; an all-different constraint is true iff a is injective on them
  BOUND(c,d)   the domain d of a dictionary contains CVARS(c)
  H            an arbitrary assignment; for C07 an arbitrary solution
Search view: V the chosen order of the variables, POS its inverse; stack, domains as in the code.
  GOOD(a,x,v)  v can be given to x after the assignment a of the variables before x: no constraint that a[x:=v] decides is broken
"""
import ast
from .model import *
from .timer import TimerSpec

SM = "satisfy.solver"
TR = z3.Function("tr", I, AI, I, B)
TRW = z3.Function("tr_diff", I, AI, AI, I)
STATIC, MODC, ADDC, ISC, ADK = [z3.Function(n, I, B) for n in ("static", "modc", "addc", "isc", "adk")]
ADX, ADY = z3.Function("ad_x", I, AI, I), z3.Function("ad_y", I, AI, I)
BOUND, UB = z3.Function("bound", I, AB, B), z3.Function("unbound_w", I, AB, I)
MV = z3.Function("mvar", I, B)
ORIG = z3.Function("orig", I, I, B)
ADP, ADC = z3.Function("adpair", I, I, B), z3.Function("adpair_c", I, I, I)
ONEA = z3.Function("onea", I, I, AI)
OKV, OKC = z3.Function("okv", I, I, B), z3.Function("okv_c", I, I, I)
OWN, OWNK = z3.Function("own", I, I), z3.Function("own_key", I, I)
VREF = z3.Function("vars_ref", I, I)
ELT = z3.Function("only_element", AB, I)
E0 = z3.Int("epoch0")
H = z3.Const("Hsol", AI)

def single(c): return z3.And(z3.Not(ADK(c)), CARD(CVARS(c)) == 1)
def multi(c): return z3.And(z3.Not(ADK(c)), CARD(CVARS(c)) > 1)
def own_axiom():
    x = z3.Int("x")
    return forall([x], z3.Implies(x < z3.Int("alloc0"), OWN(x) == 0), [OWN(x)])
def solver_axioms():
    a, b = z3.Consts("a b", AI); d = z3.Const("d", AB); c, e, x, y, v = z3.Ints("c e x y v")
    w = TRW(c, a, b)
    k = ADC(x, y); o = OKC(x, v)
    X, Y = ADX(c, a), ADY(c, a)
    return [
        forall([c, a, b, e], z3.Or(TR(c, a, e) == TR(c, b, e), z3.And(CVARS(c)[w], a[w] != b[w])), [(TR(c, a, e), TR(c, b, e))]),
        forall([c, a, e], z3.Implies(STATIC(c), TR(c, a, e) == TR(c, a, E0)), [TR(c, a, e)]),
        forall([c, a, e, x, y], z3.Implies(z3.And(ADK(c), TR(c, a, e), CVARS(c)[x], CVARS(c)[y], x != y), a[x] != a[y]), [(TR(c, a, e), CVARS(c)[x], CVARS(c)[y])]),
        forall([c, a, e], z3.Implies(z3.And(ADK(c), z3.Not(TR(c, a, e))), z3.And(CVARS(c)[X], CVARS(c)[Y], X != Y, a[X] == a[Y])), [TR(c, a, e)]),
        forall([c, d, x], z3.Implies(z3.And(BOUND(c, d), CVARS(c)[x]), d[x]), [(BOUND(c, d), CVARS(c)[x])]),
        forall([c, d], z3.Implies(z3.Not(BOUND(c, d)), z3.And(CVARS(c)[UB(c, d)], z3.Not(d[UB(c, d)]))), [BOUND(c, d)]),
        forall([c], ISC(c) == z3.Or(MODC(c), ADDC(c)), [ISC(c), MODC(c), ADDC(c)]),
        forall([c], z3.Implies(MODC(c), z3.And(STATIC(c), CARD(CVARS(c)) >= 1)), [MODC(c)]),
        forall([c, x], z3.Implies(z3.And(ISC(c), CVARS(c)[x]), MV(x)), [(ISC(c), CVARS(c)[x])]),
        forall([x, y], z3.Implies(ADP(x, y), z3.And(x != y, ISC(k), ADK(k), CVARS(k)[x], CVARS(k)[y])), [ADP(x, y)]),
        forall([c, x, y], z3.Implies(z3.And(ISC(c), ADK(c), CVARS(c)[x], CVARS(c)[y], x != y), ADP(x, y)), [(ISC(c), CVARS(c)[x], CVARS(c)[y])]),
        forall([x, v], ONEA(x, v)[x] == v, [ONEA(x, v)]),
        forall([x, v], z3.Implies(OKV(x, v), ORIG(x, v)), [OKV(x, v)]),
        forall([x, v, c], z3.Implies(z3.And(OKV(x, v), ISC(c), single(c), CVARS(c)[x]), TR(c, ONEA(x, v), E0)), [(OKV(x, v), CVARS(c)[x])]),
        forall([x, v], z3.Implies(z3.Not(OKV(x, v)), z3.Or(z3.Not(ORIG(x, v)), z3.And(ISC(o), single(o), CVARS(o)[x], z3.Not(TR(o, ONEA(x, v), E0))))), [OKV(x, v)]),
        # ownership is about the containers made since the start
        own_axiom(),
        # finite sets
        forall([d, x], z3.Implies(d[x], CARD(d) >= 1), [(CARD(d), d[x])]),
        forall([d, x], z3.Implies(z3.And(CARD(d) == 1, d[x]), x == ELT(d)), [(CARD(d), d[x])]),
    ]

class SolverSpec(ModelSpec):
    card_steps = False
    filter_order = False
    filter_els = True
    set_card = False
    merge_kwargs = True
    prop = None
    FIELDS = dict(ModelSpec.FIELDS)
    FIELDS.update(TimerSpec.FIELDS)
    FIELDS.update({("Solver", "_timer"): TRef("Timer"), ("Solver", "_interrupt"): TOpt(TStr), ("Solver", "_timeout"): TOpt(TInt), ("Solver", "_limit"): TOpt(TInt),
                   ("Solver", "_var_selection_policy"): TEnum("VarSelectionPolicy"), ("Solver", "_compile_constraints"): TBool,
                   ("ModelSolverBase", "_solver"): TRef("Solver"), ("ModelSolverBase", "_model"): TRef("Model")})
    # ---- constraints by contract
    def k_vars(self, ip, o):
        cx = ip.cx
        cx.task.contracts_used.add("Constraint.vars")
        r = VREF(o.t)
        cx.assume(z3.And(r >= 1, r < z3.Int("alloc0"), cx.rd("S.dom", r) == CVARS(o.t)))
        v = Sym(TSet(TStr, True), r); v.fixed = CVARS(o.t)
        return v
    def args_of(self, ip, d):
        if not (isinstance(d, Sym) and isinstance(res(d.ty), TDict)): raise Unsupported("substitution %r" % (d,))
        return ip.cx.rd("D.dom", d.t), ip.cx.rd("D.val", d.t)
    def k_evaluate(self, ip, o, d):
        cx = ip.cx
        cx.task.contracts_used.add("Constraint.evaluate")
        dom, val = self.args_of(ip, d)
        if self.prop not in ("C08", "C20"): cx.check(BOUND(o.t, dom), "precondition of evaluate: the variables of the constraint are bound")
        return Sym(TBool, TR(o.t, val, cx.ghost["epoch"]))
    def k_unsatisfied(self, ip, o, d):
        cx = ip.cx
        cx.task.contracts_used.add("Constraint.unsatisfied")
        dom, val = self.args_of(ip, d)
        return Sym(TBool, z3.And(BOUND(o.t, dom), z3.Not(TR(o.t, val, cx.ghost["epoch"]))))
    def k_free_vars(self, ip, o, d): raise Unsupported("free_vars of a constraint")
    def k_compile(self, ip, o): ip.cx.task.contracts_used.add("Constraint.compile"); return PyC(None)
    def k_reset(self, ip, o): ip.cx.task.contracts_used.add("Constraint.reset"); return PyC(None)
    def k_is_compiled(self, ip, o): return Sym(TBool, ip.cx.fresh("compiled", B))
    def wf_ad(self, ip): return lambda c: z3.Or(*[CLS(c) == ip.cid[k] for k in ip.repo.subclasses("AllDifferentConstraint")])
    # ---- ghost ownership of the containers made by default dictionaries
    def on_new(self, ip, r, owner):
        if owner is None: ip.cx.assume(OWN(r) == 0)
        else: ip.cx.assume(z3.And(OWN(r) == owner[0], OWNK(r) == owner[1]))
    def on_concat(self, ip, a, n, b, m, c, ty):
        x = z3.Int("x")
        ip.cx.assume(forall([x], ELS(c, n + m)[x] == z3.Or(ELS(a, n)[x], ELS(b, m)[x]), [ELS(c, n + m)[x], ELS(a, n)[x], ELS(b, m)[x]]))
    def key_effects(self, ip, lf, maps):
        """a sort key made default entries in one dictionary: it has grown by empty containers"""
        cx = ip.cx
        ds = {r.get_id(): r for (r, k, op) in maps.get("D.dom", []) if op == "dictset"}
        for m in maps:
            for (r, k, op) in maps[m]:
                if op == "dictset" and r.get_id() not in ds or m not in ("D.dom", "D.val", "L.len", "S.dom"): raise Unsupported("key function with effects")
        if len(ds) != 1: raise Unsupported("key function with several effects")
        d = next(iter(ds.values()))
        e = dict(heap=dict(cx.heap), alloc=cx.alloc)
        if mentions_any(d, lf): raise Unsupported("key function with effects")
        new = cx.fresh("alloc"); cx.assume(new >= cx.alloc)
        x, r = z3.Ints("x r")
        for m in maps:
            h = cx.hp(m); h2 = cx.fresh("K", heap_sort(m))
            keep = z3.And(r < cx.alloc, r != d) if m.startswith("D.") else r < cx.alloc
            cx.assume(forall([r], z3.Implies(keep, h2[r] == h[r]), [h2[r]] + ([h[r]] if z3.is_const(h) else [])))
            cx.heap[m] = h2
        cx.alloc = new
        kind = "list" if "L.len" in maps else "set"
        for nm, f in grown(ip, d, kind, e): cx.assume(f)
    # ---- loops
    def loop(self, key, node, ip):
        w = ip.cx.ghost.get("where")
        if isinstance(node, ast.While):
            return None
        subs, apps = mutated(node)
        if not subs and not (w == "main" and apps and any(isinstance(n, ast.For) for b in node.body for n in ast.walk(b))): return "summary"
        if w == "main": return self.DOMLOOP
        if w == "setup": return SETUPLOOP
        return FILL
    def on_yield(self, ip, v, env): solve_yield(self, ip, v, env)

from pyvc.lift import mentions, good_pattern
def mentions_any(t, lf): return any(mentions(t, c) for c in [lf.j, lf.al] + lf.consts)
def has_yield_in(node): return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
def base_name(n):
    while isinstance(n, ast.Subscript): n = n.value
    return n.id if isinstance(n, ast.Name) else None
MUT = {"append", "add", "update", "extend", "insert", "pop", "remove", "discard", "clear", "setdefault", "sort", "reverse"}
def mutated(node):
    """(names of containers changed at a key, names of containers changed as a whole) by a loop body"""
    subs, apps = set(), set()
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and base_name(n): subs.add(base_name(n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and base_name(n.func.value):
                (apps if isinstance(n.func.value, ast.Name) else subs).add(base_name(n.func.value))
    return subs, apps
def names_in(node): return {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name)}

# ---------------------------------------------------------------- containers by role
def role(ip, v):
    if not isinstance(v, Sym): return None
    t = res(v.ty)
    if not isinstance(t, TDict): return None
    k, e = res(t.k), res(t.v)
    if t.default == "set": return "vad"
    if isinstance(k, TVar): ip.untyped(k); return "?"
    if isinstance(e, TVar): ip.untyped(e); return "?"
    if isinstance(e, TList) and k is TStr:
        x = res(e.el)
        if isinstance(x, TRef): return "vc"
        if x is TInt: return "vg" if t.default == "list" else "domains"
        if isinstance(x, TVar): ip.untyped(x)
        return "?"
    if isinstance(e, TSet) and k is TInt: return "groups"
    if isinstance(e, TTup) and k is TStr: return "pure"
    if e is TInt and k is TStr: return "ints"
    return "?"
def containers(ip, env):
    out = {}
    e = ip.fn_env(env)
    for n, v in e.vars.items():
        if v is UNDEF: continue
        r = role(ip, v)
        if r: out[n] = (r, v)
    return out
def one(cs, r):
    l = [v for (k, v) in cs.values() if k == r]
    seen = {}
    for v in l: seen[v.t.get_id()] = v
    if len(seen) > 1: raise AnnotationMismatch("several containers in the role of %s" % r)
    return next(iter(seen.values())) if seen else None

A0 = z3.Int("alloc0")
def plain(a, x):
    """a[x] as a trigger, when a is not a known update"""
    return [a[x]] if good_pattern(a[x]) and not has_store(a) else []
def has_store(a):
    return z3.is_app(a) and (a.decl().kind() == z3.Z3_OP_STORE or a.decl().kind() == z3.Z3_OP_SELECT and has_store(a.arg(0)))
def cont_list(cx, l): return lambda c: ELS(cx.rd("L.el", l), cx.rd("L.len", l))[c]
def boxes(ip, d, kind):
    """the containers of a default dictionary belong to it"""
    cx = ip.cx; x = z3.Int("x")
    dom, val = cx.rd("D.dom", d), cx.rd("D.val", d)
    ok = z3.And(val[x] >= A0, val[x] < cx.alloc, OWN(val[x]) == d, OWNK(val[x]) == x)
    if kind == "list": ok = z3.And(ok, cx.rd("L.len", val[x]) >= 0)
    return ("entries belong to their dictionary", forall([x], z3.Implies(dom[x], ok), [val[x]]))
def grown(ip, d, kind, e):
    """since the state e the dictionary at most got new entries, with empty containers"""
    cx = ip.cx; x, c = z3.Ints("x c")
    h0 = e["heap"]
    dom0, val0 = z3.Select(h0["D.dom"], d), z3.Select(h0["D.val"], d)
    dom, val = cx.rd("D.dom", d), cx.rd("D.val", d)
    new = z3.And(val[x] >= e["alloc"], val[x] < cx.alloc, OWN(val[x]) == d, OWNK(val[x]) == x)
    if kind == "list": new = z3.And(new, cx.rd("L.len", val[x]) == 0)
    else: new = z3.And(new, forall([c], z3.Not(cx.rd("S.dom", val[x])[c])))
    return [("old entries stay", forall([x], z3.Implies(dom0[x], z3.And(dom[x], val[x] == val0[x])), [val[x], val0[x]])),
            ("new entries are empty", forall([x], z3.Implies(z3.And(dom[x], z3.Not(dom0[x])), new), [val[x]]))]

def pure_facts(ip, d, P, h=True):
    """filtered domains, when the constraints P have been looked at"""
    cx = ip.cx
    x, v, c, i, j = z3.Ints("x v c i j")
    dom, val = cx.rd("D.dom", d), cx.rd("D.val", d)
    f = TUPF(1)(val[x]); E, N = COLLE(f), COLLN(f)
    In = ELS(E, N)[v]
    end = [("values are possible", forall([x, v], z3.Implies(z3.And(MV(x), In), OKV(x, v)), [In]))] if P is ISC else []
    return end + [("the variables are those of the model", forall([x], dom[x] == MV(x), [dom[x], MV(x)])),
            ("every variable has a domain", forall([x], z3.Implies(MV(x), f >= 1), [val[x]])),
            ("domains do not repeat values", forall([x, i], z3.Implies(z3.And(MV(x), 0 <= i, i < N), z3.And(ELS(E, N)[E[i]], ELW(E, N, E[i]) == i)), [E[i]])),
            ("values come from the model", forall([x, v], z3.Implies(z3.And(MV(x), In), ORIG(x, v)), [In])),
            ("values satisfy the constraints about one variable", forall([x, v, c], z3.Implies(z3.And(MV(x), In, P(c), single(c), CVARS(c)[x]), TR(c, ONEA(x, v), E0)), [(In, CVARS(c)[x])])),
            ("values of a solution stay", forall([x], z3.Implies(MV(x), ELS(E, N)[H[x]]), [val[x]]))]
def vc_facts(ip, d, P):
    cx = ip.cx
    x, c = z3.Ints("x c")
    dom, val = cx.rd("D.dom", d), cx.rd("D.val", d)
    In = ELS(cx.rd("L.el", val[x]) if z3.is_const(cx.hp("L.el")) else cx.hp("L.el")[val[x]], cx.hp("L.len")[val[x]])[c]
    return [boxes(ip, d, "list"),
            ("registered constraints are constraints about the variable", forall([x, c], z3.Implies(z3.And(dom[x], In), z3.And(c >= 1, c < A0, ISC(c), P(c), z3.Not(ADK(c)), CVARS(c)[x])), [In])),
            ("constraints are registered", forall([x, c], z3.Implies(z3.And(P(c), multi(c), CVARS(c)[x]), z3.And(dom[x], In)), [(P(c), CVARS(c)[x])]))]
def vad_facts(ip, d, P):
    cx = ip.cx
    x, y, c = z3.Ints("x y c")
    dom, val = cx.rd("D.dom", d), cx.rd("D.val", d)
    S = cx.hp("S.dom")[val[x]]
    return [boxes(ip, d, "set"),
            ("variables forced apart are variables of an all-different constraint", forall([x, y], z3.Implies(z3.And(dom[x], S[y]), ADP(x, y)), [S[y]])),
            ("all-different constraints are registered", forall([x, y, c], z3.Implies(z3.And(P(c), ADK(c), CVARS(c)[x], CVARS(c)[y], x != y), z3.And(dom[x], S[y])), [(P(c), CVARS(c)[x], CVARS(c)[y])]))]
def vg_facts(ip, d, g):
    cx = ip.cx
    x, k = z3.Ints("x k")
    dom, val = cx.rd("D.dom", d), cx.rd("D.val", d)
    gd = cx.rd("D.dom", g)
    e = cx.hp("L.el")[val[x]][k]
    return [boxes(ip, d, "list"), ("groups of a variable exist", forall([x, k], z3.Implies(z3.And(dom[x], 0 <= k, k < cx.hp("L.len")[val[x]]), gd[e]), [e]))]
def groups_facts(ip, g):
    cx = ip.cx
    x, k = z3.Ints("x k")
    dom, val = cx.rd("D.dom", g), cx.rd("D.val", g)
    S = cx.hp("S.dom")[val[k]]
    return [("groups are sets of variables", forall([k, x], z3.Implies(z3.And(dom[k], S[x]), MV(x)), [S[x]])),
            ("groups are sets", forall([k], z3.Implies(dom[k], z3.And(val[k] >= 1, val[k] < cx.alloc, z3.Or(val[k] < A0, OWN(val[k]) == 0))), [val[k]]))]
def ints_facts(ip, d):
    cx = ip.cx; x = z3.Int("x")
    return [("bounds and sizes of all variables are known", forall([x], cx.rd("D.dom", d)[x] == MV(x), [cx.rd("D.dom", d)[x], MV(x)]))]
def all_facts(ip, cs, P):
    out = []
    for n, (r, v) in cs.items():
        if r == "pure": fs = pure_facts(ip, v.t, P)
        elif r == "vc": fs = vc_facts(ip, v.t, P)
        elif r == "vad": fs = vad_facts(ip, v.t, P)
        elif r == "vg":
            g = one(cs, "groups")
            fs = vg_facts(ip, v.t, g.t) if g is not None else [boxes(ip, v.t, "list")]
        elif r == "groups": fs = groups_facts(ip, v.t)
        elif r == "ints": fs = ints_facts(ip, v.t)
        else: fs = []
        out += [(n + ": " + a, b) for a, b in fs]
    return trimmed(ip, out)
def trimmed(ip, out):
    """C20 is about who changes what: only the ownership of containers matters"""
    ks = KEEP.get(ip.spec.prop)
    return out if ks is None else [(a, b) for a, b in out if a.split(": ", 1)[-1] in ks]
REL = {"old entries stay", "new entries are empty", "new entries are for the variables so far", "the other entries are unchanged", "the variables so far got the constraint", "the variables so far have the constraint",
       "the variables so far are forced apart from the others", "entries belong to their dictionary"}
FINAL = {"C06": {"values come from the model", "values satisfy the constraints about one variable"}}   # at the end "values are possible" says the same
KEEP = {"C20": {"entries belong to their dictionary"},
        "C06": REL | {"values are possible", "the variables are those of the model", "values come from the model", "values satisfy the constraints about one variable", "constraints are registered", "all-different constraints are registered"}}
KEEP["C07"] = (REL | {"the variables are those of the model", "every variable has a domain", "domains do not repeat values", "values of a solution stay", "registered constraints are constraints about the variable",
               "variables forced apart are variables of an all-different constraint", "groups of a variable exist", "groups are sets of variables", "groups are sets", "bounds and sizes of all variables are known", "no keys are added"})

# ---------------------------------------------------------------- loops of _setup
def els_step(ip, L):
    if L.seq is None or L.seq.src is None or L.seq.src[0] != "arr": return
    a, i = L.seq.src[1], L.idx; x = z3.Int("x")
    ip.cx.assume(forall([x], ELS(a, i + 1)[x] == z3.Or(ELS(a, i)[x], x == a[i]), [ELS(a, i + 1)[x], ELS(a, i)[x]]))
def arr_seq(L):
    if L.seq.src is None or L.seq.src[0] != "arr": raise AnnotationMismatch("loop over an unexpected sequence")
    return L.seq.src[1]
def entry_of(ip, L): return ip.cx.ghost[("entry", id(L.node))]
def note_entry(ip, L):
    for m in HEAP_SORTS: ip.cx.hp(m)
    ip.cx.ghost[("entry", id(L.node))] = dict(heap=dict(ip.cx.heap), alloc=ip.cx.alloc)
def inner_containers(ip, L):
    subs, _ = mutated(L.node)
    ns = names_in(L.node)
    return {n: (r, v) for n, (r, v) in containers(ip, L.env).items() if n in subs or n in ns and res(v.ty).default is not None}
def is_outer(ip, L):
    """the loop over the constraints: the first loop that fills a default dictionary"""
    g = ip.cx.ghost
    if "outer" not in g and any(res(v.ty).default is not None for n, (r, v) in inner_containers(ip, L).items() if n in mutated(L.node)[0]): g["outer"] = id(L.node)
    return g.get("outer") == id(L.node)
def setup_inv(ip, L):
    if is_outer(ip, L):
        ip.cx.ghost["cur"] = None
        a, i = arr_seq(L), L.idx
        return all_facts(ip, containers(ip, L.env), lambda c: ELS(a, i)[c])
    if ip.cx.ghost.get("cur") is None: return []
    return rel_inv(ip, L)
def rel_inv(ip, L):
    cx = ip.cx
    c0 = cx.ghost["cur"]
    K, j = arr_seq(L), L.idx
    e = entry_of(ip, L); h0 = e["heap"]
    x, y, c = z3.Ints("x y c")
    seen = lambda x: ELS(K, j)[x]
    cs = inner_containers(ip, L)
    allc = containers(ip, L.env)
    subs, _ = mutated(L.node)
    out = []
    for n, (r, v) in cs.items():
        d = v.t
        dom0, val0, dom, val = z3.Select(h0["D.dom"], d), z3.Select(h0["D.val"], d), cx.rd("D.dom", d), cx.rd("D.val", d)
        fs = []
        if r in ("vc", "vg", "vad"):
            kind = "set" if r == "vad" else "list"
            if n not in subs: fs = grown(ip, d, kind, e)
            else:
                fs = [boxes(ip, d, kind),
                      ("old entries stay", forall([x], z3.Implies(dom0[x], z3.And(dom[x], val[x] == val0[x])), [val[x], val0[x]])),
                      ("new entries are for the variables so far", forall([x], z3.Implies(z3.And(dom[x], z3.Not(dom0[x])), seen(x)), [val[x]] + plain(dom, x)))]
                if r in ("vc", "vg"):
                    now = lambda c: ELS(cx.hp("L.el")[val[x]], cx.hp("L.len")[val[x]])[c]
                    old = lambda c: ELS(h0["L.el"][val0[x]], h0["L.len"][val0[x]])[c]
                    same = z3.And(cx.hp("L.el")[val[x]] == h0["L.el"][val0[x]], cx.hp("L.len")[val[x]] == h0["L.len"][val0[x]])
                    fs.append(("the other entries are unchanged", forall([x], z3.Implies(z3.And(dom0[x], z3.Not(seen(x))), same), [val[x]])))
                    if r == "vc":
                        fs.append(("the variables so far got the constraint", forall([x, c], z3.Implies(seen(x), z3.And(dom[x], now(c) == z3.Or(z3.And(dom0[x], old(c)), c == c0))), [(ELS(K, j)[x], now(c)), (ELS(K, j)[x], old(c))])))
                        fs.append(("the variables so far have the constraint", forall([x], z3.Implies(seen(x), z3.And(dom[x], now(c0))), [ELS(K, j)[x], val[x]])))
                    else:
                        g = one(allc, "groups")
                        if g is not None: fs += vg_facts(ip, d, g.t)[1:]
                else:
                    S, S0 = cx.hp("S.dom")[val[x]], h0["S.dom"][val0[x]]
                    fs.append(("the other entries are unchanged", forall([x], z3.Implies(z3.And(dom0[x], z3.Not(seen(x))), S == S0), [val[x]])))
                    fs.append(("the variables so far are forced apart from the others", forall([x, y], z3.Implies(seen(x), z3.And(dom[x], S[y] == z3.Or(z3.And(dom0[x], S0[y]), z3.And(CVARS(c0)[y], y != x)))), [(ELS(K, j)[x], S[y]), (ELS(K, j)[x], S0[y]), (ELS(K, j)[x], CVARS(c0)[y])])))
        elif r == "ints": fs = [("no keys are added", forall([x], dom[x] == dom0[x], [dom[x]]))]
        elif r == "?": fs = []
        else: raise AnnotationMismatch("an inner loop changes %s" % n)
        out += [(n + ": " + a, b) for a, b in fs]
        if r in ("vc", "vg", "vad") and n not in subs and ip.spec.prop == "C20": out.append((n + ": " + boxes(ip, d, kind)[0], boxes(ip, d, kind)[1]))
    return trimmed(ip, out)
def setup_mods(ip, L):
    if is_outer(ip, L):
        return {m: (lambda r: r >= A0) for m in HEAP_SORTS}
    cs = inner_containers(ip, L)
    subs, _ = mutated(L.node)
    # dictionaries of a type that is of no interest here (group sizes)
    e = ip.fn_env(L.env)
    ds = {v.t.get_id(): v.t for n, (r, v) in cs.items()}
    lists = [v.t for n, (r, v) in cs.items() if r in ("vc", "vg")]
    sets = [v.t for n, (r, v) in cs.items() if r == "vad"]
    anyof = lambda f, l: (lambda r: z3.Or(*[f(r) == t for t in l]) if l else z3.BoolVal(False))
    m = {"D.dom": anyof(lambda r: r, list(ds.values())), "D.val": anyof(lambda r: r, list(ds.values())),
         "L.len": anyof(OWN, lists), "L.el": anyof(OWN, lists), "S.dom": anyof(OWN, sets)}
    return m
def setup_step(ip, L):
    els_step(ip, L)
    if is_outer(ip, L):
        c = ip.cx.ghost["cur"] = arr_seq(L)[L.idx]
        ip.cx.ghost["outer_at"] = (arr_seq(L), L.idx)
        if ip.spec.prop != "C20": ip.cx.check(ISC(c), "the set-up looks at the constraints of the problem")
def setup_exit(ip, L):
    """after a loop over the variables of a constraint: what is now known about this constraint, and what is still known about those before it"""
    cx = ip.cx
    c0 = cx.ghost.get("cur")
    if is_outer(ip, L) or c0 is None or ip.spec.prop == "C20": return
    subs, _ = mutated(L.node)
    a, i = cx.ghost["outer_at"]
    P = lambda c: ELS(a, i)[c]
    x, y = z3.Ints("x y")
    for n, (r, v) in inner_containers(ip, L).items():
        if n not in subs or r not in ("vc", "vad"): continue
        dom, val = cx.rd("D.dom", v.t), cx.rd("D.val", v.t)
        if r == "vad":
            nm = n + ": all-different constraints are registered"
            now = forall([x, y], z3.Implies(z3.And(CVARS(c0)[x], CVARS(c0)[y], x != y), z3.And(dom[x], cx.hp("S.dom")[val[x]][y])), [(CVARS(c0)[x], CVARS(c0)[y])])
        else:
            nm = n + ": constraints are registered"
            now = forall([x], z3.Implies(CVARS(c0)[x], z3.And(dom[x], ELS(cx.hp("L.el")[val[x]], cx.hp("L.len")[val[x]])[c0])), [CVARS(c0)[x]])
        old = [b for k, b in all_facts(ip, {n: (r, v)}, P) if k == nm]
        for g, w in [(now, " (this one)")] + [(b, " (those before)") for b in old]:
            cx.check(g, nm + w, keep=False); cx.assume(g, tag=nm)
SETUPLOOP = LoopSpec(setup_inv, mods=setup_mods, pre=note_entry, step=setup_step, exit=setup_exit)
def fill_inv(ip, L):
    """a loop that fills a dictionary for the keys it visits"""
    cx = ip.cx
    K, i = arr_seq(L), L.idx
    subs, _ = mutated(L.node)
    e = entry_of(ip, L); x = z3.Int("x"); out = []
    for n, (r, v) in inner_containers(ip, L).items():
        d = v.t
        if n in subs:
            if res(v.ty).default is not None: raise AnnotationMismatch("a loop changes %s" % n)
            out.append((n + ": keys so far", forall([x], z3.Implies(z3.Or(z3.Select(e["heap"]["D.dom"], d)[x], ELS(K, i)[x]), cx.rd("D.dom", d)[x]), [ELS(K, i)[x], cx.rd("D.dom", d)[x]])))
        else: out += [(n + ": " + a, b) for a, b in grown(ip, d, "set" if r == "vad" else "list", e)]
    return out
def fill_mods(ip, L):
    cs = inner_containers(ip, L)
    ds = [v.t for r, v in cs.values()]
    no = lambda r: z3.BoolVal(False)
    return {"D.dom": lambda r: z3.Or(*[r == d for d in ds]), "D.val": lambda r: z3.Or(*[r == d for d in ds]), "L.len": no, "L.el": no, "S.dom": no}
FILL = LoopSpec(fill_inv, mods=fill_mods, pre=note_entry, step=els_step)

# ---------------------------------------------------------------- the problem
def begin(repo, cx, prop, spec=None):
    ip = VC(repo, (spec or SolverSpec)(repo), cx)
    ip.spec.prop = prop
    cx.ghost["epoch"] = E0
    s = Sym(TRef("Solver"), z3.Int("self")); ip.wf(s); cx.assume(CLS(s.t) == ip.cid["Solver"])
    m = Sym(TRef("Model"), z3.Int("model")); ip.wf(m); cx.assume(CLS(m.t) == ip.cid["Model"])
    cx.assume(s.t != m.t)
    for fl in ("_variables", "_constraints", "_variables_proxy"):
        r = cx.rd("f:" + fl, m.t); cx.assume(z3.And(r >= 1, r < A0))
    for h in list(HEAP_SORTS) + ["f:" + SOLV, "f:_timer", "f:_interrupt", "f:_timeout", "f:_limit", "f:_var_selection_policy", "f:_compile_constraints", "f:_t_start", "f:_t_elapsed", "f:_count"]: cx.hp(h)
    for nm, f in minv(ip, m):
        if "names are" not in nm and "repeats" not in nm: cx.assume(f)
    x, k, v, c = z3.Ints("x k v c")
    vs = cx.rd("f:_variables", m.t); cs = cx.rd("f:_constraints", m.t)
    dom, val = cx.rd("D.dom", vs), cx.rd("D.val", vs)
    n, el = cx.rd("L.len", cs), cx.rd("L.el", cs)
    dm = TUPF(1)(val[x])
    cx.assume(z3.And(n >= 0))
    cx.assume(forall([x], z3.Implies(dom[x], z3.And(TUPF(0)(val[x]) >= 1, TUPF(0)(val[x]) < A0, dm >= 0)), [val[x]]))
    cx.assume(forall([x], MV(x) == z3.And(dom[x], dm != 0), [MV(x), dom[x]]))
    cx.assume(forall([x, v], ORIG(x, v) == z3.And(MV(x), ELS(COLLE(dm), COLLN(dm))[v]), [ORIG(x, v), ELS(COLLE(dm), COLLN(dm))[v]]))
    i = z3.Int("i"); a, k = COLLE(dm), COLLN(dm)
    # no domain repeats a value (the position of a value is the only one)
    cx.assume(forall([x, i], z3.Implies(z3.And(dom[x], dm != 0, 0 <= i, i < k), ELW(a, k, a[i]) == i), [a[i]]))
    cx.assume(forall([c], MODC(c) == ELS(el, n)[c], [MODC(c), ELS(el, n)[c]]))
    ad = ip.spec.wf_ad(ip)
    cx.assume(forall([c], z3.Implies(ISC(c), z3.And(c >= 1, c < A0, ADK(c) == ad(c), z3.Or(*[CLS(c) == ip.cid[q] for q in repo.subclasses("Constraint") if not repo.is_abstract(q)]))), [ISC(c)]))
    # H: an arbitrary solution, where it matters
    cx.assume(forall([x], z3.Implies(MV(x), ORIG(x, H[x])), [ORIG(x, H[x]), MV(x)]))
    return ip, s, m
def solution_h(cx):
    """C07: H is a solution; it satisfies the additional constraints in every state they are in during the search"""
    c, e = z3.Ints("c e"); a = z3.Const("a", AI)
    cx.assume(forall([c, a, e], z3.Implies(ISC(c), TR(c, H, e)), [TR(c, a, e)]))
    x, y = cx.fresh("x"), cx.fresh("y")
    k = ADC(x, y)          # an instance of the last assumption
    cx.check(z3.Implies(z3.And(ADP(x, y), z3.Implies(ISC(k), TR(k, H, E0))), H[x] != H[y]), "variables forced apart are different in a solution", keep=False)
    x, y = z3.Ints("x y")
    cx.assume(forall([x, y], z3.Implies(ADP(x, y), H[x] != H[y]), [ADP(x, y)]))
def frame(ip, s, heaps=None):
    """objects that existed before are unchanged, except the report of the solver and compiled forms of constraints"""
    cx = ip.cx; r = z3.Int("r"); out = []
    for m in sorted(cx.heap):
        if m == "f:_evaluate_function": continue
        h, h0 = cx.heap[m], z3.Const("H0:" + m, heap_sort(m))
        if h.eq(h0): continue
        g = z3.And(r >= 1, r < A0)
        if m in ("f:_timer", "f:_interrupt"): g = z3.And(g, r != s.t)
        out.append(("what existed before is unchanged (%s)" % m, forall([r], z3.Implies(g, h[r] == h0[r]), ([h[r]] if z3.is_const(h) else []) + [h0[r]])))
    return out
def extra(ip, once=False):
    """the additional constraints"""
    cx = ip.cx; c = z3.Int("c")
    a, n = z3.Const("Aadd", AI), z3.Int("nadd")
    cx.assume(n >= 0)
    cx.assume(forall([c], ADDC(c) == ELS(a, n)[c], [ADDC(c), ELS(a, n)[c]]))
    seq = SeqV(n, lambda i: ip.el(a, i, TRef("Constraint")), src=("arr", a, TRef("Constraint"), None))
    return IterV(seq, once=True) if once else ip.to_seq(seq)

def same_container(goal, fact):
    """a fact about one container of the set-up matters for goals about that one"""
    if goal.startswith("loop invariant"): goal = goal.split(": ", 1)[1]
    g, f = goal.split(": "), fact.split(": ")
    return len(g) < 2 or len(f) < 2 or g[0] == f[0] or "group" in g[0] and "group" in f[0]
def setup_task(repo, prop=None):
    def run(cx):
        ip, s, m = begin(repo, cx, prop)
        if prop in ("C06", "C07"): cx.relevance = same_container
        f = fn(repo, SM, "Solver._setup"); ip.verifying = f.qual
        if prop not in ("C20", "C06"): solution_h(cx)
        cx.ghost["where"] = "setup"
        add = extra(ip)
        try: r = ip.run_body(f, [s, m], {"additional_constraints": add})
        except PyRaise as e:
            if prop == "C20":
                for nm, g in frame(ip, s): cx.check(g, nm)
                return
            if prop == "C06": return
            cx.check(z3.BoolVal(False), "the set-up never fails (raised %s)" % e.exc); return
        if not (isinstance(r, Tup) and r.names): raise AnnotationMismatch("_setup does not return a named tuple")
        cs = {n: (role(ip, v), v) for n, v in zip(r.names, r.els) if role(ip, v)}
        for nm, g in all_facts(ip, cs, ISC): cx.check(g, nm)
        if prop in (None, "C20"):
            for nm, g in frame(ip, s): cx.check(g, nm)
    t = Task("Solver._setup", run, axioms=[own_axiom()] if prop == "C20" else lean(), functions=["Solver._setup"])
    t.dry = prop in ("C06", "C07", "C20")
    if t.dry: t.feas_ms = 40
    return t
def lean(): return solver_axioms()

INFO = {"variables": TDict(TStr, VINFO), "var_constraints": TDict(TStr, TList(TRef("Constraint")), "list"), "var_ad_constraints": TDict(TStr, TSet(TStr), "set"),
        "var_bounds": TDict(TStr, TInt), "var_sizes": TDict(TStr, TInt), "var_groups": TDict(TStr, TList(TInt), "list"), "groups": TDict(TInt, TSet(TStr)),
        "group_bounds": TDict(TInt, TInt), "group_sizes": TDict(TInt, TInt)}
def shared(mk, repo, n):
    """the obligations of one function, in n tasks (the same paths, each obligation in one of them)"""
    out = []
    for k in range(n):
        t = mk(repo); t.share = (k, n); t.name += " (part %d of %d)" % (k + 1, n); out.append(t)
    return out
def tasks(repo): return shared(setup_task, repo, 8)
