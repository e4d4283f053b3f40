"""C02: contracts of the compilation of expressions to Python source.

Texts are values of their own: the pieces a text is made of are known (literals, decimal integers, names, texts of
sub-expressions, joined lists), and its meaning is taken from Python's own parser (ast.parse of the text with its holes
filled by stand-ins), evaluated over the arbitrary assignment SIGMA.
  TDEN(t)  value of the source text t      TNAM(t)[x]  the text mentions the variable x
  TATOM(t) the text is an atom (a name, a number, a call or in parentheses): it means the same in every context
Contract of py_expr (structural induction):  TDEN(py_expr(e)) = DEN(e), TATOM, TNAM within the reported variables."""
import itertools
from .expr import *
from .expr import new_ip, expr, dict_arg

TDEN, TATOM, TNAM = z3.Function("tden", I, I), z3.Function("tatom", I, B), z3.Function("tnam", I, AB)
TDENA = z3.Function("tden_arr", AI, AI)
TNU = z3.Function("tnam_union", AI, I, AB)
TNW = z3.Function("tnam_w", AI, I, I, I)
PYT = z3.Function("py_text", I, I)
NORM = z3.Function("nfkc", I, I)
FUNS = {"sum": -11, "prod": -12, "abs": -13}

def text_axioms():
    a = z3.Const("a", AI); n, k, x = z3.Ints("n k x")
    return [forall([a, k], TDENA(a)[k] == TDEN(a[k]), [TDENA(a)[k]]),
            forall([a, n, x], z3.Implies(TNU(a, n)[x], z3.And(0 <= TNW(a, n, x), TNW(a, n, x) < n, TNAM(a[TNW(a, n, x)])[x])), [TNU(a, n)[x]])]

class BadText(Exception): pass
OPN = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.FloorDiv: lambda a, b: FDIV(a, b),
       ast.Mod: lambda a, b: MOD(a, b), ast.Pow: lambda a, b: POW(a, b)}
OPC = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
       ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}
class Reader:
    """meaning of one reading of a text (its holes filled in one of the possible ways)"""
    def __init__(self, ip, holes, globs): self.ip, self.holes, self.globs = ip, holes, globs
    def name(self, n):
        h = self.holes.get(n)
        if h is None: raise BadText("name %s" % n)
        if h[0] == "txt": return TDEN(h[1])
        if h[0] == "name": return SIGMA[h[1]]
        raise BadText("a list where a value is expected")
    def ev(self, n):
        if isinstance(n, ast.Name): return self.name(n.id)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            h = self.holes.get(n.value)
            if h is None: return z3.IntVal(n.value)
            return h[1]
        if isinstance(n, ast.BinOp) and type(n.op) in OPN: return OPN[type(n.op)](self.ev(n.left), self.ev(n.right))
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand)
            return -v if isinstance(n.op, ast.USub) else v if isinstance(n.op, ast.UAdd) else b2i(v == 0) if isinstance(n.op, ast.Not) else self.no(n)
        if isinstance(n, ast.BoolOp):
            v = self.ev(n.values[-1])
            for m in reversed(n.values[:-1]):
                a = self.ev(m)
                v = ite(a == 0, a, v) if isinstance(n.op, ast.And) else ite(a != 0, a, v)
            return v
        if isinstance(n, ast.Compare):
            l, fs = self.ev(n.left), []
            for o, r in zip(n.ops, n.comparators):
                if type(o) not in OPC: self.no(n)
                r = self.ev(r); fs.append(OPC[type(o)](l, r)); l = r
            return b2i(z3.And(*fs))
        if isinstance(n, ast.IfExp): return ite(self.ev(n.test) != 0, self.ev(n.body), self.ev(n.orelse))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords:
            if n.func.id == "_f_": return self.ev(n.args[0])
            f = self.globs.get(n.func.id)
            if f == "abs":
                v = self.ev(n.args[0]); return ite(v >= 0, v, -v)
            if f in ("sum", "prod") and isinstance(n.args[0], (ast.List, ast.Tuple)):
                l = n.args[0].elts
                Fo, op, u = FOLDS["Sum" if f == "sum" else "Prod"]
                v = z3.IntVal(u)
                for x in l:
                    if isinstance(x, ast.Name) and self.holes.get(x.id, ("",))[0] == "join":
                        _, sep, a, k = self.holes[x.id]
                        if len(l) > 1: raise BadText("a joined list among other elements")
                        v = Fo(TDENA(a), k)
                    else: v = op(v, self.ev(x))
                return v
        self.no(n)
    def no(self, n): raise BadText(ast.unparse(n))

def readings(parts):
    """the ways to fill the holes: integers may be negative, sub-texts may be names, numbers, calls or in parentheses"""
    ints = [i for i, p in enumerate(parts) if not isinstance(p, str) and p[0] == "int"]
    for signs in itertools.product((False, True), repeat=len(ints)):
        for form in range(4):
            s, holes = "", {}
            guard = []
            for i, p in enumerate(parts):
                if isinstance(p, str): s += p; continue
                if p[0] == "int":
                    neg = signs[ints.index(i)]
                    num = 910000 + i
                    holes[num] = ("num", -p[1] if neg else p[1])
                    guard.append(p[1] < 0 if neg else p[1] >= 0)
                    s += ("-" if neg else "") + str(num)
                elif p[0] == "txt":
                    num = 920000 + i
                    holes["_h%d_" % i] = p; holes[num] = ("num", TDEN(p[1]))
                    s += ["_h%d_", "(_h%d_)", "_f_(_h%d_)", "92%04d"][form] % i
                elif p[0] == "name": holes["_n%d_" % i] = p; s += "_n%d_" % i
                elif p[0] == "join":
                    if p[1].strip() != ",": raise BadText("list joined by %r" % p[1])
                    holes["_j%d_" % i] = p; s += "_j%d_" % i
                else: raise BadText("text of unknown content")
            yield s, holes, guard
def is_atom(s, t):
    if isinstance(t, ast.Name) or isinstance(t, ast.Call) and isinstance(t.func, ast.Name) or isinstance(t, ast.Constant): return s.strip() == s
    if not (s.startswith("(") and s.endswith(")")): return False
    d = 0
    for i, c in enumerate(s):
        d += (c == "(") - (c == ")")
        if d == 0: return i == len(s) - 1
    return False
def meaning(ip, parts, globs):
    """(value, is an atom, x -> mentions x) of a text; BadText when it has none"""
    vals, atom = {}, True
    for s, holes, guard in readings(parts):
        try: t = ast.parse(s, mode="eval").body
        except SyntaxError as e: raise BadText("%r does not parse: %s" % (s, e.msg))
        v = z3.simplify(Reader(ip, holes, globs).ev(t))
        atom = atom and is_atom(s, t)
        k = str(guard)
        if k in vals and not vals[k][1].eq(v): raise BadText("%r: the meaning depends on the form of a sub-text" % s)
        vals[k] = (z3.And(*guard) if guard else z3.BoolVal(True), v)
    l = list(vals.values()); v = l[-1][1]
    for g, w in l[:-1]: v = z3.If(g, w, v)
    def names(x):
        fs = []
        for p in parts:
            if isinstance(p, str): continue
            if p[0] == "txt": fs.append(TNAM(p[1])[x])
            if p[0] == "name": fs.append(x == p[1])
            if p[0] == "join": fs.append(TNU(p[2], p[3])[x])
        return z3.Or(*fs) if fs else z3.BoolVal(False)
    return v, atom, names
def closed(parts, ip):
    """every sub-text is an atom"""
    fs = []
    k = z3.Int("k")
    for p in parts:
        if isinstance(p, str): continue
        if p[0] == "txt": fs.append(TATOM(p[1]))
        if p[0] == "join": fs.append(forall([k], z3.Implies(z3.And(0 <= k, k < p[3]), TATOM(p[2][k])), [p[2][k]]))
    return z3.And(*fs) if fs else z3.BoolVal(True)

def helper_names(repo):
    tree = repo.mods[XM].tree
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys) \
           and all(isinstance(v, ast.Name) and v.id in FUNS for v in n.values):
            for k, v in zip(n.keys, n.values): out[k.value] = v.id
    return out
class TextSpec(ExprSpec):
    VIRTUAL = {"py_expr", "vars", "evaluate"}
    def text_as_str(self, v): return False
    def enc_text(self, ip, v):
        cx = ip.cx
        parts = [p for p in v.parts if p != ""]
        if len(parts) == 1 and not isinstance(parts[0], str) and parts[0][0] == "txt": return parts[0][1]
        t = cx.fresh("text")
        try:
            val, atom, names = meaning(ip, parts, self.globs)
            x = z3.Int("x")
            ok = closed(parts, ip)
            cx.assume(z3.Implies(ok, z3.And(TDEN(t) == val, TATOM(t) == atom)))
            cx.assume(forall([x], z3.Implies(TNAM(t)[x], names(x)), [TNAM(t)[x]]))
        except BadText: pass
        return t
    globs = {"__sum": "sum", "__prod": "prod", "__abs": "abs"}
    def __init__(self, repo):
        super().__init__(repo)
        # names of the helper functions: whatever the module's eval call is given (as_function's task checks the actual value)
        g = helper_names(repo)
        if g: self.globs = g
    def v_py_expr(self, ip, args, kw):
        ip.cx.task.contracts_used.add("Expression.py_expr")
        t = PYT(args[0].t); x = z3.Int("x")
        o = args[0].t
        ip.cx.assume(z3.And(TATOM(t), z3.Implies(DEF(o), TDEN(t) == DEN(o))))
        ip.cx.assume(forall([x], z3.Implies(TNAM(t)[x], INVS(o)[x]), [TNAM(t)[x]]))
        return TextV([("txt", t)])
    def join(self, ip, sep, arg):
        seq = ip.as_seq(arg)
        n = z3.simplify(seq.n)
        if z3.is_int_value(n) and n.as_long() <= 8:
            out = []
            for k in range(n.as_long()):
                if k: out.append(sep)
                out += ip.fmt_part(seq.get(z3.IntVal(k)))
            return TextV(out)
        n, a, ty = ip.arr_of(seq)
        return TextV([("join", sep, a, n, res(ty))] if res(ty) is not TText else [("join", sep, a, n)])
    def on_append(self, ip, a, n, a2, e, ty):
        if res(ty) is TText: self.cat(ip, a, n, z3.K(I, e), z3.IntVal(1), a2)
        else: super().on_append(ip, a, n, a2, e, ty)
    def on_concat(self, ip, a, n, b, m, c, ty):
        if res(ty) is TText or res(ty) is TAny: self.cat(ip, a, n, b, m, c)
        super().on_concat(ip, a, n, b, m, c, ty)
    def cat(self, ip, a, n, b, m, c):
        for Fo, op, u in FOLDS.values(): ip.cx.assume(Fo(TDENA(c), n + m) == op(Fo(TDENA(a), n), Fo(TDENA(b), m)))
    # ---- library
    def builtin(self, ip, f, args, kw, node, env):
        cx = ip.cx
        if f.name == "unicodedata.normalize":
            if not (isinstance(args[0], PyC) and args[0].v == "NFKC"): raise Unsupported("normalization form")
            return Sym(TStr, NORM(ip.enc(args[1], TStr)))
        if f.name == "eval": return self.eval_(ip, args, kw)
        return super().builtin(ip, f, args, kw, node, env)
    def enc_fun(self, ip, v):
        if isinstance(v, FuncV) and v.qual == XM + ":prod": return z3.IntVal(FUNS["prod"])
        if isinstance(v, BuiltinV) and v.name in ("sum", "abs"): return z3.IntVal(FUNS[v.name])
        raise Unsupported("function value stored")
    on_eval = None
    def eval_(self, ip, args, kw):
        if self.on_eval is None: raise Unsupported("eval")
        return self.on_eval(ip, args, kw)

def value_parts(ip, v):
    v = ip.force(v)
    if isinstance(v, TextV): ps = list(v.parts)
    elif isinstance(v, Sym) and res(v.ty) is TStr: ps = [("name", v.t)]
    elif isinstance(v, PyC) and isinstance(v.v, str): ps = [v.v]
    else: raise AnnotationMismatch("py_expr returns %r" % (v,))
    return [p for p in ps if p != ""]

def py_expr_task(repo, cls):
    def run(cx):
        ip = new_ip(repo, cx); ip.spec = sp = TextSpec(repo)
        f = fn(repo, XM, cls + ".py_expr"); ip.verifying = f.qual
        o = expr(ip, "self", cls)
        sp.top, sp.topcls = o.t, cls
        sp.unfold(ip, o)
        try: r = ip.run_body(f, [o], {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "compilation never fails (raised %s)" % e.exc); return
        parts = value_parts(ip, r)
        if any(not isinstance(p, str) and p[0] == "opaque" for p in parts): raise AnnotationMismatch("text of unknown content")
        try: val, atom, names = meaning(ip, parts, sp.globs)
        except BadText as e:
            cx.check(z3.BoolVal(False), "the compiled source has a meaning (%s)" % e); return
        cx.check(closed(parts, ip), "the source of operands is used as an atom")
        single = len(parts) == 1 and not isinstance(parts[0], str) and parts[0][0] == "txt"
        cx.check(TATOM(parts[0][1]) if single else z3.BoolVal(atom), "the compiled source keeps its meaning in every context")
        if cls in FOLDS:
            # empty sums and products
            n, a = SL(EXPRS[o.t]), SE(EXPRS[o.t])
            for Fo, op, u in FOLDS.values():
                cx.assume(z3.Implies(n == 0, Fo(DENA(a), n) == u)); cx.assume(z3.Implies(n == 0, DEFS(a, n)))
        cx.check(z3.Implies(DEF(o.t), val == DEN(o.t)), "the compiled source has the value of the expression")
        x = cx.fresh("nx")
        cx.check(z3.Implies(names(x), INVS(o.t)[x]), "the compiled source mentions only reported variables")
    return Task("%s.py_expr" % cls, run, axioms=axioms() + text_axioms() + fold_lemmas(), functions=["%s.py_expr" % cls])

DUMMY = "**__dummy_kwargs"
def source_task(repo):
    """py_source: a function of the reported variables, and of anything else by keyword"""
    def run(cx):
        ip = new_ip(repo, cx); ip.spec = sp = TextSpec(repo)
        f = fn(repo, XM, "Expression.py_source"); ip.verifying = f.qual
        o = expr(ip, "self")
        sp.top, sp.topcls, sp.top_virtual = o.t, "Expression", ("py_expr", "vars")
        try: r = ip.run_body(f, [o], {})
        except PyRaise as e:
            # refused: interpreted instead.  Nothing to show
            cx.check(z3.BoolVal(e.exc != "reraise"), "refused"); return
        parts = value_parts(ip, r)
        check_source(ip, o, parts)
    return Task("Expression.py_source", run, axioms=axioms() + text_axioms(), functions=["Expression.py_source"])
def check_source(ip, o, parts):
    cx = ip.cx
    ok = False
    why = ""
    try:
        for s, holes, guard in readings(parts):
            t = ast.parse(s, mode="eval").body
            if not isinstance(t, ast.Lambda): raise BadText("not a lambda")
            a = t.args
            if a.posonlyargs or a.kwonlyargs or a.vararg or a.defaults or a.kw_defaults: raise BadText("unexpected parameters")
            js = [x.arg for x in a.args]
            if len(js) == 1 and holes.get(js[0], ("",))[0] == "join" and a.kwarg is None: jh = holes[js[0]]; lit = True
            elif len(js) == 0 and a.kwarg is not None: jh = None
            else: raise BadText("parameters %s" % js)
            v = z3.simplify(Reader(ip, holes, ip.spec.globs).ev(t.body))
            cx.check(closed([p for p in parts if isinstance(p, str) or p[0] != "join"], ip), "the source of the expression is used as an atom")
            cx.check(z3.Implies(DEF(o.t), v == DEN(o.t)), "the function returns the value of the expression")
        ok = True
    except (BadText, SyntaxError) as e: why = str(e)
    cx.check(z3.BoolVal(ok), "the source is a function (%s)" % why)
    x = cx.fresh("nx")
    if jh is None:
        cx.check(z3.Not(INVS(o.t)[x]), "every reported variable is a parameter"); return
    a, n = jh[2], jh[3]
    k, l = cx.fresh("pk"), cx.fresh("pl")
    d = str_id(DUMMY)
    cx.check(z3.And(n >= 1, a[n - 1] == d), "other variables are accepted by keyword")
    cx.assume(forall([z3.Int("q")], z3.Implies(INVS(o.t)[z3.Int("q")], z3.Int("q") != d), [INVS(o.t)[z3.Int("q")]]))     # no variable is called **...
    cx.check(z3.Implies(INVS(o.t)[x], ELS(a, n - 1)[x]), "every reported variable is a parameter")
    cx.check(z3.Implies(z3.And(0 <= k, k < l, l < n), a[k] != a[l]), "parameters have different names")
    cx.check(z3.Implies(z3.And(0 <= k, k < n - 1), z3.And(INVS(o.t)[a[k]], NORM(a[k]) == a[k])), "a parameter is a reported variable whose name Python does not change")
from pyvc.interp import str_id

def function_task(repo):
    """compile_py_function and as_function: the compiled function when there is one, else the interpreter"""
    def run(cx):
        ip = new_ip(repo, cx); ip.spec = sp = TextSpec(repo)
        f = fn(repo, XM, "Expression.as_function"); ip.verifying = f.qual
        o = expr(ip, "self")
        sp.top, sp.topcls, sp.top_virtual = o.t, "Expression", ("py_expr", "vars")
        state = {}
        def on_eval(ip, args, kw):
            if kw or len(args) not in (2, 3): raise Unsupported("eval without its own globals")
            g = args[1]
            if not (isinstance(g, Sym) and isinstance(res(g.ty), TDict)): raise Unsupported("globals of eval")
            gd = globs_of(ip, g, globs0)
            sp.globs = gd
            check_source(ip, o, value_parts(ip, args[0]))
            for nm, fu in globs0.items():
                cx.check(z3.BoolVal(gd.get(nm) == fu), "the helper %s is %s" % (nm, fu))
            if cx.fork(2) == 1: raise PyRaise("SyntaxError")        # names that are keywords, too deep nesting
            return BuiltinV("compiled")
        globs0 = sp.globs
        sp.on_eval = on_eval
        try: r = ip.run_body(f, [o], {})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "as_function never fails (raised %s)" % e.exc); return
        if isinstance(r, BuiltinV) and r.name == "compiled":
            cx.check(z3.BoolVal(True), "the compiled function is returned as it is"); return
        # the fallback: called with the variables of an arbitrary assignment, and others
        d = dict_arg(ip, "substitution")
        dom, val = cx.rd("D.dom", d.t), cx.rd("D.val", d.t); x = z3.Int("x")
        cx.assume(DEF(o.t))
        cx.assume(forall([x], z3.Implies(INVS(o.t)[x], z3.And(dom[x], val[x] == SIGMA[x])), [INVS(o.t)[x]]))
        sp.top_virtual = ("py_expr", "vars")
        try: v = ip.call(r, [], {"**": d})
        except PyRaise as e:
            cx.check(z3.BoolVal(False), "the fallback never fails (raised %s)" % e.exc); return
        cx.check(ip.int_(v) == DEN(o.t), "the fallback has the value of the expression")
    return Task("Expression.as_function", run, axioms=axioms() + text_axioms(), functions=["Expression.as_function", "Expression.compile_py_function", "Expression.py_source"])
def globs_of(ip, g, names):
    cx = ip.cx
    out = {}
    for nm in list(names) + ["sum", "prod", "abs", "__builtins__"]:
        k = str_id(nm)
        has = z3.simplify(z3.Select(cx.rd("D.dom", g.t), k))
        if z3.is_true(has):
            v = z3.simplify(z3.Select(cx.rd("D.val", g.t), k))
            for fname, num in FUNS.items():
                if z3.is_int_value(v) and v.as_long() == num: out[nm] = fname
    return out

def tasks(repo):
    cs = concrete(repo)
    need_fields(repo, "Collection", ["_expressions"]); need_fields(repo, "Sum", ["_const"]); need_fields(repo, "Const", ["_value"]); need_fields(repo, "Variable", ["_name"])
    return [immut_task(repo), prod_task(repo), source_task(repo), function_task(repo)] + [py_expr_task(repo, c) for c in cs]
