"""Statements, expressions, calls."""
import ast
import z3
from .vals import *
from .core import *
from .interp import Interp, Env, Signal, Break, Continue, Return, UNDEF, str_id
from .lift import Lifted, mentions, elem_terms, good_pattern

BUILTINS = {"len", "range", "enumerate", "zip", "reversed", "sorted", "sum", "any", "all", "min", "max", "abs", "int", "bool",
            "str", "list", "tuple", "set", "frozenset", "dict", "isinstance", "type", "super", "iter", "next", "repr", "eval", "print",
            "map", "filter", "getattr", "hasattr", "callable", "issubclass", "id", "divmod", "round", "hash"}
EXCS = {"ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError", "NotImplementedError", "AttributeError", "Exception",
        "ZeroDivisionError", "AssertionError", "StopIteration", "BaseException", "NameError", "ArithmeticError", "OverflowError", "SyntaxError"}
BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "floordiv", ast.Div: "truediv", ast.Mod: "mod", ast.Pow: "pow",
          ast.BitAnd: "and", ast.BitOr: "or"}
CMPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
SWAP = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}

def has_yield(fn):
    for n in walk_scope(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
    return False
def walk_scope(fn):
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo.append(c)
def assigned_names(nodes):
    out = []
    todo = list(nodes)
    while todo:
        n = todo.pop(0)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out: out.append(n.id)
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): todo.append(c)
    return out
def loops_of(fn):
    out = []
    def go(stmts):
        for s in stmts:
            if isinstance(s, (ast.For, ast.While)): out.append(s)
            for f in ("body", "orelse", "finalbody"):
                if hasattr(s, f) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)): go(getattr(s, f))
            if isinstance(s, ast.Try):
                for h in s.handlers: go(h.body)
    go(fn.body)
    return out

class Locals:
    """what a loop annotation sees"""
    def __init__(self, ip, env, idx=None, seq=None, at=None, mode="check", node=None):
        self.ip, self.env, self.idx, self.seq, self.cx = ip, env, idx, seq, ip.cx
        self.mode, self.node = mode, node          # "entry", "assume" or "check"; the loop
        self.at = at or {}
    def __getitem__(self, name):
        v = self.env.vars.get(name, UNDEF)
        if v is UNDEF: raise AnnotationMismatch("no local %r here" % name)
        return v
    def pick(self, ty, hint, pred=None):
        """the local this annotation is about: by its usual name, else the only local of that type"""
        ok = lambda v: isinstance(v, Sym) and isinstance(res(v.ty), ty) and (pred is None or pred(v))
        v = self.env.vars.get(hint, UNDEF)
        if v is not UNDEF and ok(v): return v
        a = self.env.node.args if self.env.node is not None else None
        params = {x.arg for x in a.args + a.kwonlyargs} if a is not None else set()
        c = [x for n, x in self.env.vars.items() if n not in params and x is not UNDEF and ok(x)]
        if len(c) != 1: raise AnnotationMismatch("no local for %r" % hint)
        return c[0]
    def has(self, name): return self.env.vars.get(name, UNDEF) is not UNDEF
    def t(self, name):
        v = self[name]
        if isinstance(v, Sym): return v.t
        return self.ip.enc(v)
    def tt(self, name, ty):
        v = self[name]
        if not isinstance(v, Sym) or not isinstance(res(v.ty), ty): raise AnnotationMismatch("local %r is not a %s" % (name, ty.__name__))
        return v.t

class CutEnd(Exception): """the loop is entered; its body is verified elsewhere"""

class LoopSpec:
    """inv(ip, L) -> [(name, formula)]; mods(ip, L) -> {heap map: None (everything) | function ref -> formula};
    types: local name -> type of loop-carried locals that change type"""
    def __init__(self, inv, mods=None, types=None, match=None, ghosts=None, step=None, post=None, name=None, cut=False, pre=None, exit=None, hints=None):
        self.name, self.cut, self.pre, self.exit, self.hints = name, cut, pre, exit, hints
        self.inv, self.mods, self.types, self.match, self.ghosts, self.step, self.post = inv, mods, types or {}, match, ghosts or (), step, post

class Machine(Interp):
    # ================================================================= statements
    def block(self, stmts, env):
        for s in stmts: self.stmt(s, env)
    def stmt(self, s, env):
        self.cx.line = getattr(s, "lineno", self.cx.line)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported("statement %s" % type(s).__name__)
        m(s, env)
    def s_Pass(self, s, env): pass
    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        if isinstance(s.value, ast.Call) and self.is_log(s.value): return
        self.ev(s.value, env)
    def is_log(self, c):
        f = c.func
        return (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("LOG", "logging", "warnings")) or (isinstance(f, ast.Name) and f.id == "print")
    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            v = self.ev(s.value, env)
            if isinstance(cur, Sym) and isinstance(res(cur.ty), TList) and isinstance(s.op, ast.Add):
                self.extend(cur, v); return
            self.assign(t, self.binop(BINOPS[type(s.op)] if type(s.op) in BINOPS else "?", cur, v), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr_(o, self.mangle(t.attr, env))
            self.setattr_(o, self.mangle(t.attr, env), self.binop(BINOPS[type(s.op)], cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev_slice(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(BINOPS[type(s.op)], cur, self.ev(s.value, env)))
        else: raise Unsupported("augmented assignment")
    def s_Return(self, s, env):
        raise Return(PyC(None) if s.value is None else self.ev(s.value, env))
    def s_Break(self, s, env): raise Break()
    def s_Continue(self, s, env): raise Continue()
    def s_If(self, s, env):
        if self.istrue(self.ev(s.test, env)): self.block(s.body, env)
        else: self.block(s.orelse, env)
    def s_Assert(self, s, env):
        c = self.spec.assume_assert(self, s, env)
        if c: return
        if not self.istrue(self.ev(s.test, env)): raise PyRaise("AssertionError", s)
    def s_Raise(self, s, env):
        if s.exc is None: raise PyRaise("reraise", s)
        e = s.exc
        n = e.func if isinstance(e, ast.Call) else e
        raise PyRaise(n.id if isinstance(n, ast.Name) else n.attr, s)
    def s_FunctionDef(self, s, env):
        env.vars[s.name] = FuncV(s, env.mod, cls=env.cls, env=env, qual=(env.qual or "") + ".<locals>." + s.name)
    def s_Import(self, s, env):
        for a in s.names: env.vars[a.asname or a.name.split(".")[0]] = ModV(a.name)
    def s_Global(self, s, env): raise Unsupported("global")
    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name): env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env), self.ev_slice(t.slice, env)
                self.delitem(o, k)
            else: raise Unsupported("del")
    def s_With(self, s, env): raise Unsupported("with")
    def s_Try(self, s, env):
        if s.finalbody: raise Unsupported("try/finally")
        try:
            self.block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                names = None
                if h.type is not None:
                    names = [n.id for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(n, ast.Name)]
                if names is None or e.exc in names or "Exception" in names or "BaseException" in names or \
                        ("ArithmeticError" in names and e.exc in ("ZeroDivisionError", "OverflowError")) or ("LookupError" in names and e.exc in ("KeyError", "IndexError")):
                    self.block(h.body, env)
                    return
            raise
        self.block(s.orelse, env)

    # ---- assignment targets
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if isinstance(v, Sym) and isinstance(res(v.ty), TMix): v = self.force(v)
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            els = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, els): self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev_slice(t.slice, env), v)
        else: raise Unsupported("assignment to %s" % type(t).__name__)
    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, Tup):
            if len(v.els) != n: raise PyRaise("ValueError")
            return v.els
        if isinstance(v, Sym) and isinstance(res(v.ty), TTup):
            return [self.dec_wf(TUPF(i)(v.t), x) for i, x in enumerate(res(v.ty).els)]
        seq = self.as_seq(v)
        if not self.cx.branch(seq.n == n): raise PyRaise("ValueError")
        return [seq.get(z3.IntVal(i)) for i in range(n)]
    def mangle(self, attr, env):
        if attr.startswith("__") and not attr.endswith("__") and env.cls: return "_%s%s" % (env.cls.lstrip("_"), attr)
        return attr

    # ================================================================= names
    def name(self, n, env):
        e = env
        while e is not None:
            if n in e.vars:
                v = e.vars[n]
                if v is UNDEF: raise Unsupported("local %r may be unbound or has no tracked value" % n)
                return v
            e = e.parent
        return self.global_(n, env.mod)
    def global_(self, n, mod):
        ov = self.spec.global_override(self, mod, n)
        if ov is not None: return ov
        g = self.repo.lookup(mod, n) if mod else None
        if g is not None: return self.global_val(g)
        if n in BUILTINS: return BuiltinV(n)
        if n in EXCS: return BuiltinV("exc:" + n)
        if n in ("True", "False", "None"): return PyC({"True": True, "False": False, "None": None}[n])
        if n == "object": return BuiltinV("object")
        raise PyRaise("NameError")
    def global_val(self, g):
        if g[0] == "class": return ClassV(g[1])
        if g[0] == "func": return FuncV(g[1], g[2], qual="%s:%s" % (g[2], g[1].name))
        if g[0] == "mod": return ModV(g[1])
        if g[0] == "ext": return self.ext(g[1], g[2])
        if g[0] == "expr":
            e = g[1]
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "namedtuple":
                f = e.args[1]
                fields = f.value.replace(",", " ").split() if isinstance(f, ast.Constant) else [x.value for x in f.elts]
                return NTClass(e.args[0].value, fields)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                c = self.repo.lookup(g[2], e.func.id)
                if c is not None and c[0] == "class" and not e.args and not e.keywords:
                    return PyC(("singleton", c[1].name))
            env = Env(None, g[2])
            return self.shared_const(self.ev(e, env))
        raise Unsupported("global")
    def shared_const(self, v):
        """a module-level or class-level value is the same object every time: only immutable ones may be evaluated afresh"""
        if isinstance(v, Sym) and isinstance(res(v.ty), (TRef, TList, TDict, TSet)) and not (isinstance(res(v.ty), TSet) and res(v.ty).frozen): raise Unsupported("a mutable object shared by all calls")
        if isinstance(v, Tup):
            for x in v.els: self.shared_const(x)
        return v
    def ext(self, mod, n): return BuiltinV(mod + "." + n)

    # ================================================================= expressions
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(n).__name__)
        return m(n, env)
    def e_Constant(self, n, env): return PyC(n.value)
    def e_Name(self, n, env): return self.name(n.id, env)
    def e_Tuple(self, n, env):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            segs = []
            for x in n.elts:
                if isinstance(x, ast.Starred): segs += self.unpack_star(self.ev(x.value, env))
                else: segs.append(self.ev(x, env))
            return Tup(segs)
        return Tup([self.ev(x, env) for x in n.elts])
    def unpack_star(self, v):
        v = self.force(v)
        if isinstance(v, Tup): return list(v.els)
        s = self.as_seq(v)
        k = z3.simplify(s.n)
        if z3.is_int_value(k): return [s.get(z3.IntVal(i)) for i in range(k.as_long())]
        raise Unsupported("starred sequence of unknown length")
    def e_List(self, n, env):
        l = self.new_list(self.site(n))
        for x in n.elts:
            if isinstance(x, ast.Starred): self.extend(l, self.ev(x.value, env))
            else: self.append(l, self.ev(x, env))
        return l
    def e_Set(self, n, env):
        l = self.new_set(self.site(n))
        for x in n.elts: self.set_add(l, self.ev(x, env))
        return l
    def e_Dict(self, n, env):
        d = self.new_dict(self.site(n))
        for k, v in zip(n.keys, n.values):
            if k is None: raise Unsupported("dict unpacking")
            self.dict_set(d, self.ev(k, env), self.ev(v, env))
        return d
    def site(self, n): return (self.cx.task.name, getattr(n, "lineno", 0), getattr(n, "col_offset", 0), type(n).__name__)
    def e_Attribute(self, n, env): return self.getattr_(self.ev(n.value, env), self.mangle(n.attr, env))
    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev_slice(n.slice, env))
    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return ("slice", *[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)
    def e_IfExp(self, n, env):
        return self.ev(n.body, env) if self.istrue(self.ev(n.test, env)) else self.ev(n.orelse, env)
    def e_BoolOp(self, n, env):
        v = None
        for k, x in enumerate(n.values):
            v = self.ev(x, env)
            if k == len(n.values) - 1: return v
            t = self.istrue(v)
            if isinstance(n.op, ast.And) and not t: return self.settle(v, False)
            if isinstance(n.op, ast.Or) and t: return self.settle(v, True)
        return v
    def settle(self, v, b):
        if isinstance(v, Sym) and res(v.ty) is TBool: return PyC(b)
        return v
    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return Sym(TBool, z3.Not(t))
        if isinstance(n.op, (ast.USub, ast.UAdd)):
            v = self.force(v)
            if self.is_int(v):
                if isinstance(v, PyC): return PyC(-v.v if isinstance(n.op, ast.USub) else v.v)
                return Sym(TInt, -self.int_(v) if isinstance(n.op, ast.USub) else self.int_(v))
            return self.call(self.getattr_(v, "__neg__" if isinstance(n.op, ast.USub) else "__pos__"), [], {})
        raise Unsupported("unary operator")
    def e_BinOp(self, n, env):
        op = BINOPS.get(type(n.op))
        if op is None:
            raise Unsupported("operator %s" % type(n.op).__name__)
        return self.binop(op, self.ev(n.left, env), self.ev(n.right, env), n)
    def e_Compare(self, n, env):
        l = self.ev(n.left, env)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            r = self.ev(r, env)
            v = self.compare(op, l, r)
            if len(n.ops) == 1: return v
            if not self.istrue(v): return PyC(False)
            l = r
        return PyC(True)
    def e_Lambda(self, n, env): return FuncV(n, env.mod, cls=env.cls, env=env, qual=(env.qual or "") + ".<lambda>")
    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            elif isinstance(v, ast.FormattedValue):
                if v.format_spec is not None: raise Unsupported("format spec")
                x = self.ev(v.value, env)
                parts += self.fmt_part(x) if v.conversion != 114 else self.opaque_part(x)
        return TextV(parts)
    def e_Yield(self, n, env):
        v = PyC(None) if n.value is None else self.ev(n.value, env)
        self.do_yield(v, env)
        return PyC(None)
    def e_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        self.do_yield_from(v, env)
        return PyC(None)
    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env); self.assign(n.target, v, env); return v
    def fn_env(self, env):
        while env.parent is not None and env.collector is None and env.fname == "<comp>": env = env.parent
        return env
    def do_yield(self, v, env):
        e = self.fn_env(env)
        if e.collector == "top": self.spec.on_yield(self, v, e)
        elif e.collector is not None: self.append(e.collector, v)
        else: raise Unsupported("yield")
    def do_yield_from(self, v, env):
        e = self.fn_env(env)
        if e.collector == "top": self.spec.on_yield_from(self, v, e)
        elif e.collector is not None: self.extend(e.collector, v)
        else: raise Unsupported("yield from")
    def run_gen(self, g):
        """eager evaluation of a generator that has no contract"""
        e = self.bind_args(g.fn, g.args, g.kw)
        col = self.new_list(("gen", g.fn.qual, self.cx.task.name))
        e.collector = col
        self.enter(g.fn, e)
        try:
            self.block(g.fn.node.body, e)
        except Return: pass
        finally: self.leave()
        return self.as_seq(col)

    # ---- comprehensions
    def e_ListComp(self, n, env):
        seq = self.comp(n.generators, n.elt, env)
        return self.list_from(seq, self.site(n))
    def e_SetComp(self, n, env):
        return self.set_of(self.comp(n.generators, n.elt, env), self.site(n))
    def e_GeneratorExp(self, n, env):
        cell = {}
        def force():
            if "s" not in cell: cell["s"] = self.comp(n.generators, n.elt, env, lazy=True)
            return cell["s"]
        b = BuiltinV("genexp", force)
        b.node, b.env = n, env
        return b
    def comp_env(self, env):
        e = Env(env, env.mod, env.cls, "<comp>", env.qual)
        e.depth = 0
        self.cx.envs.append(e)
        return e
    def comp(self, gens, elt, env, lazy=False):
        """SeqV of a comprehension"""
        if len(gens) == 2 and not gens[0].ifs and isinstance(gens[0].target, (ast.Name, ast.Tuple)):
            return self.spec.nested_comp(self, gens, elt, env)
        if len(gens) != 1: raise Unsupported("nested comprehension")
        g = gens[0]
        src = self.ev(g.iter, env)
        seq = self.as_seq(src)
        n = z3.simplify(seq.n)
        if z3.is_int_value(n) and n.as_long() == 0:
            return SeqV(z3.IntVal(0), lambda i: (_ for _ in ()).throw(NeedType()))
        if z3.is_int_value(n) and n.as_long() <= 8:
            out = []
            for k in range(n.as_long()):
                e = self.comp_env(env)
                self.assign(g.target, seq.get(z3.IntVal(k)), e)
                if all(self.istrue(self.ev(c, e)) for c in g.ifs): out.append(self.ev(elt, e))
            return self.as_seq(Tup(out)) if out else SeqV(z3.IntVal(0), lambda i: (_ for _ in ()).throw(NeedType()))
        return self.map_filter(seq, lambda v, e: self.assign(g.target, v, e), g.ifs, elt, env)
    def map_filter(self, seq, bind, ifs, elt, env):
        cx = self.cx
        j = cx.fresh("j")
        box = {}
        def thunk():
            cx.assume(z3.And(0 <= j, j < seq.n))
            e = self.comp_env(env)
            bind(seq.get(j), e)
            for c in ifs:
                if not self.istrue(self.ev(c, e)): return None
            v = self.ev(elt, e)
            if isinstance(v, Sym) and isinstance(res(v.ty), TOpt): v = self.force(v)
            ty = self.typeof(v)
            box["ty"] = ty if "ty" not in box else self.unify(box["ty"], ty)
            return v
        lf = Lifted(self, j, seq.n, thunk)
        lf.no_raise()
        if not lf.pure(): raise Unsupported("side effect inside a comprehension")
        if "ty" not in box:
            return SeqV(z3.IntVal(0), lambda i: (_ for _ in ()).throw(NeedType()))
        ty = box["ty"]
        for o in lf.outs:
            if o.val is not None: o.enc = self.enc_lifted(lf, o, ty)
        pats = lambda x: self.seq_pats(seq, x)
        lf.commit(pats)
        jj = z3.Int("jj")
        rng = lambda x: z3.And(0 <= x, x < seq.n)
        if not ifs:
            a = cx.fresh("cmp", AI)
            for o in lf.outs:
                b = z3.Implies(z3.And(rng(j), o.cond), a[j] == o.enc)
                lf.assert_forall(jj, lf.sub(b, jj), lambda x, o=o: [a[x]] + pats(x) + elem_terms(lf.sub(o.enc, x), x))
            s = SeqV(seq.n, lambda i: self.el(a, i, ty), src=("arr", a, ty, None))
            self.inherit_fold(seq, lf, a, ty)
            return s
        return self.filtered(seq, lf, ty, [o for o in lf.outs if o.val is not None], [o for o in lf.outs if o.val is None], pats)
    def inherit_fold(self, seq, lf, a, ty): pass
    def enc_lifted(self, lf, o, ty):
        """encode the value of the generic element: objects made by the encoding depend on the element too"""
        cx = self.cx
        old, cx.fresh_log = cx.fresh_log, []
        mark = len(cx.pc)
        try: e = self.enc(o.val, ty)
        finally: log, cx.fresh_log = cx.fresh_log, old
        if old is not None: old.extend(log)
        lf.consts += log
        o.facts = list(o.facts) + [f for _, f in cx.pc[mark:]]
        return e
    def filtered(self, seq, lf, ty, yes, no, pats):
        """subsequence of the indices with a `yes` outcome"""
        cx = self.cx
        M, a = cx.fresh("fm"), cx.fresh("fa", AI)
        P, Q = cx.fresh("fp", AI), cx.fresh("fq", AI)      # position map and its inverse
        k, l, jj = z3.Ints("k l jj")
        rng = lambda x: z3.And(0 <= x, x < seq.n)
        cx.assume(z3.And(0 <= M, M <= seq.n))
        if self.spec.filter_order: cx.assume(forall([k, l], z3.Implies(z3.And(0 <= k, k < l, l < M), P[k] < P[l]), [(P[k], P[l])]))
        cx.assume(forall([k], z3.Implies(z3.And(0 <= k, k < M), z3.And(0 <= P[k], P[k] < seq.n, Q[P[k]] == k)), [P[k]]))
        cx.assume(forall([k], z3.Implies(z3.And(0 <= k, k < M), z3.And(0 <= P[k], P[k] < seq.n)), [a[k]]))
        isyes = z3.Or(*[o.cond for o in yes])
        for o in yes:
            b = z3.Implies(z3.And(rng(lf.j), o.cond), z3.And(0 <= Q[lf.j], Q[lf.j] < M, P[Q[lf.j]] == lf.j, a[Q[lf.j]] == o.enc))
            lf.assert_forall(jj, lf.sub(b, jj), lambda x, o=o: pats(x) + [Q[x]] + elem_terms(lf.sub(o.enc, x), x))
        # every kept position satisfies the condition, and carries the value
        kk = z3.Int("kk")
        b = z3.Implies(z3.And(0 <= kk, kk < M), z3.And(lf.sub(isyes, P[kk]), *[z3.Implies(lf.sub(o.cond, P[kk]), a[kk] == lf.sub(o.enc, P[kk])) for o in yes]))
        cx.assume(forall([kk], b, [a[kk], P[kk]]))
        self.on_filter(seq, lf, ty, yes, no, M, a, P, Q)
        return SeqV(M, lambda i: self.el(a, i, ty), src=("arr", a, ty, None))
    def on_filter(self, seq, lf, ty, yes, no, M, a, P, Q):
        # lemma (lemmas.py): a subsequence has only elements of the sequence
        if not (self.spec.filter_els and seq.src is not None and seq.src[0] == "arr"): return
        E = seq.src[1]; v = z3.Int("v")
        if all(z3.simplify(o.enc).eq(z3.simplify(z3.Select(E, lf.j))) for o in yes):
            self.cx.assume(forall([v], z3.Implies(ELS(a, M)[v], ELS(E, seq.n)[v]), [ELS(a, M)[v]]))
    def seq_pats(self, seq, x):
        if seq.src is not None and seq.src[0] == "arr": return [z3.Select(seq.src[1], x)]
        if getattr(seq, "pats", None): return seq.pats(x)
        return []
    def e_DictComp(self, n, env):
        cx = self.cx
        if len(n.generators) != 1: raise Unsupported("nested dict comprehension")
        g = n.generators[0]
        pair = ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n)
        seq0 = self.as_seq(self.ev(g.iter, env))
        return self.dict_from_pairs(self.comp([g], pair, env), self.site(n))
    def dict_from_pairs(self, seq, site):
        cx = self.cx
        n = z3.simplify(seq.n)
        d = self.new_dict(site)
        ty = res(d.ty)
        if z3.is_int_value(n) and n.as_long() <= 8:
            for k in range(n.as_long()):
                p = self.unpack(seq.get(z3.IntVal(k)), 2)
                self.dict_set(d, p[0], p[1])
            return d
        if seq.src is None or seq.src[0] != "arr":
            a0 = self.arr_of(seq)
            seq = SeqV(a0[0], lambda i: self.el(a0[1], i, a0[2]), src=("arr", a0[1], a0[2], None))
        j = cx.fresh("j")
        p = self.unpack(seq.get(j), 2)
        kt = self.widen(ty.k, self.typeof(p[0])); vt = self.widen(ty.v, self.typeof(p[1]))
        kf = lambda i: self.enc(self.unpack(seq.get(i), 2)[0], kt)
        vf = lambda i: self.enc(self.unpack(seq.get(i), 2)[1], vt)
        dom, val, X = cx.fresh("dd", AB), cx.fresh("dv", AI), cx.fresh("dx", AI)
        i, x, i2 = z3.Ints("i x i2")
        old, cx.fresh_log = cx.fresh_log, []
        try: kf(i); vf(i)
        finally: log, cx.fresh_log = cx.fresh_log, old
        if log: raise Unsupported("dictionary of values made on the way %s" % log)
        pk = [q for q in [kf(i)] if good_pattern(q)] + self.seq_pats(seq, i)
        # keys: every key is present; every present key comes from its last occurrence X[x]
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < seq.n), z3.And(dom[kf(i)], X[kf(i)] >= i)), pk or None))
        cx.assume(forall([x], z3.Implies(dom[x], z3.And(0 <= X[x], X[x] < seq.n, kf(X[x]) == x, val[x] == vf(X[x]))), [dom[x], val[x]]))
        cx.wr("D.dom", d.t, dom, op="init"); cx.wr("D.val", d.t, val, op="init")
        return d

    # ================================================================= loops
    def for_elem_bind(self, s, seq, i, env): self.assign(s.target, seq.get(i), env)
    def loop_key(self, s, env):
        e = self.fn_env(env)
        if e.node is None: return None
        if e.loops is None: e.loops = loops_of(e.node) if isinstance(e.node, ast.FunctionDef) else []
        for k, l in enumerate(e.loops):
            if l is s: return (e.qual, k)
        return None
    def s_For(self, s, env):
        src = self.ev(s.iter, env)
        from .contract import SolverGen
        if isinstance(src, SolverGen):
            return self.spec.for_generator(self, s, src, env)
        seq = self.as_seq(src)
        n = z3.simplify(seq.n)
        key = self.loop_key(s, env)
        spec = self.spec.loop(key, s, self)
        if z3.is_int_value(n) and n.as_long() <= (12 if spec is None else 4):
            try:
                for k in range(n.as_long()):
                    self.assign(s.target, seq.get(z3.IntVal(k)), env)
                    try: self.block(s.body, env)
                    except Continue: pass
            except Break:
                return
            self.block(s.orelse, env)
            return
        if spec is not None and spec != "summary":
            return self.for_inv(s, seq, env, spec, src)
        return self.for_summary(s, seq, env, src)

    def havoc_locals(self, names, env, spec, L0=None):
        for nm in names:
            cur = env.vars.get(nm, UNDEF)
            ty = spec.types.get(nm) if spec else None
            if callable(ty) and not isinstance(ty, Ty): ty = ty(self, env)
            if ty is not None:
                env.vars[nm] = self.fresh(ty, nm)
            elif cur is UNDEF:
                env.vars.pop(nm, None)
            elif spec is not None and nm in getattr(spec, "drop", ()):
                env.vars[nm] = UNDEF
            else:
                try:
                    t = self.typeof(cur)
                    if t == "kw": raise Unsupported("kwargs changed in a loop")
                    if t is TNone: env.vars[nm] = UNDEF
                    elif isinstance(t, TFun): env.vars[nm] = UNDEF
                    else: env.vars[nm] = self.fresh(t, nm)
                except NeedType: raise
                except Unsupported:
                    env.vars[nm] = UNDEF
    def inv_list(self, spec, L):
        return list(spec.inv(self, L))
    def loop_common(self, s, env, spec, idx, seq):
        """establish the invariant, then jump to an arbitrary iteration"""
        cx = self.cx
        L = Locals(self, env, z3.IntVal(0), seq, mode="entry", node=s)
        if spec.pre: spec.pre(self, L)
        if not (spec.cut and self.spec.phase == "body"):
            for nm, f in self.inv_list(spec, L): cx.check(f, "loop invariant holds on entry: " + nm, line=s.lineno)
        if spec.cut:
            if self.spec.phase == "entry": raise CutEnd()
            self.cut_here(s, env, spec)
            return cx.alloc, {}, dict(cx.heap), []
        pre_alloc = cx.alloc
        mods = spec.mods(self, L) if spec.mods else {}
        names = assigned_names(list(s.body) + ([s.target] if isinstance(s, ast.For) else []))
        # heap
        old = dict(cx.heap)
        touched = self.touched_maps(s, env)
        r = z3.Int("r")
        newheap = {}
        cur_alloc = cx.fresh("alloc")
        cx.assume(cur_alloc >= pre_alloc)
        for m in sorted(set(mods) | touched | {k for k in cx.heap}):
            h = cx.hp(m)
            if m in mods and mods[m] is None:
                h2 = cx.fresh("H", heap_sort(m))
            elif m in mods or m in touched:
                pr = mods.get(m)
                h2 = cx.fresh("H", heap_sort(m))
                keep = z3.And(r < pre_alloc, z3.Not(pr(r))) if pr is not None else r < pre_alloc
                cx.assume(forall([r], z3.Implies(keep, h2[r] == h[r]), [h2[r]]))
                if z3.is_const(h): cx.assume(forall([r], z3.Implies(keep, h2[r] == h[r]), [h[r]]))
            else:
                continue
            newheap[m] = h2
        cx.heap.update(newheap)
        cx.alloc = cur_alloc
        self.havoc_locals(names, env, spec)
        self.spec.on_havoc(self, spec)
        return pre_alloc, mods, dict(cx.heap), names
    def cut_here(self, s, env, spec):
        """forget everything but the facts at the start of the function and the loop invariant: the body is verified from any
        state in which the invariant holds (the ways to reach the loop are verified to establish it in tasks of their own)"""
        cx = self.cx
        cx.reset_to(cx.ghost["cut"])
        cx.ghost["was_cut"] = True
        for m in list(cx.heap): cx.heap[m] = cx.fresh("C:" + m, heap_sort(m))
        a = cx.fresh("alloc"); cx.assume(a >= z3.Int("alloc0")); cx.alloc = a
        fe = self.fn_env(env)
        if fe is not env: raise Unsupported("cut inside a nested scope")
        asg = set(assigned_names(fe.node.body))
        a = fe.node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.kwarg.arg} if a.kwarg else set())
        for nm in list(env.vars):
            if nm in params - asg: continue
            v = env.vars[nm]
            if v is UNDEF: continue
            try:
                if isinstance(v, Tup) and not v.els: raise Unsupported("empty tuple")
                t = self.typeof(v)
                env.vars[nm] = UNDEF if isinstance(t, TFun) or t == "kw" or t is TNone else self.fresh(t, nm)
            except NeedType: raise
            except Unsupported: env.vars[nm] = UNDEF
        self.spec.on_havoc(self, spec)
    def touched_maps(self, s, env):
        """heap maps the body may write: found syntactically (calls may write anything their contracts say)"""
        return self.spec.touched(self, s, env)
    def check_frame(self, s, pre_alloc, mods, heap_head, spec):
        """every write of the body went to a declared or fresh location"""
        cx = self.cx
        r = cx.fresh("fr")
        for m in sorted(cx.heap):
            h = cx.heap[m]
            h0 = heap_head.get(m)
            if h0 is None: h0 = z3.Const(("C0:" if cx.ghost.get("was_cut") else "H0:") + m, heap_sort(m))
            if h is h0 or h.eq(h0): continue
            if m in mods and mods[m] is None: continue
            pr = mods.get(m)
            keep = z3.And(r >= 1, r < pre_alloc)
            if pr is not None: keep = z3.And(keep, z3.Not(pr(r)))
            cx.check(z3.Implies(keep, h[r] == h0[r]), "loop writes only what it declares (%s)" % m, line=s.lineno)
    def for_inv(self, s, seq, env, spec, src):
        cx = self.cx
        frozen = seq
        pre_alloc, mods, head, names = self.loop_common(s, env, spec, None, seq)
        i = cx.fresh("it")
        cx.assume(z3.And(0 <= i, i <= seq.n))
        self.spec.on_len(self, seq)
        L = Locals(self, env, i, seq, mode="assume", node=s)
        for nm, f in self.inv_list(spec, L): cx.assume(f, tag=nm)
        if cx.choose([i < seq.n, i >= seq.n]) == 0:
            if spec.step: spec.step(self, L)
            self.assign(s.target, seq.get(i), env)
            self.spec.on_iter(self, seq, i)
            try:
                self.block(s.body, env)
            except Continue: pass
            except Break:
                return
            cx.reached(("loop", s.lineno))
            L2 = Locals(self, env, i + 1, seq, node=s)
            if spec.hints: spec.hints(self, L2)
            for nm, f in self.inv_list(spec, L2): cx.check(f, "loop invariant is preserved: " + nm, line=s.lineno, keep=False)
            self.check_frame(s, pre_alloc, mods, head, spec)
            raise PathEnd()
        cx.assume(i == seq.n)
        if spec.exit: spec.exit(self, L)
        for nm in assigned_names([s.target]): env.vars[nm] = UNDEF
        self.block(s.orelse, env)
    def s_While(self, s, env):
        cx = self.cx
        key = self.loop_key(s, env)
        spec = self.spec.loop(key, s, self)
        if spec is None or spec == "summary": raise Unsupported("while loop without an invariant")
        pre_alloc, mods, head, names = self.loop_common(s, env, spec, None, None)
        L = Locals(self, env, None, None, mode="assume", node=s)
        for nm, f in self.inv_list(spec, L): cx.assume(f, tag=nm)
        if self.istrue(self.ev(s.test, env)):
            if spec.step: spec.step(self, L)
            try:
                self.block(s.body, env)
            except Continue: pass
            except Break: return
            cx.reached(("loop", s.lineno))
            L2 = Locals(self, env, None, None, node=s)
            for nm, f in self.inv_list(spec, L2): cx.check(f, "loop invariant is preserved: " + nm, line=s.lineno, keep=False)
            if not spec.cut: self.check_frame(s, pre_alloc, mods, head, spec)
            raise PathEnd()
        self.block(s.orelse, env)

    # ---- loops without annotation
    def for_summary(self, s, seq, env, src):
        cx = self.cx
        names = assigned_names(s.body)
        carried = [nm for nm in names if env.vars.get(nm, UNDEF) is not UNDEF]
        e0 = self.fn_env(env)
        j = cx.fresh("j")
        alloc_before = cx.alloc
        accs = {}            # heap list/set refs appended to
        over = []            # (map, ref, key) overwritten in every iteration
        hav = []
        for attempt in range(5):
            snap_heap, hav_locals = dict(cx.heap), {}
            consts = []
            old_log = cx.fresh_log
            def thunk():
                cx.assume(z3.And(0 <= j, j < seq.n))
                for nm in carried:
                    if nm in skip: continue
                    try: env.vars[nm] = self.fresh(self.typeof(env.vars[nm]), "hv_" + nm)
                    except NeedType: raise
                    except Exception: env.vars[nm] = UNDEF
                    if isinstance(env.vars[nm], Sym): hav_locals[nm] = env.vars[nm]
                for (m, r, key) in over: self.havoc_at(m, r, key)
                for r in accs.values(): self.havoc_acc(r)
                self.assign(s.target, seq.get(j), env)
                self.spec.on_iter(self, seq, j)
                try: self.block(s.body, env)
                except Continue: pass
            skip = set()
            lf = Lifted(self, j, seq.n, thunk, "loop")
            changed = False
            for o in lf.outs:
                for (m, r, key, op, val) in o.writes:
                    if mentions(r, lf.al): continue            # object created in this iteration
                    if any(mentions(r, c) for c in [j] + lf.consts): raise Unsupported("loop writes to objects that depend on the iteration; it needs an invariant")
                    if op in ("append", "setadd"):
                        k = (m[0], r.get_id())
                        if k not in accs: accs[k] = (m[0], r); changed = True
                    elif op == "append_len": pass
                    elif op == "dictset" and key is not None and not any(mentions(key, c) for c in [j] + lf.consts):
                        kk = (m, r, key)
                        if not any(a == m and b.eq(r) and c.eq(key) for a, b, c in over): over.append(kk); changed = True
                    elif op == "hv": pass
                    else:
                        raise Unsupported("loop with effect %s on %s; it needs an invariant" % (op, m))
            if not changed: break
        # ----- which outcomes leave the loop early
        leave = [o for o in lf.outs if o.kind in ("break", "return", "raise")]
        stay = [o for o in lf.outs if o.kind in ("ok", "continue")]
        jj = z3.Int("jj")
        rng = lambda x: z3.And(0 <= x, x < seq.n)
        pats = lambda x: self.seq_pats(seq, x)
        hv = [c for c in lf.consts if str(c).startswith("hv")]
        def dep(f): return any(mentions(f, c) for c in hv)
        for o in lf.outs:
            if dep(o.cond): raise Unsupported("loop condition depends on loop-carried state; it needs an invariant")
        if accs and leave: raise Unsupported("accumulating loop with an early exit; it needs an invariant")
        leave_conds = [o.cond for o in leave]
        def mk_trig(f): return lambda x: pats(x) + elem_terms(lf.sub(f, x), x)
        mode = 0
        if leave:
            mode = cx.fork(2)
        if mode == 0:
            # runs to the end
            lf.outs = stay if stay else []
            if leave:
                f = z3.Not(z3.Or(*leave_conds))
                lf.assert_forall(jj, lf.sub(z3.Implies(rng(j), f), jj), mk_trig(f))
            if not stay: cx.assume(seq.n <= 0)
            lf.commit(lambda x: pats(x))
            # loop-carried locals become unknown
            for nm in names:
                if nm in env.vars:
                    try: env.vars[nm] = self.fresh(self.typeof(env.vars[nm]), "post_" + nm) if nm in carried else UNDEF
                    except NeedType: raise
                    except Unsupported: env.vars[nm] = UNDEF
            for nm in assigned_names([s.target]): env.vars[nm] = UNDEF
            for (m, r, key) in over: self.havoc_at(m, r, key)
            for (kind, rid), (_, r) in accs.items(): self.apply_acc(kind, r, lf, seq, stay, jj, j, rng, pats, dep)
            self.block(s.orelse, env)
            return
        # leaves at the first index k with a leaving outcome; replay the body there for its effect
        k = cx.fresh("brk")
        f = z3.Or(*leave_conds)
        cx.assume(rng(k))
        self.spec.on_witness(self, seq, k)
        allf = [z3.Implies(o.cond, z3.And(*o.facts)) for o in lf.outs if o.facts]
        lfk = lambda g, x: lf.sub(g, x)
        cx.assume(lfk(f, k))
        g = z3.Not(f)
        lf.assert_forall(jj, lf.sub(z3.Implies(z3.And(0 <= j, j < k), g), jj), mk_trig(g))
        lf.outs = stay + leave
        lf.commit(lambda x: pats(x), upto=k + 1)
        for nm in carried:
            try: env.vars[nm] = self.fresh(self.typeof(env.vars[nm]), "post_" + nm)
            except NeedType: raise
            except Exception: env.vars[nm] = UNDEF
        for (m, r, key) in over: self.havoc_at(m, r, key)
        self.assign(s.target, seq.get(k), env)
        try:
            self.block(s.body, env)
        except Continue: raise PathEnd()
        except Break: return
        raise PathEnd()
    def havoc_at(self, m, r, key):
        cx = self.cx
        h = cx.rd(m, r)
        if m == "D.dom": cx.wr(m, r, z3.Store(h, key, cx.fresh("hvd", B)), key=key, op="hv")
        else: cx.wr(m, r, z3.Store(h, key, cx.fresh("hvv")), key=key, op="hv")
    def havoc_acc(self, kr):
        cx = self.cx
        kind, r = kr
        if kind == "L":
            n = cx.fresh("hvn"); cx.assume(n >= 0)
            cx.wr("L.len", r, n, op="hv"); cx.wr("L.el", r, cx.fresh("hva", AI), op="hv")
        else:
            cx.wr("S.dom", r, cx.fresh("hvs", AB), op="hv")
    def apply_acc(self, kind, r, lf, seq, outs, jj, j, rng, pats, dep):
        cx = self.cx
        mm = "L.el" if kind == "L" else "S.dom"
        per = []
        for o in outs:
            ws = [w for w in o.writes if w[0] == mm and w[1].eq(r) and w[3] != "hv"]
            if any(w[3] not in ("append", "setadd") for w in ws): raise Unsupported("accumulator used in another way")
            if len(ws) > 1: raise Unsupported("several appends per iteration; the loop needs an invariant")
            if ws and dep(ws[0][4]): raise Unsupported("accumulated value depends on loop-carried state; it needs an invariant")
            o.enc = ws[0][4] if ws else None
            o.val = o.enc
            per.append(o)
        yes = [o for o in per if o.enc is not None]; no = [o for o in per if o.enc is None]
        if not yes: return
        if kind == "L":
            ty = TAny     # encoded level: the element type is irrelevant here
            if not no:
                a = cx.fresh("acc", AI)
                for o in yes:
                    b = z3.Implies(z3.And(rng(j), o.cond), a[j] == o.enc)
                    lf.assert_forall(jj, lf.sub(b, jj), lambda x, o=o: [a[x]] + pats(x) + elem_terms(lf.sub(o.enc, x), x))
                s2 = SeqV(seq.n, lambda i: Sym(TAny, a[i]), src=("arr", a, TAny, None))
            else:
                s2 = self.filtered(seq, lf, ty, yes, no, pats)
            # old ++ new, at the encoded level
            n0, a0 = cx.rd("L.len", r), cx.rd("L.el", r)
            n0s = z3.simplify(n0)
            if z3.is_int_value(n0s) and n0s.as_long() == 0 or not z3.is_int_value(n0s) and self.spec.filter_els and cx.solver.check(n0 != 0) == z3.unsat:
                cx.wr("L.el", r, s2.src[1], op="append", val=None); cx.wr("L.len", r, s2.n, op="append_len")
                cx.assume(s2.n >= 0)
                return
            m, b = s2.n, s2.src[1]
            c = cx.fresh("cat", AI); i = z3.Int("i")
            cx.assume(z3.And(n0 >= 0, m >= 0))
            cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n0), c[i] == a0[i]), [c[i]]))
            cx.assume(forall([i], z3.Implies(z3.And(n0 <= i, i < n0 + m), c[i] == b[i - n0]), [c[i]]))
            cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < m), c[i + n0] == b[i]), [b[i]]))
            cx.wr("L.el", r, c, op="extend"); cx.wr("L.len", r, n0 + m, op="extend_len")
            self.spec.on_concat(self, a0, n0, b, m, c, TAny)
            return
        d0 = cx.rd("S.dom", r)
        d1, X = cx.fresh("sa", AB), cx.fresh("sx", AI)
        x = z3.Int("x")
        cx.assume(forall([x], z3.Implies(d0[x], d1[x]), [d1[x]] + ([d0[x]] if z3.is_const(d0) else [])))
        for o in yes:
            lf.assert_forall(jj, lf.sub(z3.Implies(z3.And(rng(j), o.cond), d1[o.enc]), jj), lambda y, o=o: pats(y) + elem_terms(lf.sub(o.enc, y), y))
        src = z3.Or(*[z3.And(lf.sub(o.cond, X[x]), lf.sub(o.enc, X[x]) == x) for o in yes])
        cx.assume(forall([x], z3.Implies(z3.And(d1[x], z3.Not(d0[x])), z3.And(rng(X[x]), src)), [d1[x]]))
        cx.wr("S.dom", r, d1, op="bulkadd")
