"""Calls, attributes, operators and the modelled part of the standard library."""
import ast
import z3
from .vals import *
from .core import *
from .interp import Env, Return, UNDEF, Signal, str_id
from .run import Machine, has_yield, SWAP, walk_scope, assigned_names
from .lift import Lifted, elem_terms
from .contract import Contract, SolverGen

class VC(Machine):
    def has_yield(self, f): return has_yield(f.node)
    # ================================================================= calls
    def e_Call(self, n, env):
        self.cx.line = n.lineno
        if self.is_log(n): return PyC(None)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e.parent is not None and "__class_cell__" not in e.vars: e = e.parent
            f = self.fn_env(env)
            first = (f.node.args.posonlyargs + f.node.args.args)[0].arg
            return SuperV(f.cls, f.vars[first])
        f = self.ev(n.func, env)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.force(self.ev(a.value, env))
                if isinstance(v, Tup): args += v.els
                else: args += self.unpack_star(v)
            else: args.append(self.ev(a, env))
        star = None
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star = v
            else: kw[k.arg] = v
        if star is not None: kw["**"] = star
        self.cx.line = n.lineno
        return self.call(f, args, kw, n, env)
    def call(self, f, args, kw, node=None, env=None):
        f = self.force(f) if isinstance(f, Sym) else f
        if isinstance(f, BoundV):
            if isinstance(f.fn, FuncV): return self.call_fn(f.fn, [f.self_] + list(args), kw, node)
            return self.call(f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, FuncV): return self.call_fn(f, list(args), kw, node)
        if isinstance(f, ClassV): return self.construct(f.info, args, kw, node)
        if isinstance(f, NTClass):
            els = list(args)
            for nm in f.fields[len(args):]:
                if nm not in kw: raise PyRaise("TypeError")
                els.append(kw[nm])
            if len(els) != len(f.fields) or any(k not in f.fields for k in kw): raise PyRaise("TypeError")
            return Tup(els, list(f.fields), f.name)
        if isinstance(f, BuiltinV):
            m = getattr(self, "b_" + f.name.replace(".", "_").replace("exc:", "exc_"), None)
            ov = self.spec.builtin(self, f, args, kw, node, env)
            if ov is not None: return ov
            if m is None: raise Unsupported("call of %s" % f.name)
            return m(f, args, kw, node, env)
        if isinstance(f, Sym): return self.spec.call_sym(self, f, args, kw, node)
        raise Unsupported("call of %r" % (f,))
    def construct(self, info, args, kw, node):
        cx = self.cx
        if self.repo.is_enum(info.name): raise Unsupported("enum call")
        c = self.spec.ctor(info.name)
        if c is not None:
            fn = self.find_method(info.name, "__init__")
            a = self.arg_dict(fn, [PyC(None)] + list(args), kw) if fn is not None else {}
            return c(self, info, a, args, kw)
        if self.repo.find(info.name, "__new__")[0] is not None: raise Unsupported("__new__")
        r = cx.new_ref()
        cx.assume(CLS(r) == self.cid[info.name])
        self_ = Sym(TRef(info.name), r)
        m = self.find_method(info.name, "__init__")
        if m is not None: self.call_fn(m, [self_] + list(args), kw, node)
        return self_
    def find_method(self, cname, name):
        c, k = self.repo.find(cname, name)
        if c is None or k != "method": return None
        return FuncV(c.methods[name], c.mod.name, cls=c.name, qual="%s:%s.%s" % (c.mod.name, c.name, name), kind=c.kinds.get(name))
    def bind_args(self, f, args, kw):
        a = f.node.args
        e = Env(f.env, f.mod, f.cls, f.node.name if isinstance(f.node, ast.FunctionDef) else "<lambda>", f.qual)
        e.node = f.node
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        star = kw.pop("**", None)
        pos = list(args)
        if len(pos) > len(names) and a.vararg is None: raise PyRaise("TypeError")
        for nm, v in zip(names, pos): e.vars[nm] = v
        rest = pos[len(names):]
        if a.vararg: e.vars[a.vararg.arg] = Tup(rest)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in e.vars: raise PyRaise("TypeError")
                e.vars[k] = v
            elif a.kwarg: extra[k] = v
            else: raise PyRaise("TypeError")
        rest_entries = {}
        if star is not None:
            star = self.force(star)
            if isinstance(star, Sym) and isinstance(res(star.ty), TDict):
                if a.kwarg is None or names or a.kwonlyargs: raise Unsupported("** of a dictionary")
                e.vars[a.kwarg.arg] = star
                self.cx.envs.append(e)
                return e
            if not isinstance(star, KwV): raise Unsupported("** of %r" % (star,))
            for k, (p, v) in star.entries.items():
                if (k in names or k in [x.arg for x in a.kwonlyargs]):
                    if k in e.vars:
                        if self.cx.branch(p): raise PyRaise("TypeError")
                    elif self.cx.branch(p): e.vars[k] = v
                else:
                    if k in extra:
                        if self.cx.branch(p): raise PyRaise("TypeError")
                    elif a.kwarg: rest_entries[k] = (p, v)
                    elif self.cx.branch(p): raise PyRaise("TypeError")
        if a.kwarg:
            d = dict(rest_entries)
            for k, v in extra.items(): d[k] = (z3.BoolVal(True), v)
            e.vars[a.kwarg.arg] = KwV(d)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: defaults[x.arg] = d
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in e.vars:
                if nm not in defaults: raise PyRaise("TypeError")
                e.vars[nm] = self.ev(defaults[nm], Env(f.env, f.mod, f.cls, "<defaults>"))
        self.cx.envs.append(e)
        return e
    def arg_dict(self, f, args, kw):
        e = self.bind_args(f, args, kw)
        return dict(e.vars)
    def enter(self, f, e):
        self.depth += 1
        if self.depth > 25: raise Unsupported("call depth")
        if isinstance(f.node, ast.FunctionDef): self.cx.task.inlined.add(f.qual)
    def leave(self): self.depth -= 1
    def call_fn(self, f, args, kw, node=None):
        if isinstance(f.node, ast.FunctionDef):
            c = self.spec.contract(f.qual, self, args)
            if c is not None:
                a = self.arg_dict(f, args, kw)
                return c.apply(self, a)
            decs = [ast.unparse(d) for d in f.node.decorator_list if ast.unparse(d) not in ("property", "classmethod", "staticmethod", "abc.abstractmethod")]
            if any(not d.endswith(".setter") for d in decs): raise Unsupported("decorator %s" % decs)
        if isinstance(f.node, ast.Lambda):
            e = self.bind_args(f, args, kw)
            self.enter(f, e)
            try: return self.ev(f.node.body, e)
            finally: self.leave()
        if has_yield(f.node): return GenV(f, args, kw)
        if f.cls and f.node.name in self.repo.classes[f.cls].abstract and f.cls in self.repo.classes:
            raise Unsupported("call of the abstract method %s" % f.qual)
        e = self.bind_args(f, args, kw)
        self.enter(f, e)
        if self.stack_has(f.qual): raise Unsupported("recursion of %s without a contract" % f.qual)
        self.callstack.append(f.qual)
        line = self.cx.line
        try:
            self.block(f.node.body, e)
            r = PyC(None)
        except Return as s:
            r = s.v
        finally:
            self.callstack.pop(); self.leave(); self.cx.line = line
        return r
    callstack = None
    def stack_has(self, q):
        if self.callstack is None: self.callstack = []
        return self.callstack.count(q) > 2
    def run_body(self, f, args, kw, gen=False):
        """entry point of a verification task: the real body of f"""
        self.callstack = [f.qual]
        e = self.bind_args(f, args, kw)
        if gen: e.collector = "top"
        self.top_env = e
        try:
            self.block(f.node.body, e)
            return PyC(None)
        except Return as s:
            return s.v

    # ================================================================= attributes
    def class_of(self, v):
        """possible concrete class names of an object"""
        ty = res(v.ty)
        return [c for c in self.repo.subclasses(ty.cls) if not self.repo.is_abstract(c)] or [ty.cls]
    def dispatch(self, v, attr):
        """[(condition, ClassInfo|None, kind)] by resolution of attr over the possible classes of v"""
        groups = {}
        for c in self.class_of(v):
            ci, k = self.repo.find(c, attr)
            groups.setdefault((ci.name if ci else None, k), []).append(c)
        return groups
    def getattr_(self, o, attr):
        cx = self.cx
        o = self.force(o)
        if isinstance(o, Sym) and isinstance(res(o.ty), TRef):
            cls = res(o.ty).cls
            vc = self.spec.virtual(self, cls, attr, o)
            if vc is not None: return BoundV(vc, o) if not isinstance(vc, BoundV) else vc
            groups = self.dispatch(o, attr)
            if len(groups) > 1:
                keys = sorted(groups, key=str)
                k = cx.choose([z3.Or(*[CLS(o.t) == self.cid[c] for c in groups[g]]) for g in keys])
                g = keys[k]
            else: g = next(iter(groups))
            ci = self.repo.classes[g[0]] if g[0] else None
            if ci is None:
                return self.field(o, attr, groups[g])
            if ci.name != cls and self.repo.is_sub(ci.name, cls): o = Sym(TRef(ci.name), o.t)
            if g[1] == "attr":
                # class attribute, unless an instance field of that name exists
                if self.spec.field_type(self.repo, ci.name, attr) is not None: return self.field(o, attr, groups[g])
                return self.shared_const(self.ev(ci.attrs[attr], Env(None, ci.mod.name, ci.name)))
            fn = FuncV(ci.methods[attr], ci.mod.name, cls=ci.name, qual="%s:%s.%s" % (ci.mod.name, ci.name, attr), kind=ci.kinds.get(attr))
            if attr in ci.props: return self.call_fn(fn, [o], {})
            if fn.kind == "classmethod": return BoundV(fn, BuiltinV("dynclass", None, o))
            if fn.kind == "staticmethod": return fn
            return BoundV(fn, o)
        if isinstance(o, SuperV):
            mro = self.repo.mro(o.cls)
            for ci in mro[1:]:
                if attr in ci.methods:
                    fn = FuncV(ci.methods[attr], ci.mod.name, cls=ci.name, qual="%s:%s.%s" % (ci.mod.name, ci.name, attr), kind=ci.kinds.get(attr))
                    return BoundV(fn, o.self_)
            if attr == "__init__": return BuiltinV("object_init")
            raise Unsupported("super().%s" % attr)
        if isinstance(o, Tup):
            if o.names and attr in o.names: return o.els[o.names.index(attr)]
            if attr == "_replace" and o.names: return BuiltinV("nt_replace", None, o)
            if attr in ("index", "count"): raise Unsupported("tuple.%s" % attr)
            raise PyRaise("AttributeError")
        if isinstance(o, ClassV):
            if self.repo.is_enum(o.info.name):
                ms = self.enum_members(o.info.name)
                if attr in ms: return EnumV(o.info.name, attr, ms.index(attr))
            if attr == "__name__": return PyC(o.info.name)
            ci, k = self.repo.find(o.info.name, attr)
            if ci is None: raise PyRaise("AttributeError")
            if k == "attr": return self.shared_const(self.ev(ci.attrs[attr], Env(None, ci.mod.name, ci.name)))
            fn = FuncV(ci.methods[attr], ci.mod.name, cls=ci.name, qual="%s:%s.%s" % (ci.mod.name, ci.name, attr), kind=ci.kinds.get(attr))
            if fn.kind == "classmethod": return BoundV(fn, o)
            return fn
        if isinstance(o, BuiltinV) and o.name == "dynclass":
            x = o.self_
            groups = self.dispatch(x, attr)
            keys = sorted(groups, key=str)
            k = cx.choose([z3.Or(*[CLS(x.t) == self.cid[c] for c in groups[g]]) for g in keys]) if len(keys) > 1 else 0
            g = keys[k]
            if attr == "__name__": return OpaqueV("class name")
            if g[0] is None: raise PyRaise("AttributeError")
            ci = self.repo.classes[g[0]]
            if g[1] == "attr": return self.shared_const(self.ev(ci.attrs[attr], Env(None, ci.mod.name, ci.name)))
            fn = FuncV(ci.methods[attr], ci.mod.name, cls=ci.name, qual="%s:%s.%s" % (ci.mod.name, ci.name, attr), kind=ci.kinds.get(attr))
            if fn.kind == "classmethod": return BoundV(fn, o)
            return fn
        if isinstance(o, ModV):
            full = o.name + "." + attr
            if o.name in self.repo.mods:
                g = self.repo.lookup(o.name, attr)
                if g: return self.global_val(g)
            return BuiltinV(full)
        if isinstance(o, NTClass): raise Unsupported("namedtuple class attribute")
        if isinstance(o, Sym):
            ty = res(o.ty)
            if isinstance(ty, TList): return BuiltinV("list_" + attr, None, o)
            if isinstance(ty, TDict): return BuiltinV("dict_" + attr, None, o)
            if isinstance(ty, TSet): return BuiltinV("set_" + attr, None, o)
            if ty is TStr: return BuiltinV("str_" + attr, None, o)
            if isinstance(ty, TEnum): raise Unsupported("enum attribute")
            return self.spec.sym_attr(self, o, attr)
        if isinstance(o, KwV): return BuiltinV("kw_" + attr, None, o)
        if isinstance(o, (PyC, TextV)) and (isinstance(o, TextV) or isinstance(o.v, str)): return BuiltinV("str_" + attr, None, o)
        if isinstance(o, PyC) and o.v is None: raise PyRaise("AttributeError")
        if isinstance(o, BuiltinV): return BuiltinV(o.name + "." + attr, None, o.self_)
        raise Unsupported("attribute %s of %r" % (attr, o))
    def enum_members(self, cname): return list(self.repo.classes[cname].attrs)
    def field(self, o, attr, classes):
        cx = self.cx
        tys = [(c, self.spec.field_type(self.repo, c, attr)) for c in classes]
        have = [c for c, t in tys if t is not None]
        if have and len(have) < len(classes):
            # only some of the possible classes have this field
            if not cx.branch(z3.Or(*[CLS(o.t) == self.cid[c] for c in have])): raise PyRaise("AttributeError")
        ty = next((t for c, t in tys if t is not None), None)
        if any(t is not None and repr(t) != repr(ty) for c, t in tys): raise Unsupported("field %s of several types" % attr)
        if ty is None:
            tv = cx.task.site_types.get(("field", attr))
            if tv is None:
                if not self.assigned_somewhere(classes, attr): raise PyRaise("AttributeError")
                raise NeedType()
            ty = tv
        v = self.dec(cx.rd("f:" + attr, o.t), ty)
        self.wf(v)
        self.spec.on_field(self, o, attr, v)
        return v
    def assigned_somewhere(self, classes, attr):
        for c in classes:
            for ci in self.repo.mro(c):
                for n in ast.walk(ci.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr: return True
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and self.mangle(n.attr, Env(None, None, ci.name)) == attr: return True
        return False
    def setattr_(self, o, attr, v):
        cx = self.cx
        o = self.force(o)
        if not (isinstance(o, Sym) and isinstance(res(o.ty), TRef)): raise Unsupported("attribute assignment on %r" % (o,))
        cls = res(o.ty).cls
        for c in self.class_of(o):
            for ci in self.repo.mro(c):
                if attr in ci.setters:
                    fn = FuncV(ci.setters[attr], ci.mod.name, cls=ci.name, qual="%s:%s.%s.setter" % (ci.mod.name, ci.name, attr))
                    self.call_fn(fn, [o, v], {}); return
                if attr in ci.props: raise PyRaise("AttributeError")
        if isinstance(v, (IterV, GenV, SeqV)) or isinstance(v, BuiltinV): raise Unsupported("iterator stored in a field")
        ty = self.spec.field_type(self.repo, cls, attr)
        if ty is None:
            vt = self.typeof(v)
            old = cx.task.site_types.get(("field", attr))
            ty = vt if old is None else self.unify(old, vt)
            cx.task.site_types[("field", attr)] = ty
        e = self.enc(v, ty)
        cx.wr("f:" + attr, o.t, e, op="field", val=e)
        self.spec.on_setfield(self, o, attr, v)

    # ================================================================= items
    def index(self, seq, k):
        """bounds-checked element"""
        cx = self.cx
        i = self.int_(k)
        ii = z3.simplify(i)
        if z3.is_int_value(ii):
            c = ii.as_long()
            pos = i if c >= 0 else seq.n + c
            ok = seq.n > c if c >= 0 else seq.n >= -c
        else:
            if cx.branch(i >= 0): pos, ok = i, i < seq.n
            else: pos, ok = seq.n + i, seq.n + i >= 0
        if not cx.branch(ok): raise PyRaise("IndexError")
        return z3.simplify(pos)
    def getitem(self, o, k):
        cx = self.cx
        o = self.force(o)
        if isinstance(k, tuple) and k and k[0] == "slice": return self.slice(o, k)
        if isinstance(o, Tup):
            kk = z3.simplify(self.int_(k))
            if z3.is_int_value(kk):
                c = kk.as_long()
                if not -len(o.els) <= c < len(o.els): raise PyRaise("IndexError")
                return o.els[c]
            s = self.as_seq(o)
            return s.get(self.index(s, k))
        if isinstance(o, Sym):
            ty = res(o.ty)
            if isinstance(ty, (TList, TSeq)):
                s = self.as_seq(o)
                p = self.index(s, k)
                self.spec.on_iter(self, s, p)
                return s.get(p)
            if isinstance(ty, TDict): return self.dict_get(o, k)
        if isinstance(o, SeqV):
            p = self.index(o, k); return o.get(p)
        if isinstance(o, KwV):
            if isinstance(k, PyC) and k.v in o.entries:
                p, v = o.entries[k.v]
                if not cx.branch(p): raise PyRaise("KeyError")
                return v
            raise Unsupported("kwargs lookup")
        return self.spec.getitem(self, o, k)
    def setitem(self, o, k, v):
        cx = self.cx
        o = self.force(o)
        if isinstance(o, KwV):
            if not isinstance(k, PyC): raise Unsupported("kwargs key")
            o2 = dict(o.entries); o2[k.v] = (z3.BoolVal(True), v); o.entries = o2
            return
        if isinstance(o, Sym):
            ty = res(o.ty)
            if isinstance(ty, TDict): self.dict_set(o, k, v); return
            if isinstance(ty, TList):
                s = self.as_seq(o)
                p = self.index(s, k)
                et = self.widen(ty.el, self.typeof(v)); e = self.enc(v, et)
                a = cx.rd("L.el", o.t)
                cx.wr("L.el", o.t, z3.Store(a, p, e), key=p, op="listset", val=e)
                return
        if isinstance(o, (Tup,)): raise PyRaise("TypeError")
        raise Unsupported("item assignment on %r" % (o,))
    def delitem(self, o, k):
        cx = self.cx
        if isinstance(o, Sym) and isinstance(res(o.ty), TDict):
            ke = self.enc(k, res(o.ty).k)
            if not cx.branch(z3.Select(cx.rd("D.dom", o.t), ke)): raise PyRaise("KeyError")
            cx.wr("D.dom", o.t, z3.Store(cx.rd("D.dom", o.t), ke, z3.BoolVal(False)), key=ke, op="dictdel"); return
        raise Unsupported("del item")
    def slice(self, o, k):
        cx = self.cx
        _, lo, hi, st = k
        if isinstance(o, Tup) and all(x is None or isinstance(x, PyC) for x in (lo, hi, st)):
            return Tup(o.els[slice(*[None if x is None else x.v for x in (lo, hi, st)])])
        if st is not None and not (isinstance(st, PyC) and st.v in (1, None, -1)): raise Unsupported("slice step")
        s = self.as_seq(o)
        if st is not None and isinstance(st, PyC) and st.v == -1:
            if lo is not None or hi is not None: raise Unsupported("slice step")
            out = SeqV(s.n, lambda i: s.get(s.n - 1 - i))
            return self.to_seq(out) if not isinstance(res(o.ty), TList) else self.list_from(out, None)
        def norm(x, dflt):
            if x is None or (isinstance(x, PyC) and x.v is None): return dflt
            i = self.int_(x)
            ii = z3.simplify(i)
            if z3.is_int_value(ii):
                c = ii.as_long()
                return z3.If(s.n < c, s.n, z3.IntVal(c)) if c >= 0 else z3.If(s.n + c < 0, z3.IntVal(0), s.n + c)
            return z3.If(i < 0, z3.If(s.n + i < 0, z3.IntVal(0), s.n + i), z3.If(i > s.n, s.n, i))
        a, b = norm(lo, z3.IntVal(0)), norm(hi, s.n)
        n = z3.If(b > a, b - a, z3.IntVal(0))
        nm = cx.fresh("sln"); cx.assume(z3.And(nm == n, nm >= 0))
        off = cx.fresh("slo"); cx.assume(off == a)
        # build the shifted array once
        _, arr, ety = self.arr_of(s)
        a2 = cx.fresh("sla", AI); i = z3.Int("i")
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < nm), a2[i] == arr[i + off]), [a2[i]]))
        out = SeqV(nm, lambda i: self.el(a2, i, ety), src=("arr", a2, ety, None))
        if isinstance(o, Sym) and isinstance(res(o.ty), TList): return self.list_from(out, None, elty=res(o.ty).el)
        return self.to_seq(out)

    # ================================================================= operators
    def binop(self, op, l, r, node=None):
        l, r = self.force(l), self.force(r)
        if self.is_int(l) and self.is_int(r):
            a, b = self.int_(l), self.int_(r)
            if op == "add": return self.num(a + b)
            if op == "sub": return self.num(a - b)
            if op == "mul": return self.num(a * b)
            if op == "floordiv":
                if not self.cx.branch(b != 0): raise PyRaise("ZeroDivisionError")
                return self.num(self.fdiv(a, b))
            if op == "mod":
                if not self.cx.branch(b != 0): raise PyRaise("ZeroDivisionError")
                return self.num(self.pmod(a, b))
            if op == "pow": return self.num(self.ppow(a, b))
            if op == "and" and all(res(self.typeof(x)) is TBool for x in (l, r)): return Sym(TBool, z3.And(self.truth(l), self.truth(r)))
            if op == "or" and all(res(self.typeof(x)) is TBool for x in (l, r)): return Sym(TBool, z3.Or(self.truth(l), self.truth(r)))
            raise Unsupported("int %s" % op)
        if isinstance(l, Sym) and isinstance(res(l.ty), TRef) or isinstance(r, Sym) and isinstance(res(r.ty), TRef):
            return self.obj_binop(op, l, r)
        if op == "add" and isinstance(l, Tup) and isinstance(r, Tup): return Tup(l.els + r.els)
        if op == "add":
            lt = res(l.ty) if isinstance(l, Sym) else None
            if isinstance(lt, TList) or isinstance(lt, TSeq) or isinstance(l, Tup):
                out = self.list_from(l, ("cat", node.lineno if node else 0, node.col_offset if node else 0, self.cx.task.name))
                self.extend(out, r)
                if isinstance(lt, TList): return out
                return self.to_seq(out, None)
            if isinstance(l, (TextV, PyC)) and isinstance(r, (TextV, PyC)): return TextV(self.fmt_part(l) + self.fmt_part(r))
        if op == "mul" and isinstance(l, Sym) and isinstance(res(l.ty), TList) and self.is_int(r):
            seq = self.as_seq(l)
            if z3.simplify(seq.n).eq(z3.IntVal(1)):
                v = seq.get(z3.IntVal(0)); k = self.int_(r)
                e = self.enc(v)
                a = z3.K(I, e)
                n = z3.If(k > 0, k, z3.IntVal(0))
                return self.list_from(SeqV(n, lambda i: v, src=("arr", a, self.typeof(v), None)), ("rep", node.lineno, node.col_offset, self.cx.task.name))
        raise Unsupported("operator %s on %r and %r" % (op, l, r))
    def num(self, t):
        return Sym(TInt, t)
    def fdiv(self, a, b):
        bb = z3.simplify(b)
        if z3.is_int_value(bb):
            c = bb.as_long()
            return a / z3.IntVal(c) if c > 0 else (-a) / z3.IntVal(-c)
        return FDIV(a, b)
    def pmod(self, a, b):
        bb = z3.simplify(b)
        if z3.is_int_value(bb) and bb.as_long() > 0: return a % bb
        return MOD(a, b)
    def ppow(self, a, b):
        aa, bb = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(aa) and z3.is_int_value(bb) and 0 <= bb.as_long() <= 64: return z3.IntVal(aa.as_long() ** bb.as_long())
        return POW(a, b)
    def obj_binop(self, op, l, r):
        """Python's operator protocol for repository objects and integers"""
        names = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "truediv", "mod": "mod", "pow": "pow", "and": "and", "or": "or", "floordiv": "floordiv"}
        nm = names[op]
        if isinstance(l, Sym) and isinstance(res(l.ty), TRef):
            if isinstance(r, Sym) and isinstance(res(r.ty), TRef):
                # a proper subclass on the right that overrides the reflected method would go first
                for a in self.class_of(l):
                    for b in self.class_of(r):
                        if a != b and self.repo.is_sub(b, a):
                            fa, fb = self.repo.find(a, "__r%s__" % nm)[0], self.repo.find(b, "__r%s__" % nm)[0]
                            if fa is not fb: raise Unsupported("reflected operator overridden in a subclass")
            m = self.getattr_(l, "__%s__" % nm)
            return self.call(m, [r], {})
        if self.is_int(l):
            m = self.getattr_(r, "__r%s__" % nm)
            return self.call(m, [l], {})
        raise Unsupported("operator on %r" % (l,))
    def compare(self, op, l, r):
        cx = self.cx
        if isinstance(op, (ast.Is, ast.IsNot)):
            v = self.is_(l, r)
            return v if isinstance(op, ast.Is) else Sym(TBool, z3.Not(self.truth(v)))
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.contains(r, l)
            return Sym(TBool, f if isinstance(op, ast.In) else z3.Not(f))
        nm = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        return self.cmp(nm, l, r)
    def cmp(self, nm, l, r):
        l, r = self.force(l), self.force(r)
        lo = isinstance(l, Sym) and isinstance(res(l.ty), TRef)
        ro = isinstance(r, Sym) and isinstance(res(r.ty), TRef)
        if lo and self.has_any(l, "__%s__" % nm) and not (isinstance(r, PyC) and r.v is None):
            return self.obj_cmp(nm, l, r)
        if ro and not lo and self.has_any(r, "__%s__" % SWAP[nm]) and self.is_int(l):
            return self.call(self.getattr_(r, "__%s__" % SWAP[nm]), [l], {})
        if nm in ("eq", "ne"):
            e = self.equal(l, r)
            return Sym(TBool, e if nm == "eq" else z3.Not(e))
        a, b = self.int_(l), self.int_(r)
        return Sym(TBool, {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[nm])
    def has_any(self, v, attr): return any(self.repo.find(c, attr)[0] is not None for c in self.class_of(v))
    def obj_cmp(self, nm, l, r):
        cx = self.cx
        if isinstance(r, Sym) and isinstance(res(r.ty), TRef):
            # Python tries the reflected method first when type(r) is a proper subclass of type(l)
            lc, rc = self.class_of(l), self.class_of(r)
            conds = [z3.And(CLS(l.t) == self.cid[a], CLS(r.t) == self.cid[b]) for a in lc for b in rc if a != b and self.repo.is_sub(b, a)]
            if conds and cx.branch(z3.Or(*conds)):
                return self.call(self.getattr_(r, "__%s__" % SWAP[nm]), [l], {})
        return self.call(self.getattr_(l, "__%s__" % nm), [r], {})
    def is_(self, l, r):
        cx = self.cx
        for a, b in ((l, r), (r, l)):
            if isinstance(b, PyC) and b.v is None:
                if isinstance(a, PyC): return PyC(a.v is None)
                if isinstance(a, Sym) and isinstance(res(a.ty), TOpt): return Sym(TBool, a.t == 0)
                return PyC(False)
            if isinstance(b, PyC) and isinstance(b.v, tuple) and b.v[0] == "singleton":
                if isinstance(a, PyC): return PyC(a.v == b.v)
                return self.spec.is_singleton(self, a, b.v[1])
        l, r = self.force(l), self.force(r)
        if isinstance(l, EnumV) and isinstance(r, EnumV): return PyC(l.cls == r.cls and l.num == r.num)
        for a, b in ((l, r), (r, l)):
            if isinstance(b, EnumV):
                if isinstance(a, Sym) and isinstance(res(a.ty), TEnum): return Sym(TBool, a.t == b.num)
                return PyC(False)
        if isinstance(l, BuiltinV) and l.name == "dynclass" or isinstance(r, BuiltinV) and r.name == "dynclass":
            return Sym(TBool, self.equal(l, r))
        if self.is_int(l) and self.is_int(r):
            # object identity of ints is not determined by the language: it only implies equality
            a, b = self.int_(l), self.int_(r)
            if isinstance(l, PyC) and isinstance(r, PyC): return PyC(l.v is r.v)
            p = cx.fresh("same", B)
            cx.assume(z3.Implies(p, a == b))
            return Sym(TBool, p)
        if isinstance(l, Sym) and isinstance(r, Sym) and is_ref(l.ty) and is_ref(r.ty):
            if type(res(l.ty)) is not type(res(r.ty)): return PyC(False)
            return Sym(TBool, l.t == r.t)
        if isinstance(l, PyC) and isinstance(l.v, bool) or isinstance(r, PyC) and isinstance(r.v, bool):
            a, b = (l, r) if isinstance(r, PyC) else (r, l)
            if isinstance(a, Sym) and res(a.ty) is TBool: return Sym(TBool, a.t == b.v)
            return PyC(False) if not (isinstance(a, Sym) and res(a.ty) is TAny) else (_ for _ in ()).throw(Unsupported("is bool"))
        raise Unsupported("is on %r and %r" % (l, r))
    def equal(self, l, r):
        l, r = self.force(l), self.force(r)
        if isinstance(l, PyC) and isinstance(r, PyC): return z3.BoolVal(l.v == r.v)
        if isinstance(l, PyC) and l.v is None or isinstance(r, PyC) and r.v is None: return z3.BoolVal(False)
        if self.is_int(l) and self.is_int(r): return self.int_(l) == self.int_(r)
        if isinstance(l, BuiltinV) and l.name == "dynclass":
            if isinstance(r, BuiltinV) and r.name == "dynclass": return CLS(l.self_.t) == CLS(r.self_.t)
            if isinstance(r, ClassV): return CLS(l.self_.t) == self.cid[r.info.name]
        if isinstance(r, BuiltinV) and r.name == "dynclass" and isinstance(l, ClassV): return CLS(r.self_.t) == self.cid[l.info.name]
        if isinstance(l, ClassV) and isinstance(r, ClassV): return z3.BoolVal(l.info.name == r.info.name)
        if isinstance(l, Tup) and isinstance(r, Tup):
            if len(l.els) != len(r.els): return z3.BoolVal(False)
            return z3.And(*[self.equal(a, b) for a, b in zip(l.els, r.els)]) if l.els else z3.BoolVal(True)
        try: lt, rt = res(self.typeof(l)), res(self.typeof(r))
        except Unsupported: lt = rt = None
        if lt is not None and repr(lt) == repr(rt) and (lt in (TStr, TAny) or isinstance(lt, TEnum)): return self.enc(l, lt) == self.enc(r, lt)
        if TAny in (lt, rt) and {lt, rt} <= {TAny, TInt, TStr, TBool}: return self.enc(l, TAny) == self.enc(r, TAny)
        if {lt, rt} in ({TStr, TInt}, {TStr, TBool}): return z3.BoolVal(False)
        if isinstance(lt, TRef) and isinstance(rt, TRef): return l.t == r.t
        raise Unsupported("== on %r and %r" % (l, r))
    def contains(self, c, v):
        cx = self.cx
        c = self.force(c)
        if isinstance(c, KwV):
            if isinstance(v, PyC): return c.entries[v.v][0] if v.v in c.entries else z3.BoolVal(False)
        if isinstance(c, Sym):
            ty = res(c.ty)
            if isinstance(ty, (TDict, TSet)):
                kt = res(ty.k if isinstance(ty, TDict) else ty.el)
                dom = cx.rd("D.dom", c.t) if isinstance(ty, TDict) else self.set_dom(c)
                if isinstance(kt, TVar): self.untyped(kt); return z3.BoolVal(False)
                if not isinstance(kt, TOpt) and isinstance(v, Sym) and isinstance(res(v.ty), TOpt):
                    v = self.force(v)
                if isinstance(v, PyC) and v.v is None and not isinstance(kt, TOpt): return z3.BoolVal(False)
                if isinstance(kt, TTup) :
                    raise Unsupported("tuple keys")
                return z3.Select(dom, self.enc(v, kt))
            if ty is TStr:
                r = self.spec.contains_str(self, c, v)
                if r is not None: return r
        if isinstance(c, Tup):
            fs = []
            for x in c.els: fs.append(self.equal(x, v))
            return z3.Or(*fs) if fs else z3.BoolVal(False)
        seq = self.as_seq(c)
        if z3.simplify(seq.n).eq(z3.IntVal(0)): return z3.BoolVal(False)
        n, a, ty = self.arr_of(seq)
        if isinstance(res(ty), TVar): self.widen(ty, self.typeof(v))
        if res(ty) not in (TInt, TStr, TAny, TBool): raise Unsupported("in on a sequence of %r" % ty)
        e = self.enc(v, ty)
        # w: some position of v, if there is one
        p, w = cx.fresh("isin", B), cx.fresh("pos"); i = z3.Int("i")
        cx.assume(p == ELS(a, n)[e])
        cx.assume(z3.Implies(p, z3.And(0 <= w, w < n, a[w] == e)))
        cx.assume(z3.Implies(z3.Not(p), forall([i], z3.Implies(z3.And(0 <= i, i < n), a[i] != e), [a[i]])))
        return p

    # ================================================================= text
    def opaque_part(self, v): return [("opaque",)]
    def fmt_part(self, v):
        """pieces of str(v)"""
        v = self.force(v)
        if isinstance(v, TextV): return list(v.parts)
        if isinstance(v, PyC):
            if isinstance(v.v, str): return [v.v]
            return [str(v.v)]
        if isinstance(v, Sym):
            ty = res(v.ty)
            if ty is TInt: return [("int", v.t)]
            if ty is TBool: return [("bool", v.t)]
            if ty is TStr: return [("name", v.t)]
            if ty is TText: return [("txt", v.t)]
            if ty is TAny: return [("int", v.t)]
            if isinstance(ty, TRef):
                m = self.getattr_(v, "__str__")
                return self.fmt_part(self.call(m, [], {}))
        raise Unsupported("str of %r" % (v,))
    def b_str(self, f, args, kw, node, env):
        if not args: return PyC("")
        v = self.force(args[0])
        p = self.fmt_part(v)
        if len(p) == 1 and isinstance(p[0], str): return PyC(p[0])
        return TextV(p)
    def b_repr(self, f, args, kw, node, env): return TextV([("opaque",)])
    def b_str_format(self, f, args, kw, node, env):
        s = f.self_
        if isinstance(s, TextV) and all(isinstance(p, str) for p in s.parts): s = PyC("".join(s.parts))
        if not (isinstance(s, PyC) and isinstance(s.v, str)): raise Unsupported("format of a computed string")
        import string
        out, auto = [], 0
        for lit, fld, spec, conv in string.Formatter().parse(s.v):
            if lit: out.append(lit)
            if fld is None: continue
            if spec: raise Unsupported("format spec")
            if fld == "":
                v = args[auto]; auto += 1
            elif fld.isdigit(): v = args[int(fld)]
            elif fld in kw: v = kw[fld]
            else: raise Unsupported("format field")
            out += self.opaque_part(v) if conv else self.fmt_part(v)
        return TextV(out)
    def b_str_join(self, f, args, kw, node, env):
        s = f.self_
        if not (isinstance(s, PyC) and isinstance(s.v, str)): raise Unsupported("join of a computed separator")
        return self.spec.join(self, s.v, args[0])

    # ================================================================= builtins
    def str_fun(self, f, args, kw, node, env):
        """a string function about which nothing is known"""
        if args or kw: raise Unsupported("call of %s" % f.name)
        v = self.force(f.self_)
        if isinstance(v, PyC) and isinstance(v.v, str): return PyC(getattr(v.v, f.name[4:])())
        return Sym(TStr, z3.Function(f.name, z3.IntSort(), z3.IntSort())(self.enc(v, TStr)))
    b_str_lower = b_str_upper = b_str_casefold = b_str_strip = b_str_lstrip = b_str_rstrip = b_str_title = b_str_swapcase = b_str_capitalize = str_fun
    def b_len(self, f, args, kw, node, env):
        cx = self.cx
        v = self.force(args[0])
        if isinstance(v, PyC) and (v.v is None or isinstance(v.v, (int, float))) or isinstance(v, Sym) and res(v.ty) in (TInt, TBool, TNone): raise PyRaise("TypeError")
        if isinstance(v, Tup): return PyC(len(v.els))
        if isinstance(v, PyC) and isinstance(v.v, str): return PyC(len(v.v))
        if isinstance(v, SeqV): return Sym(TInt, v.n)
        if isinstance(v, Sym):
            ty = res(v.ty)
            if isinstance(ty, TList):
                n = cx.rd("L.len", v.t); cx.assume(n >= 0); return Sym(TInt, n)
            if isinstance(ty, TSeq): return Sym(TInt, SL(v.t))
            if isinstance(ty, TColl): return Sym(TInt, COLLN(v.t))
            if isinstance(ty, TDict): return Sym(TInt, self.card(cx.rd("D.dom", v.t)))
            if isinstance(ty, TSet): return Sym(TInt, self.card(self.set_dom(v)))
            if isinstance(ty, TRef): return self.call(self.getattr_(v, "__len__"), [], {})
        raise Unsupported("len of %r" % (v,))
    def card(self, dom):
        cx = self.cx
        x = z3.Int("x"); w = cx.fresh("cw")
        c = CARD(dom)
        cx.assume(z3.And(c >= 0, z3.Implies(c == 0, forall([x], z3.Not(dom[x]), [dom[x]] if z3.is_const(dom) or True else None)), z3.Implies(c != 0, dom[w])))
        return c
    def truth(self, v):
        v = self.force(v)
        if isinstance(v, Sym) and isinstance(res(v.ty), (TDict, TSet)):
            return self.card(self.cx.rd("D.dom", v.t) if isinstance(res(v.ty), TDict) else self.set_dom(v)) != 0
        return Machine.truth(self, v)
    def b_range(self, f, args, kw, node, env):
        a = [self.int_(x) for x in args]
        if len(a) == 1: lo, hi = z3.IntVal(0), a[0]
        elif len(a) == 2: lo, hi = a
        else: raise Unsupported("range step")
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        if not z3.is_int_value(n):
            k = self.cx.fresh("rn"); self.cx.assume(k == n); self.cx.assume(k >= 0); n = k
        s = SeqV(n, lambda i: Sym(TInt, lo + i if not z3.is_int_value(z3.simplify(lo)) or z3.simplify(lo).as_long() != 0 else i), distinct=True)
        s.rng = (lo, hi)
        return s
    def b_enumerate(self, f, args, kw, node, env):
        s = self.as_seq(args[0])
        st = self.int_(args[1]) if len(args) > 1 else (self.int_(kw["start"]) if "start" in kw else z3.IntVal(0))
        zero = z3.is_int_value(z3.simplify(st)) and z3.simplify(st).as_long() == 0
        r = SeqV(s.n, lambda i: Tup([Sym(TInt, i if zero else st + i), s.get(i)]))
        r.pats = lambda x: self.seq_pats(s, x)
        r.under = s
        return r
    def b_zip(self, f, args, kw, node, env):
        ss = [self.as_seq(x) for x in args]
        n = ss[0].n
        for s in ss[1:]: n = z3.If(s.n < n, s.n, n)
        n = z3.simplify(n)
        if not z3.is_int_value(n) and len(ss) > 1:
            k = self.cx.fresh("zn"); self.cx.assume(k == n); self.cx.assume(k >= 0)
            n = k
        r = SeqV(n, lambda i: Tup([s.get(i) for s in ss]))
        r.pats = lambda x: [p for s in ss for p in self.seq_pats(s, x)]
        r.unders = ss
        return r
    def b_reversed(self, f, args, kw, node, env):
        s = self.as_seq(args[0])
        cx = self.cx
        if z3.is_int_value(z3.simplify(s.n)): return SeqV(s.n, lambda i: s.get(s.n - 1 - i), distinct=s.distinct)
        n, a, ty = self.arr_of(s)
        b = cx.fresh("rev", AI); i = z3.Int("i")
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), b[i] == a[n - 1 - i]), [b[i]]))
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), b[n - 1 - i] == a[i]), [a[i]]))
        return SeqV(n, lambda i: self.el(b, i, ty), src=("arr", b, ty, None), distinct=s.distinct)
    def permuted(self, seq):
        """an arbitrary permutation of a sequence (sorted, shuffle)"""
        cx = self.cx
        n, a, ty = self.arr_of(seq)
        b, P, Q = cx.fresh("perm", AI), cx.fresh("pp", AI), cx.fresh("pq", AI); i = z3.Int("i")
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= P[i], P[i] < n, Q[P[i]] == i, b[i] == a[P[i]])), [b[i], P[i]]))
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= Q[i], Q[i] < n, P[Q[i]] == i, b[Q[i]] == a[i])), [a[i], Q[i]]))
        return n, b, ty
    def b_sorted(self, f, args, kw, node, env):
        seq = self.as_seq(args[0])
        if "key" in kw:
            # the key function is evaluated on an arbitrary element: it must not fail or have effects
            j = self.cx.fresh("j")
            def thunk():
                self.cx.assume(z3.And(0 <= j, j < seq.n))
                self.call(kw["key"], [seq.get(j)], {}); return z3.IntVal(0)
            lf = Lifted(self, j, seq.n, thunk)
            lf.no_raise()
            self.allow_dict_defaults(lf)
        n, b, ty = self.permuted(seq)
        return self.list_from(SeqV(n, lambda i: self.el(b, i, ty), src=("arr", b, ty, None), distinct=seq.distinct), self.site(node) if node is not None else None)
    def allow_dict_defaults(self, lf):
        """a key function may create default entries in a defaultdict: forget that dictionary's absent keys"""
        cx = self.cx
        maps = {}
        for o in lf.outs:
            for (m, r, key, op, val) in o.writes:
                if not (op in ("init", "dictset") ): raise Unsupported("key function with effect %s" % op)
                maps.setdefault(m, []).append((r, key, op))
        if not maps: return
        self.spec.key_effects(self, lf, maps)
    def b_random_shuffle(self, f, args, kw, node, env):
        l = args[0]
        n, b, ty = self.permuted(self.as_seq(l))
        self.cx.wr("L.el", l.t, b, op="shuffle")
        return PyC(None)
    def b_isinstance(self, f, args, kw, node, env):
        v = self.force(args[0]); c = args[1]
        cs = c.els if isinstance(c, Tup) else [c]
        fs = [self.isinst(v, x) for x in cs]
        return Sym(TBool, z3.simplify(z3.Or(*fs)))
    def isinst(self, v, c):
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if isinstance(c, ClassV):
            if isinstance(v, Sym) and isinstance(res(v.ty), TRef):
                ks = [self.cid[n] for n in self.repo.subclasses(c.info.name)]
                if self.repo.is_sub(res(v.ty).cls, c.info.name): return T
                poss = [k for k in ks if k in [self.cid[n] for n in self.repo.subclasses(res(v.ty).cls)]]
                return z3.Or(*[CLS(v.t) == k for k in poss]) if poss else F
            if isinstance(v, Sym) and isinstance(res(v.ty), TEnum): return T if res(v.ty).cls == c.info.name else F
            if isinstance(v, EnumV): return T if v.cls == c.info.name else F
            if isinstance(v, OpaqueV): raise Unsupported("isinstance of an opaque value")
            return F
        if isinstance(c, BuiltinV):
            n = c.name
            if n == "dynclass": 
                return self.spec.isinst_dyn(self, v, c)
            ty = None
            if isinstance(v, Sym): ty = res(v.ty)
            elif isinstance(v, PyC): ty = TBool if isinstance(v.v, bool) else TInt if isinstance(v.v, int) else TStr if isinstance(v.v, str) else TNone
            elif isinstance(v, TextV): ty = TStr
            if ty is TAny: return self.spec.isinst_any(self, v, n)
            if n == "int": return T if ty in (TInt, TBool) else F
            if n == "bool": return T if ty is TBool else F
            if n == "str": return T if ty in (TStr, TText) else F
            if n in ("list", "tuple", "dict", "set", "frozenset", "float"):
                return T if (n == "list" and isinstance(ty, TList)) or (n == "tuple" and (isinstance(ty, TSeq) or isinstance(v, Tup))) or (n == "dict" and isinstance(ty, TDict)) or (n in ("set", "frozenset") and isinstance(ty, TSet) and ty.frozen == (n == "frozenset")) else F
        raise Unsupported("isinstance with %r" % (c,))
    def b_type(self, f, args, kw, node, env):
        v = self.force(args[0])
        if isinstance(v, Sym) and isinstance(res(v.ty), TRef):
            cs = self.class_of(v)
            if len(cs) == 1: return ClassV(self.repo.classes[cs[0]])
            return BuiltinV("dynclass", None, v)
        return OpaqueV("type")
    def b_dynclass(self, f, args, kw, node, env):
        x = f.self_
        cs = self.class_of(x)
        k = self.cx.choose([CLS(x.t) == self.cid[c] for c in cs])
        return self.construct(self.repo.classes[cs[k]], args, kw, node)
    def b_object_init(self, f, args, kw, node, env): return PyC(None)
    def b_object(self, f, args, kw, node, env): return Sym(TAny, self.cx.fresh("object"))
    def b_int(self, f, args, kw, node, env):
        v = self.force(args[0])
        if self.is_int(v): return Sym(TInt, self.int_(v)) if not isinstance(v, PyC) else PyC(int(v.v))
        raise Unsupported("int() of %r" % (v,))
    def b_bool(self, f, args, kw, node, env):
        if not args: return PyC(False)
        t = self.truth(args[0])
        return Sym(TBool, t)
    def b_abs(self, f, args, kw, node, env):
        v = self.force(args[0])
        if self.is_int(v):
            t = self.int_(v); return Sym(TInt, z3.If(t >= 0, t, -t))
        return self.call(self.getattr_(v, "__abs__"), [], {})
    def b_list(self, f, args, kw, node, env):
        if not args: return self.new_list(self.site(node))
        return self.list_from(args[0], self.site(node))
    def b_tuple(self, f, args, kw, node, env):
        if not args: return Tup([])
        v = self.force(args[0])
        if isinstance(v, Tup): return v
        s = self.as_seq(v)
        n = z3.simplify(s.n)
        if z3.is_int_value(n) and n.as_long() <= 12 and not isinstance(v, Sym):
            return Tup([s.get(z3.IntVal(i)) for i in range(n.as_long())])
        return self.to_seq(v if isinstance(v, Sym) and isinstance(res(v.ty), TSeq) else s)
    def b_set(self, f, args, kw, node, env):
        if not args: return self.new_set(self.site(node))
        return self.set_of(args[0], self.site(node))
    def b_frozenset(self, f, args, kw, node, env):
        if not args:
            s = self.new_set(self.site(node)); return s
        return self.set_of(args[0], self.site(node), frozen=True)
    def b_dict(self, f, args, kw, node, env):
        if kw: raise Unsupported("dict(**)")
        if not args: return self.new_dict(self.site(node))
        v = self.force(args[0])
        if isinstance(v, Sym) and isinstance(res(v.ty), TDict): return self.dict_copy(v)
        return self.dict_from_pairs(self.as_seq(v), self.site(node))
    def b_iter(self, f, args, kw, node, env): return IterV(self.as_seq(args[0]))
    def b_next(self, f, args, kw, node, env):
        it = args[0]
        if not isinstance(it, IterV) and not (isinstance(it, BuiltinV) and it.name == "genexp"): raise Unsupported("next")
        s = self.as_seq(it)
        if len(args) > 1:
            if not self.cx.branch(s.n > 0): return args[1]
        elif not self.cx.branch(s.n > 0): raise PyRaise("StopIteration")
        v = s.get(z3.IntVal(0))
        if isinstance(it, IterV): it.seq = SeqV(s.n - 1, lambda i: s.get(i + 1))
        return v
    def quant(self, arg, want_all):
        """any/all over a generator expression or a sequence"""
        cx = self.cx
        if isinstance(arg, BuiltinV) and arg.name == "genexp" and len(arg.node.generators) == 1:
            g = arg.node.generators[0]
            seq = self.as_seq(self.ev(g.iter, arg.env))
            def thunk_of(v, e):
                self.assign(g.target, v, e)
                for c in g.ifs:
                    if not self.istrue(self.ev(c, e)): return z3.BoolVal(want_all)
                return self.truth(self.ev(arg.node.elt, e))
            env = arg.env
        else:
            seq = self.as_seq(arg); env = None
            def thunk_of(v, e): return self.truth(v)
        n = z3.simplify(seq.n)
        if z3.is_int_value(n) and n.as_long() <= 8:
            for k in range(n.as_long()):
                e = self.comp_env(env) if env is not None else None
                t = self.cx.branch(thunk_of(seq.get(z3.IntVal(k)), e))
                if t != want_all: return PyC(not want_all)
            return PyC(want_all)
        j = cx.fresh("j")
        def thunk():
            cx.assume(z3.And(0 <= j, j < seq.n))
            e = self.comp_env(env) if env is not None else None
            self.spec.on_iter(self, seq, j)
            return thunk_of(seq.get(j), e)
        lf = Lifted(self, j, seq.n, thunk)
        # lazily evaluated: an exception is only reached when nothing decided before; treated as reachable
        lf.no_raise()
        if not lf.pure(): raise Unsupported("side effect inside any/all")
        pats = lambda x: self.seq_pats(seq, x)
        lf.commit(pats)
        jj = z3.Int("jj")
        good = z3.Or(*[z3.And(o.cond, o.val if want_all else z3.Not(o.val)) for o in lf.outs]) if lf.outs else z3.BoolVal(True)
        p, w = cx.fresh("all" if want_all else "any", B), cx.fresh("wit")
        allgood = p if want_all else z3.Not(p)
        lf.assert_forall(jj, lf.sub(z3.Implies(z3.And(allgood, 0 <= j, j < seq.n), good), jj), lambda x: pats(x) + elem_terms(lf.sub(good, x), x))
        cx.assume(z3.Implies(z3.Not(allgood), z3.And(0 <= w, w < seq.n, z3.Not(lf.sub(good, w)))))
        self.spec.on_witness(self, seq, w)
        return Sym(TBool, p)
    def b_any(self, f, args, kw, node, env): return self.quant(args[0], False)
    def b_all(self, f, args, kw, node, env): return self.quant(args[0], True)
    def b_sum(self, f, args, kw, node, env):
        start = args[1] if len(args) > 1 else kw.get("start", PyC(0))
        return self.spec.sum_(self, args[0], start, node)
    def b_max(self, f, args, kw, node, env): return self.minmax(args, kw, True)
    def b_min(self, f, args, kw, node, env): return self.minmax(args, kw, False)
    def minmax(self, args, kw, is_max):
        cx = self.cx
        if len(args) > 1:
            t = self.int_(args[0])
            for a in args[1:]:
                b = self.int_(a); t = z3.If((b > t) if is_max else (b < t), b, t)
            return Sym(TInt, t)
        if "key" in kw: raise Unsupported("min/max key")
        s = self.as_seq(args[0])
        if not cx.branch(s.n > 0):
            if "default" in kw: return kw["default"]
            raise PyRaise("ValueError")
        n, a, ty = self.arr_of(s)
        if res(ty) not in (TInt, TBool): raise Unsupported("min/max of %r" % ty)
        m, w = cx.fresh("max" if is_max else "min"), cx.fresh("mw"); i = z3.Int("i")
        cx.assume(z3.And(0 <= w, w < n, a[w] == m))
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), (a[i] <= m) if is_max else (a[i] >= m)), [a[i]]))
        return Sym(TInt, m)
    def b_map(self, f, args, kw, node, env):
        fn = args[0]; s = self.as_seq(args[1])
        return self.spec.lazy_map(self, fn, s)
    def b_itertools_chain(self, f, args, kw, node, env):
        segs = [self.as_seq(a) for a in args]
        col = self.new_list(("chain", node.lineno, node.col_offset, self.cx.task.name))
        for s in segs:
            if z3.simplify(s.n).eq(z3.IntVal(0)): continue
            self.extend(col, s)
        return self.as_seq(col)
    def b_collections_defaultdict(self, f, args, kw, node, env):
        k = args[0].name if args and isinstance(args[0], BuiltinV) else None
        if k not in ("list", "set"): raise Unsupported("defaultdict(%s)" % k)
        return self.new_dict(self.site(node), default=k)
    def b_collections_OrderedDict(self, f, args, kw, node, env): return self.b_dict(f, args, kw, node, env)
    def b_types_MappingProxyType(self, f, args, kw, node, env): return args[0]
    def b_copy_copy(self, f, args, kw, node, env):
        v = self.force(args[0])
        if isinstance(v, Sym) and isinstance(res(v.ty), TDict): return self.dict_copy(v)
        if isinstance(v, Sym) and isinstance(res(v.ty), TList): return self.list_from(v, None, elty=res(v.ty).el)
        raise Unsupported("copy.copy")
    def b_time_time(self, f, args, kw, node, env): return self.spec.time(self)
    b_time_perf_counter = b_time_monotonic = b_time_time
    def b_operator_lt(self, f, args, kw, node, env): return self.cmp("lt", *args)
    def b_operator_gt(self, f, args, kw, node, env): return self.cmp("gt", *args)
    def b_operator_le(self, f, args, kw, node, env): return self.cmp("le", *args)
    def b_operator_ge(self, f, args, kw, node, env): return self.cmp("ge", *args)
    def b_operator_eq(self, f, args, kw, node, env): return self.cmp("eq", *args)
    def b_operator_ne(self, f, args, kw, node, env): return self.cmp("ne", *args)
    # ---- list methods
    def b_list_append(self, f, args, kw, node, env): self.append(f.self_, args[0]); return PyC(None)
    def b_list_extend(self, f, args, kw, node, env): self.extend(f.self_, args[0]); return PyC(None)
    def b_list_copy(self, f, args, kw, node, env): return self.list_from(f.self_, None, elty=res(f.self_.ty).el)
    def b_list_clear(self, f, args, kw, node, env):
        self.cx.wr("L.len", f.self_.t, z3.IntVal(0), op="listclear"); return PyC(None)
    def b_list_pop(self, f, args, kw, node, env):
        cx = self.cx
        l = f.self_
        n, a = cx.rd("L.len", l.t), cx.rd("L.el", l.t)
        cx.assume(n >= 0)
        ty = res(l.ty).el
        k = z3.simplify(self.int_(args[0])) if args else z3.IntVal(-1)
        if not z3.is_int_value(k): raise Unsupported("pop at a computed position")
        if not cx.branch(n > (k.as_long() if k.as_long() >= 0 else -1 - k.as_long())): raise PyRaise("IndexError")
        if k.as_long() == -1:
            v = self.dec_wf(a[n - 1], ty)
            cx.wr("L.len", l.t, n - 1, op="listpop")
            return v
        if k.as_long() == 0:
            v = self.dec_wf(a[0], ty)
            b = cx.fresh("pop", AI); i = z3.Int("i")
            cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n - 1), b[i] == a[i + 1]), [b[i]]))
            cx.assume(forall([i], z3.Implies(z3.And(0 < i, i < n), b[i - 1] == a[i]), [a[i]]))
            x = z3.Int("x")
            cx.assume(forall([x], ELS(a, n)[x] == z3.Or(x == a[0], ELS(b, n - 1)[x]), [ELS(a, n)[x], ELS(b, n - 1)[x]]))
            cx.wr("L.el", l.t, b, op="listpop"); cx.wr("L.len", l.t, n - 1, op="listpop")
            return v
        raise Unsupported("pop position")
    def b_list_insert(self, f, args, kw, node, env): raise Unsupported("list.insert")
    def b_list_reverse(self, f, args, kw, node, env):
        s = self.b_reversed(None, [f.self_], {}, node, env)
        n, a, ty = self.arr_of(s)
        self.cx.wr("L.el", f.self_.t, a, op="reverse"); return PyC(None)
    def b_list_sort(self, f, args, kw, node, env):
        n, b, ty = self.permuted(self.as_seq(f.self_))
        self.cx.wr("L.el", f.self_.t, b, op="sort"); return PyC(None)
    # ---- dict methods
    def dict_copy(self, d):
        cx = self.cx
        r = cx.new_ref(); ty = res(d.ty)
        cx.wr("D.dom", r, cx.rd("D.dom", d.t), op="init"); cx.wr("D.val", r, cx.rd("D.val", d.t), op="init")
        return Sym(TDict(ty.k, ty.v, ty.default), r)
    def b_dict_copy(self, f, args, kw, node, env): return self.dict_copy(f.self_)
    def b_dict_get(self, f, args, kw, node, env):
        cx = self.cx
        d = f.self_; ty = res(d.ty)
        dflt = args[1] if len(args) > 1 else PyC(None)
        if isinstance(res(ty.k), TVar): self.untyped(res(ty.k)); return dflt
        ke = self.enc(args[0], ty.k)
        if cx.branch(z3.Select(cx.rd("D.dom", d.t), ke)):
            return self.dec_wf(z3.Select(cx.rd("D.val", d.t), ke), ty.v)
        return dflt
    def b_dict_pop(self, f, args, kw, node, env):
        cx = self.cx
        d = f.self_; ty = res(d.ty)
        ke = self.enc(args[0], ty.k)
        dom = cx.rd("D.dom", d.t)
        if not cx.branch(z3.Select(dom, ke)):
            if len(args) > 1: return args[1]
            raise PyRaise("KeyError")
        v = self.dec_wf(z3.Select(cx.rd("D.val", d.t), ke), ty.v)
        cx.wr("D.dom", d.t, z3.Store(dom, ke, z3.BoolVal(False)), key=ke, op="dictset")
        return v
    def b_dict_items(self, f, args, kw, node, env):
        cx = self.cx
        d = f.self_; ty = res(d.ty)
        if isinstance(res(ty.k), TVar): self.untyped(res(ty.k)); return SeqV(z3.IntVal(0), lambda i: (_ for _ in ()).throw(NeedType()))
        ks = self.enum_set(cx.rd("D.dom", d.t), ty.k)
        K = ks.src[1]
        val = cx.rd("D.val", d.t)
        s = SeqV(ks.n, lambda i: Tup([ks.get(i), self.dec_wf(z3.Select(val, K[i]), ty.v)]))
        s.pats = lambda x: [K[x]]
        s.keys = K
        return s
    def b_dict_keys(self, f, args, kw, node, env): return self.as_seq(f.self_)
    def b_dict_values(self, f, args, kw, node, env):
        s = self.b_dict_items(f, args, kw, node, env)
        r = SeqV(s.n, lambda i: s.get(i).els[1]); r.pats = s.pats
        return r
    def b_dict_setdefault(self, f, args, kw, node, env):
        d = f.self_
        if self.cx.branch(self.dict_has(d, args[0])): return self.dict_get(d, args[0])
        self.dict_set(d, args[0], args[1]); return args[1]
    def b_dict_clear(self, f, args, kw, node, env):
        self.cx.wr("D.dom", f.self_.t, z3.K(I, z3.BoolVal(False)), op="dictclear"); return PyC(None)
    # ---- set methods
    def b_set_add(self, f, args, kw, node, env): self.set_add(f.self_, args[0]); return PyC(None)
    def b_set_discard(self, f, args, kw, node, env):
        cx = self.cx
        s = f.self_
        if res(s.ty).frozen: raise PyRaise("AttributeError")
        if isinstance(args[0], PyC) and args[0].v is None and not isinstance(res(res(s.ty).el), TOpt): return PyC(None)
        e = self.enc(args[0], res(s.ty).el)
        cx.wr("S.dom", s.t, z3.Store(cx.rd("S.dom", s.t), e, z3.BoolVal(False)), key=e, op="setdel", val=e)
        return PyC(None)
    def setlike(self, v):
        """(dom-like predicate array, element type) of any iterable used as a set operand"""
        cx = self.cx
        v = self.force(v)
        if isinstance(v, Sym) and isinstance(res(v.ty), TSet): return self.set_dom(v), res(v.ty).el
        if isinstance(v, Sym) and isinstance(res(v.ty), TDict): return cx.rd("D.dom", v.t), res(v.ty).k
        s = self.set_of(v, None)
        return cx.rd("S.dom", s.t), res(s.ty).el
    def setop(self, s, args, f2):
        cx = self.cx
        d = self.set_dom(s); el = res(s.ty).el
        for a in args:
            o, oe = self.setlike(a)
            if isinstance(res(el), TVar) and not isinstance(res(oe), TVar): self.bind(res(el), res(oe))
            n = cx.fresh("so", AB); x = z3.Int("x")
            ps = [n[x]] + ([d[x]] if z3.is_const(d) else []) + ([o[x]] if z3.is_const(o) else [])
            cx.assume(forall([x], n[x] == f2(d[x], o[x]), ps))
            d = n
        return d, el
    def newset(self, d, el):
        r = self.cx.new_ref(); self.cx.wr("S.dom", r, d, op="init"); return Sym(TSet(el), r)
    def b_set_union(self, f, args, kw, node, env): return self.newset(*self.setop(f.self_, args, lambda a, b: z3.Or(a, b)))
    def b_set_intersection(self, f, args, kw, node, env): return self.newset(*self.setop(f.self_, args, lambda a, b: z3.And(a, b)))
    def b_set_difference(self, f, args, kw, node, env): return self.newset(*self.setop(f.self_, args, lambda a, b: z3.And(a, z3.Not(b))))
    def b_set_update(self, f, args, kw, node, env):
        if res(f.self_.ty).frozen: raise PyRaise("AttributeError")
        d, el = self.setop(f.self_, args, lambda a, b: z3.Or(a, b))
        self.cx.wr("S.dom", f.self_.t, d, op="setupdate"); return PyC(None)
    def b_set_copy(self, f, args, kw, node, env): return self.newset(self.set_dom(f.self_), res(f.self_.ty).el)
    def b_set_issubset(self, f, args, kw, node, env):
        cx = self.cx
        o, _ = self.setlike(args[0]); d = self.set_dom(f.self_)
        p, w, x = cx.fresh("sub", B), cx.fresh("w"), z3.Int("x")
        cx.assume(z3.Implies(p, forall([x], z3.Implies(d[x], o[x]), [d[x]])))
        cx.assume(z3.Implies(z3.Not(p), z3.And(d[w], z3.Not(o[w]))))
        return Sym(TBool, p)
    # ---- kwargs
    def b_kw_get(self, f, args, kw, node, env):
        k = args[0]
        dflt = args[1] if len(args) > 1 else PyC(None)
        if not isinstance(k, PyC): raise Unsupported("kwargs key")
        if k.v not in f.self_.entries: return dflt
        p, v = f.self_.entries[k.v]
        if z3.is_true(z3.simplify(p)): return v
        if isinstance(v, Sym) and isinstance(dflt, Sym) and self.spec.merge_kwargs:
            ty = self.unify(v.ty, dflt.ty)
            return self.dec(z3.If(p, self.enc(v, ty), self.enc(dflt, ty)), ty)
        return v if self.cx.branch(p) else dflt
    def b_kw_copy(self, f, args, kw, node, env): return KwV(dict(f.self_.entries))
    def b_kw_setdefault(self, f, args, kw, node, env):
        k = args[0].v
        if k in f.self_.entries:
            p, v = f.self_.entries[k]
            if self.cx.branch(p): return v
        f.self_.entries = dict(f.self_.entries); f.self_.entries[k] = (z3.BoolVal(True), args[1])
        return args[1]
    def b_kw_pop(self, f, args, kw, node, env):
        k = args[0].v
        if k not in f.self_.entries:
            if len(args) > 1: return args[1]
            raise PyRaise("KeyError")
        p, v = f.self_.entries[k]
        if self.cx.branch(p):
            f.self_.entries = {a: b for a, b in f.self_.entries.items() if a != k}
            return v
        if len(args) > 1: return args[1]
        raise PyRaise("KeyError")
    def b_nt_replace(self, f, args, kw, node, env):
        o = f.self_
        els = list(o.els)
        for k, v in kw.items():
            if k not in o.names: raise PyRaise("ValueError")
            els[o.names.index(k)] = v
        return Tup(els, o.names, o.cname)
