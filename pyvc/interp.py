"""Symbolic interpreter for the Python subset used by the repository (direct style; paths are explored by replay)."""
import ast, itertools
import z3
from .vals import *
from .core import *

class Signal(Exception): kind = "signal"
class Break(Signal): kind = "break"
class Continue(Signal): kind = "continue"
class Return(Signal):
    kind = "return"
    def __init__(self, v): self.v = v

class Env:
    def __init__(self, parent=None, mod=None, cls=None, fname="", qual=None):
        self.vars, self.parent, self.mod, self.cls, self.fname, self.qual = {}, parent, mod, cls, fname, qual
        self.loop_no = 0; self.node = None; self.collector = None; self.loops = None

class Undef: pass
UNDEF = Undef()

_ids = {}
def str_id(s):
    """distinct ids for distinct literal strings (negative, so that they can be told apart when debugging)"""
    if s not in _ids: _ids[s] = -(1000 + len(_ids))
    return z3.IntVal(_ids[s])
STRTAG = z3.Function("strtag", I, I)       # 0: anything; k>0: built by format template number k
_fmts = {}
def tmpl_re(t):
    """language of a template whose holes are decimal integers"""
    d = z3.Range("0", "9")
    num = z3.Concat(z3.Option(z3.Re("-")), z3.Plus(d))
    parts = []
    for i, p in enumerate(t.split("{}")):
        if i: parts.append(num)
        if p: parts.append(z3.Re(p))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)
def disjoint(t1, t2):
    """no string is produced by both (decided by the string solver)"""
    x = z3.String("s"); s = z3.Solver(); s.set("timeout", 5000)
    s.add(z3.InRe(x, tmpl_re(t1)), z3.InRe(x, tmpl_re(t2)))
    return s.check() == z3.unsat
def fmt_fun(template, n):
    """the string produced by a template whose holes are integers.  Injective when every two holes are separated by a
    text that contains a character which is neither a digit nor '-' (checked here)"""
    key = (template, n)
    if key not in _fmts:
        for (t2, n2) in _fmts:
            if not disjoint(template, t2): raise Unsupported("the templates %r and %r can produce the same string" % (template, t2))
        k = len(_fmts) + 1
        f = z3.Function("fmt%d" % k, *([I] * n + [I]))
        xs = z3.Ints(" ".join("x%d" % i for i in range(n)))
        ax = [STRTAG(f(*xs)) == k]
        for i in range(n):
            inv = z3.Function("fmt%d_inv%d" % (k, i), I, I)
            ax.append(inv(f(*xs)) == xs[i])
        _fmts[key] = (f, forall(xs, z3.And(*ax), [f(*xs)]), k)
    return _fmts[key]

class Interp:
    def __init__(self, repo, spec, cx):
        self.repo, self.spec, self.cx = repo, spec, cx
        self.cid = {n: i + 1 for i, n in enumerate(sorted(repo.classes))}
        self.depth = 0
        self.verifying = None
        self.eager = []

    # ================================================================= encoding
    def typeof(self, v):
        if isinstance(v, Sym): return v.ty
        if isinstance(v, Tup): return TTup([self.typeof(x) for x in v.els], v.names, v.cname)
        if isinstance(v, PyC):
            if isinstance(v.v, bool): return TBool
            if isinstance(v.v, int): return TInt
            if isinstance(v.v, str): return TStr
            if v.v is None: return TNone
            if isinstance(v.v, float): return TInt
        if isinstance(v, TextV): return TStr if self.spec.text_as_str(v) else TText
        if isinstance(v, EnumV): return TEnum(v.cls)
        if isinstance(v, SeqV): return TSeq(self.typeof(v.get(z3.IntVal(0))))
        if isinstance(v, (FuncV, BoundV)) or isinstance(v, BuiltinV) and v.fn is None and v.self_ is None and v.name != "object": return TFun()
        if isinstance(v, KwV): return "kw"
        raise Unsupported("type of %r" % (v,))
    def unify(self, a, b):
        a, b = res(a), res(b)
        if a is b: return a
        if isinstance(a, TVar):
            self.bind(a, b); return b
        if isinstance(b, TVar):
            self.bind(b, a); return a
        if isinstance(a, TOpt) or isinstance(b, TOpt) or a is TNone or b is TNone:
            if a is TNone and b is TNone: return a
            if a is TNone: return b if isinstance(b, TOpt) else TOpt(b)
            if b is TNone: return a if isinstance(a, TOpt) else TOpt(a)
            x = a.ty if isinstance(a, TOpt) else a
            y = b.ty if isinstance(b, TOpt) else b
            return TOpt(self.unify(x, y))
        if {a, b} == {TInt, TBool}: return TInt
        for x, y in ((a, b), (b, a)):
            if isinstance(x, TMix):
                if y in (TInt, TBool): return x
                if isinstance(y, TMix): return TMix(self.unify(x.ref, y.ref))
                if isinstance(y, TRef): return TMix(self.unify(x.ref, y))
            if isinstance(x, TRef) and y in (TInt, TBool) and self.spec.mixable(x.cls): return TMix(TRef(self.spec.mixable(x.cls)))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, TColl) and isinstance(y, TTup):
                for e in y.els: self.unify(x.el, e)
                return x
            if isinstance(x, TColl) and isinstance(y, TSeq): self.unify(x.el, y.el); return x
        if TAny in (a, b): return TAny
        if isinstance(a, TFun) and isinstance(b, TFun): return a
        if TText in (a, b) and TStr in (a, b): return TText
        if isinstance(a, TRef) and isinstance(b, TRef):
            if a.cls == b.cls: return a
            for c in self.repo.mro(a.cls):
                if self.repo.is_sub(b.cls, c.name): return TRef(c.name)
        if type(a) is type(b):
            if isinstance(a, (TList, TSeq, TSet, TColl)):
                self.unify(a.el, b.el); return a
            if isinstance(a, TDict):
                self.unify(a.k, b.k); self.unify(a.v, b.v); return a
            if isinstance(a, TTup) and len(a.els) == len(b.els):
                return TTup([self.unify(x, y) for x, y in zip(a.els, b.els)], a.names or b.names, a.cname or b.cname)
            if isinstance(a, TEnum) and a.cls == b.cls: return a
            if isinstance(a, TFun): return a
        raise Unsupported("types %r and %r do not agree" % (a, b))
    def bind(self, tv, ty):
        ty = res(ty)
        if tv is ty: return
        tv.ty = ty
        if tv.site is not None: self.cx.task.site_types[tv.site] = ty
    def site_var(self, site):
        tv = TVar(site)
        if site in self.cx.task.site_types: tv.ty = self.cx.task.site_types[site]
        return tv
    def untyped(self, tv):
        """a container of still unknown element type was taken to be empty: if something is stored in it later, start over"""
        if tv.site is not None: self.cx.task.untyped.add(tv.site)
    def widen(self, tv, vty):
        """make the element type `tv` able to hold values of type vty"""
        r = res(tv)
        if isinstance(r, TVar):
            self.bind(r, vty); return res(r)
        u = self.unify(r, vty)
        if repr(u) != repr(r):
            if isinstance(tv, TVar) and tv.site is not None:
                # remember the wider type and start over
                self.cx.task.site_types[tv.site] = u
                raise NeedType()
            raise Unsupported("value of type %r stored where %r is expected" % (vty, r))
        return r

    def enc(self, v, ty=None):
        """Int encoding of a value seen as type ty"""
        ty = res(ty) if ty is not None else None
        if isinstance(ty, TVar): ty = None
        if isinstance(ty, TOpt):
            if isinstance(v, PyC) and v.v is None: return z3.IntVal(0)
            if isinstance(v, Sym) and isinstance(res(v.ty), TOpt): return v.t
            e = self.enc(v, ty.ty)
            return e if is_ref(ty.ty) else SOME(e)
        if isinstance(ty, TColl) and not (isinstance(v, Sym) and isinstance(res(v.ty), TColl)):
            if not (isinstance(v, (Tup, SeqV)) or isinstance(v, Sym) and isinstance(res(v.ty), TSeq)): raise Unsupported("%r as a collection" % (v,))
            n, a, _ = self.arr_of(self.as_seq(v), ty.el)
            c = self.cx.fresh("coll")
            self.cx.assume(z3.And(c >= 1, COLLN(c) == n, COLLE(c) == a))
            return c
        if isinstance(ty, TMix):
            if isinstance(v, Sym) and isinstance(res(v.ty), TMix): return v.t
            if self.is_int(v): return MIXI(self.int_(v))
        if isinstance(v, Sym):
            t = res(v.ty)
            if isinstance(t, TOpt):       # known not None here?
                self.cx.check(v.t != 0, "value is not None")
                return v.t if is_ref(t.ty) else UNSOME(v.t)
            if t is TBool: return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if t is TInt and ty is TStr or t is TStr and ty is TInt: raise Unsupported("int/str mix")
            return v.t
        if isinstance(v, PyC):
            if isinstance(v.v, bool): return z3.IntVal(int(v.v))
            if isinstance(v.v, int): return z3.IntVal(v.v)
            if isinstance(v.v, float) and v.v == int(v.v): return z3.IntVal(int(v.v))
            if isinstance(v.v, str):
                if ty is TText: return self.enc_text(TextV([v.v]))
                return str_id(v.v)
            if v.v is None: return z3.IntVal(0)
        if isinstance(v, EnumV): return z3.IntVal(v.num)
        if isinstance(v, TextV):
            if ty is TText or (ty is None and not self.spec.text_as_str(v)): return self.enc_text(v)
            return self.enc_str(v)
        if isinstance(v, Tup):
            if isinstance(ty, TSeq):
                return self.enc(self.to_seq(v, ty.el))
            ref = getattr(v, "ref", None)
            if ref is not None and (ty is None or repr(ty) == ref[1]): return ref[0]
            r = self.cx.fresh("tup")
            tys = ty.els if isinstance(ty, TTup) else [None] * len(v.els)
            for i, x in enumerate(v.els):
                self.cx.assume(TUPF(i)(r) == self.enc(x, tys[i]))
            self.cx.assume(z3.And(r >= 1))
            return r
        if isinstance(v, SeqV):
            return self.to_seq(v).t
        if isinstance(v, (FuncV, BoundV)) or isinstance(v, BuiltinV) and v.fn is None and v.self_ is None:
            return self.spec.enc_fun(self, v)
        raise Unsupported("cannot encode %r" % (v,))
    def enc_str(self, v):
        parts = v.parts
        if all(isinstance(p, str) for p in parts): return str_id("".join(parts))
        holes = [p for p in parts if not isinstance(p, str)]
        if len(parts) == 1 and holes[0][0] == "name": return holes[0][1]
        if any(h[0] != "int" for h in holes): raise Unsupported("string built from %r" % (holes,))
        tmpl, last = "", True
        for p in parts:
            if isinstance(p, str): tmpl += p; last = last or any(ch not in "0123456789-" for ch in p)
            else:
                if tmpl and not last: raise Unsupported("adjacent holes in a format string")
                tmpl += "{}"; last = False
        f, ax, k = fmt_fun(tmpl, len(holes))
        if ("fmt", k) not in self.cx.ghost:
            self.cx.ghost[("fmt", k)] = True
            self.cx.assume(ax)
        t = f(*[h[1] for h in holes])
        return t
    def enc_text(self, v):
        return self.spec.enc_text(self, v)
    def dec(self, t, ty):
        ty = res(ty)
        if isinstance(ty, TVar): raise NeedType()
        if ty is TBool: return Sym(TBool, t != 0)
        if ty is TNone: return PyC(None)
        if isinstance(ty, TTup):
            v = Tup([self.dec(TUPF(i)(t), x) for i, x in enumerate(ty.els)], ty.names, ty.cname)
            v.ref = (t, repr(ty)); return v
        if ty is TText: return TextV([("txt", t)])
        return Sym(ty, t)
    def fresh(self, ty, name="v"):
        ty = res(ty)
        if isinstance(ty, TVar): raise NeedType()
        if ty is TBool: return Sym(TBool, self.cx.fresh(name, B))
        if ty is TNone: return PyC(None)
        if isinstance(ty, TTup): return Tup([self.fresh(x, name) for x in ty.els], ty.names, ty.cname)
        t = self.cx.fresh(name)
        v = self.dec(t, ty)
        self.wf(v)
        return v
    def wf(self, v):
        if isinstance(v, Sym):
            ty = res(v.ty)
            if isinstance(ty, TOpt):
                if is_ref(ty.ty): self.cx.assume(z3.And(v.t >= 0, v.t < self.cx.alloc)); self.wf_ref(v.t, ty.ty, True)
            elif is_ref(ty):
                self.cx.assume(z3.And(v.t >= 1, v.t < self.cx.alloc)); self.wf_ref(v.t, ty)
            elif isinstance(ty, TMix):
                self.cx.assume(z3.And(v.t != 0, v.t < self.cx.alloc, z3.Implies(v.t < 0, v.t == MIXI(MIXV(v.t)))))
                ks = [self.cid[c] for c in self.repo.subclasses(ty.ref.cls) if not self.repo.is_abstract(c)]
                self.cx.assume(z3.Implies(v.t > 0, z3.Or(*[CLS(v.t) == k for k in ks])))
            elif isinstance(ty, TEnum):
                n = len(self.enum_members(ty.cls))
                self.cx.assume(z3.And(v.t >= 0, v.t < n))
        elif isinstance(v, Tup):
            for x in v.els: self.wf(x)
    def wf_ref(self, t, ty, opt=False):
        ty = res(ty)
        f = None
        if isinstance(ty, TRef):
            ks = [self.cid[c] for c in self.repo.subclasses(ty.cls) if not self.repo.is_abstract(c)]
            if ks: f = z3.Or(*[CLS(t) == k for k in ks])
        elif isinstance(ty, TList):
            f = self.cx.rd("L.len", t) >= 0
        if f is not None: self.cx.assume(z3.Implies(t != 0, f) if opt else f)
    def dec_wf(self, t, ty):
        v = self.dec(t, ty); self.wf(v); return v

    # ================================================================= opt handling
    def force(self, v):
        """decide None-ness of an optional value"""
        if isinstance(v, Sym) and isinstance(res(v.ty), TOpt):
            ty = res(v.ty).ty
            if self.cx.branch(v.t == 0): return PyC(None)
            return self.force(self.dec(v.t if is_ref(ty) else UNSOME(v.t), ty))
        if isinstance(v, Sym) and isinstance(res(v.ty), TMix):
            if self.cx.branch(v.t < 0): return Sym(TInt, MIXV(v.t))
            r = Sym(res(v.ty).ref, v.t); self.wf(r)
            return r
        return v

    # ================================================================= truth
    def truth(self, v):
        """z3 Bool (or concrete) truth value"""
        v = self.force(v)
        if isinstance(v, Sym):
            ty = res(v.ty)
            if ty is TBool: return v.t
            if ty is TInt or ty is TAny: return v.t != 0
            if isinstance(ty, TList): return self.cx.rd("L.len", v.t) != 0
            if isinstance(ty, TSeq): return SL(v.t) != 0
            if isinstance(ty, TColl): return COLLN(v.t) != 0
            if isinstance(ty, TDict): return CARD(self.cx.rd("D.dom", v.t)) != 0
            if isinstance(ty, TSet): return CARD(self.set_dom(v)) != 0
            if isinstance(ty, TFun): return z3.BoolVal(True)
            if isinstance(ty, TRef) and not any(self.repo.find(c, "__len__")[0] or self.repo.find(c, "__bool__")[0] for c in self.repo.subclasses(ty.cls)):
                return z3.BoolVal(True)
        if isinstance(v, PyC): return z3.BoolVal(bool(v.v))
        if isinstance(v, Tup): return z3.BoolVal(bool(v.els))
        if isinstance(v, SeqV): return v.n != 0
        if isinstance(v, (FuncV, BoundV, ClassV, BuiltinV, EnumV)): return z3.BoolVal(True)
        raise Unsupported("truth of %r" % (v,))
    def istrue(self, v): return self.cx.branch(self.truth(v))
    def int_(self, v):
        v = self.force(v)
        if isinstance(v, Sym):
            ty = res(v.ty)
            if ty is TInt or ty is TAny: return v.t
            if ty is TBool: return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, PyC) and isinstance(v.v, (bool, int)): return z3.IntVal(int(v.v))
        if isinstance(v, PyC) and isinstance(v.v, float) and v.v == int(v.v): return z3.IntVal(int(v.v))
        raise Unsupported("%r used as a number" % (v,))
    def is_int(self, v):
        if isinstance(v, Sym): return res(v.ty) in (TInt, TBool, TAny)
        return isinstance(v, PyC) and isinstance(v.v, (bool, int, float))

    # ================================================================= sequences
    def as_seq(self, v, what="iteration"):
        """SeqV view of an iterable"""
        cx = self.cx
        v = self.force(v)
        if isinstance(v, SeqV): return v
        if isinstance(v, IterV):
            s = v.seq
            if v.once: v.seq = SeqV(z3.IntVal(0), lambda i: (_ for _ in ()).throw(NeedType()))
            return s
        if isinstance(v, Tup):
            els = v.els
            if not els: return SeqV(z3.IntVal(0), lambda i: (_ for _ in ()).throw(Unsupported("element of an empty tuple")), src=("tup", v))
            def get(i, els=els):
                i = z3.simplify(i)
                if z3.is_int_value(i): return els[i.as_long()]
                if len(els) == 1: return els[0]
                ty = self.typeof(els[0])
                for e in els[1:]: ty = self.unify(ty, self.typeof(e))
                t = self.enc(els[-1], ty)
                for k in range(len(els) - 2, -1, -1): t = z3.If(i == k, self.enc(els[k], ty), t)
                return self.dec(t, ty)
            return SeqV(z3.IntVal(len(els)), get, src=("tup", v))
        if isinstance(v, Sym):
            ty = res(v.ty)
            if isinstance(ty, TList):
                n, a = cx.rd("L.len", v.t), cx.rd("L.el", v.t)
                cx.assume(n >= 0)
                return SeqV(n, lambda i: self.el(a, i, ty.el), src=("arr", a, ty.el, v.t))
            if isinstance(ty, TSeq):
                a = SE(v.t)
                return SeqV(SL(v.t), lambda i: self.el(a, i, ty.el), src=("arr", a, ty.el, None))
            if isinstance(ty, TColl):
                a = COLLE(v.t)
                return SeqV(COLLN(v.t), lambda i: self.el(a, i, ty.el), src=("arr", a, ty.el, None))
            if isinstance(ty, TDict): return self.enum_set(cx.rd("D.dom", v.t), ty.k)
            if isinstance(ty, TSet): return self.enum_set(self.set_dom(v), ty.el, getattr(v, "fixed", None))
            if isinstance(ty, TRef):
                m = self.getattr_(v, "__iter__")
                return self.as_seq(self.call(m, [], {}))
        if isinstance(v, GenV):
            return self.run_gen(v)
        if isinstance(v, BuiltinV) and v.name == "genexp": return v.fn()
        if isinstance(v, PyC) and isinstance(v.v, str):
            return self.as_seq(Tup([PyC(c) for c in v.v]))
        if isinstance(v, PyC) and v.v is None: raise PyRaise("TypeError")
        raise Unsupported("iteration over %r" % (v,))
    def el(self, arr, i, ty):
        t = sel(arr, i)
        v = self.dec(t, ty)
        self.wf_el(v)
        return v
    def wf_el(self, v):
        # well-formedness of something read from a container (allocated, class tag in range)
        self.wf(v)
    def set_dom(self, v):
        """members of a set; a frozen set that stands for a known set keeps that value"""
        return v.fixed if getattr(v, "fixed", None) is not None else self.cx.rd("S.dom", v.t)
    def enum_set(self, dom, kty, fixed=None):
        """arbitrary duplicate-free enumeration of a finite set (a frozen set is enumerated in the same order each time)"""
        cx = self.cx
        if fixed is not None:
            memo = cx.ghost.setdefault("enums", {})
            k = dom.get_id()
            if k in memo:
                N, K, X, at, f, _ = memo[k]
                if at < len(cx.pc) and cx.pc[at][1] is f: return SeqV(N, lambda j: self.el(K, j, kty), src=("arr", K, kty, None), distinct=True)
        N, K, X = cx.fresh("en"), cx.fresh("ek", AI), cx.fresh("ex", AI)
        i, x = z3.Ints("i x")
        cx.assume(N == CARD(dom)); cx.assume(N >= 0)
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(dom[K[i]], X[K[i]] == i)), [K[i]]))
        f = forall([x], z3.Implies(dom[x], z3.And(0 <= X[x], X[x] < N, K[X[x]] == x)), [dom[x]])
        cx.assume(f)
        if fixed is not None: memo[k] = (N, K, X, len(cx.pc) - 1, f, dom)
        return SeqV(N, lambda j: self.el(K, j, kty), src=("arr", K, kty, None), distinct=True)
    def arr_of(self, seq, elty=None):
        """(length, array, element type) of a pure sequence"""
        cx = self.cx
        if seq.src is not None and seq.src[0] == "arr":
            if elty is None or repr(res(elty)) == repr(res(seq.src[2])) : return seq.n, seq.src[1], seq.src[2]
        n = z3.simplify(seq.n)
        if z3.is_int_value(n):
            k = n.as_long()
            if k == 0: return n, z3.K(I, z3.IntVal(0)), (elty if elty is not None else TVar(None))
            if k <= 64:
                els = [seq.get(z3.IntVal(i)) for i in range(k)]
                ty = elty
                if ty is None or isinstance(res(ty), TVar):
                    ty = self.typeof(els[0])
                    for e in els[1:]: ty = self.unify(ty, self.typeof(e))
                a = cx.fresh("arr", AI)
                for i, e in enumerate(els): cx.assume(a[i] == self.enc(e, ty))
                return n, a, ty
        if seq.src is not None and seq.src[0] == "lifted":
            return seq.n, seq.src[1], seq.src[2]
        return self.materialize(seq, elty)
    def materialize(self, seq, elty=None):
        cx = self.cx
        j = cx.fresh("mj")
        box = {}
        def thunk():
            cx.assume(z3.And(0 <= j, j < seq.n))
            v = seq.get(j)
            ty = elty if elty is not None and not isinstance(res(elty), TVar) else self.typeof(v)
            box["ty"] = ty if "ty" not in box else self.unify(box["ty"], ty)
            return self.enc(v, ty)
        lifted = self.lift(j, seq.n, thunk)
        a = cx.fresh("arr", AI)
        lifted.assert_eq(lambda jj: a[jj], pats=lambda jj: [a[jj]])
        return seq.n, a, box["ty"]
    def to_seq(self, v, elty=None):
        """immutable tuple object (Sym TSeq) with the elements of v"""
        if isinstance(v, Sym) and isinstance(res(v.ty), TSeq): return v
        seq = self.as_seq(v)
        n, a, ty = self.arr_of(seq, elty)
        r = self.cx.fresh("seq")
        self.cx.assume(z3.And(r >= 1, SL(r) == n, SE(r) == a))
        self.on_len(n)
        return Sym(TSeq(ty), r)
    def on_len(self, n): self.cx.assume(n >= 0)

    def lift(self, j, n, thunk):
        from .lift import Lifted
        return Lifted(self, j, n, thunk)

    def new_list(self, site, elty=None, owner=None):
        cx = self.cx
        r = cx.new_ref()
        self.spec.on_new(self, r, owner)
        ty = TList(elty if elty is not None else self.site_var(site))
        cx.wr("L.len", r, z3.IntVal(0), op="init")
        return Sym(ty, r)
    def list_from(self, v, site, elty=None):
        cx = self.cx
        seq = self.as_seq(v)
        tv = self.site_var(site) if elty is None else elty
        known = None if isinstance(res(tv), TVar) else res(tv)
        n, a, ty = self.arr_of(seq, known)
        if not isinstance(res(ty), TVar): self.widen(tv, ty)
        r = cx.new_ref()
        self.spec.on_new(self, r, None)
        cx.wr("L.len", r, n, op="init"); cx.wr("L.el", r, a, op="init")
        cx.assume(n >= 0)
        return Sym(TList(tv), r)
    def append(self, lst, v):
        cx = self.cx
        ty = self.widen(res(lst.ty).el, self.typeof(v))
        e = self.enc(v, ty)
        n, a = cx.rd("L.len", lst.t), cx.rd("L.el", lst.t)
        cx.assume(n >= 0)
        n = z3.simplify(n)
        a2 = z3.Store(a, n, e)
        cx.wr("L.el", lst.t, a2, op="append", val=e); cx.wr("L.len", lst.t, n + 1, op="append_len")
        x = z3.Int("x")
        cx.assume(forall([x], ELS(a2, n + 1)[x] == z3.Or(ELS(a, n)[x], x == e), [ELS(a2, n + 1)[x]]))
        self.spec.on_append(self, a, n, a2, e, ty)
    def extend(self, lst, v):
        cx = self.cx
        seq = self.as_seq(v)
        if z3.is_int_value(z3.simplify(seq.n)) and z3.simplify(seq.n).as_long() <= 8:
            for k in range(z3.simplify(seq.n).as_long()): self.append(lst, seq.get(z3.IntVal(k)))
            return
        el = res(lst.ty).el
        m, b, ty = self.arr_of(seq, None if isinstance(res(el), TVar) else el)
        self.widen(el, ty)
        n, a = cx.rd("L.len", lst.t), cx.rd("L.el", lst.t)
        cx.assume(n >= 0); cx.assume(m >= 0)
        ns = z3.simplify(n)
        if z3.is_int_value(ns) and ns.as_long() == 0:
            cx.wr("L.el", lst.t, b, op="extend"); cx.wr("L.len", lst.t, m, op="extend_len")
            return
        c = cx.fresh("cat", AI)
        i = z3.Int("i")
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), c[i] == a[i]), [c[i]]))
        cx.assume(forall([i], z3.Implies(z3.And(n <= i, i < n + m), c[i] == b[i - n]), [c[i]]))
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < m), c[i + n] == b[i]), [b[i]]))
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), c[i] == a[i]), [a[i]]))
        cx.wr("L.el", lst.t, c, op="extend"); cx.wr("L.len", lst.t, n + m, op="extend_len")
        self.spec.on_concat(self, a, n, b, m, c, ty)

    # ---- dicts and sets
    def new_dict(self, site, default=None, kty=None, vty=None):
        cx = self.cx
        r = cx.new_ref()
        k = kty or self.site_var((site, "k")); v = vty or self.site_var((site, "v"))
        if default == "list" and vty is None and isinstance(res(v), TVar): self.bind(v, TList(self.site_var((site, "ve"))))
        if default == "set" and vty is None and isinstance(res(v), TVar): self.bind(v, TSet(self.site_var((site, "ve"))))
        cx.wr("D.dom", r, z3.K(I, z3.BoolVal(False)), op="init")
        return Sym(TDict(k, v, default), r)
    def dict_set(self, d, k, v):
        cx = self.cx
        ty = res(d.ty)
        kt = self.widen(ty.k, self.typeof(k)); ke = self.enc(k, kt)
        vt = self.widen(ty.v, self.typeof(v)); ve = self.enc(v, vt)
        self.dict_set_enc(d, ke, ve)
    def dict_set_enc(self, d, ke, ve):
        cx = self.cx
        dom, val = cx.rd("D.dom", d.t), cx.rd("D.val", d.t)
        if self.spec.card_steps: cx.assume(CARD(z3.Store(dom, ke, z3.BoolVal(True))) == z3.If(z3.Select(dom, ke), CARD(dom), CARD(dom) + 1))
        cx.wr("D.dom", d.t, z3.Store(dom, ke, z3.BoolVal(True)), key=ke, op="dictset")
        cx.wr("D.val", d.t, z3.Store(val, ke, ve), key=ke, op="dictset", val=ve)
    def dict_has(self, d, k):
        ty = res(d.ty)
        if isinstance(res(ty.k), TVar): self.untyped(res(ty.k)); return z3.BoolVal(False)
        return z3.Select(self.cx.rd("D.dom", d.t), self.enc(k, ty.k))
    def dict_get(self, d, k):
        """d[k]"""
        cx = self.cx
        ty = res(d.ty)
        if isinstance(res(ty.k), TVar): self.widen(ty.k, self.typeof(k))
        ke = self.enc(k, ty.k)
        has = z3.Select(cx.rd("D.dom", d.t), ke)
        if ty.default is None:
            if not cx.branch(has): raise PyRaise("KeyError")
        else:
            if not cx.branch(has):
                if ty.default == "list":
                    v = self.new_list(None, elty=res(ty.v).el, owner=(d.t, ke))
                elif ty.default == "set":
                    v = self.new_set(None, elty=res(ty.v).el, owner=(d.t, ke))
                else: raise Unsupported("defaultdict")
                self.dict_set_enc(d, ke, v.t)
                return v
        return self.dec_wf(z3.Select(cx.rd("D.val", d.t), ke), ty.v)
    def new_set(self, site, elty=None, owner=None):
        cx = self.cx
        r = cx.new_ref()
        self.spec.on_new(self, r, owner)
        el = elty if elty is not None else self.site_var(site)
        cx.wr("S.dom", r, z3.K(I, z3.BoolVal(False)), op="init")
        return Sym(TSet(el), r)
    def set_add(self, s, v):
        cx = self.cx
        if res(s.ty).frozen: raise PyRaise("AttributeError")
        ty = self.widen(res(s.ty).el, self.typeof(v))
        e = self.enc(v, ty)
        dom = cx.rd("S.dom", s.t)
        cx.wr("S.dom", s.t, z3.Store(dom, e, z3.BoolVal(True)), key=e, op="setadd", val=e)
    def set_of(self, v, site, frozen=False):
        """set(iterable)"""
        cx = self.cx
        v = self.force(v)
        if isinstance(v, Sym) and isinstance(res(v.ty), (TSet, TDict)):
            m = "S.dom" if isinstance(res(v.ty), TSet) else "D.dom"
            el = res(v.ty).el if m == "S.dom" else res(v.ty).k
            r = cx.new_ref()
            cx.wr("S.dom", r, self.set_dom(v) if m == "S.dom" else cx.rd(m, v.t), op="init")
            return Sym(TSet(el, frozen), r)
        seq = self.as_seq(v)
        n, a, ty = self.arr_of(seq)
        r = cx.new_ref()
        tv = self.site_var(site)
        if not isinstance(res(ty), TVar): self.widen(tv, ty)
        dom = self.dom_of(n, a, seq.distinct)
        cx.wr("S.dom", r, dom, op="init")
        return Sym(TSet(tv, frozen), r)
    def dom_of(self, n, a, distinct=False):
        """set of the first n entries of an array"""
        cx = self.cx
        nn = z3.simplify(n)
        if z3.is_int_value(nn) and nn.as_long() <= 16:
            d = z3.K(I, z3.BoolVal(False))
            for k in range(nn.as_long()): d = z3.Store(d, z3.Select(a, k), z3.BoolVal(True))
            dom = cx.fresh("sd", AB); cx.assume(dom == d)
            if nn.as_long() == 0: cx.assume(CARD(dom) == 0)
            if nn.as_long() == 1: cx.assume(CARD(dom) == 1)
            return dom
        dom, X = cx.fresh("sd", AB), cx.fresh("sx", AI)
        i, x = z3.Ints("i x")
        cx.assume(forall([i], z3.Implies(z3.And(0 <= i, i < n), dom[a[i]]), [a[i]]))
        cx.assume(forall([x], z3.Implies(dom[x], z3.And(0 <= X[x], X[x] < n, a[X[x]] == x)), [dom[x]]))
        if not self.spec.set_card: return dom
        # |{a[0..n)}| <= n, with equality exactly when the entries are pairwise different (pigeonhole, lemma L-card)
        w1, w2 = cx.fresh("w1"), cx.fresh("w2")
        cx.assume(z3.And(CARD(dom) <= n, CARD(dom) >= 0, z3.Implies(n > 0, CARD(dom) >= 1)))
        cx.assume(z3.Implies(CARD(dom) == n, distinct_arr(a, n)))
        cx.assume(z3.Implies(CARD(dom) != n, z3.And(0 <= w1, w1 < w2, w2 < n, a[w1] == a[w2])))
        return dom
