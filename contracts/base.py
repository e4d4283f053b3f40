"""Defaults of the hooks the VC generator calls, and helpers shared by the contract files."""
import ast
import z3
from pyvc.vals import *
from pyvc.core import *
from pyvc.interp import UNDEF, Env
from pyvc.run import Machine, LoopSpec, loops_of, assigned_names
from pyvc.calls import VC
from pyvc.contract import Contract, SolverGen

HEAP_CALLS = {"append": {"L.len", "L.el"}, "extend": {"L.len", "L.el"}, "pop": {"L.len", "L.el", "D.dom"}, "clear": {"L.len", "L.el", "D.dom", "S.dom"},
              "insert": {"L.len", "L.el"}, "reverse": {"L.el"}, "sort": {"L.el"}, "shuffle": {"L.el"}, "add": {"S.dom"}, "discard": {"S.dom"},
              "remove": {"S.dom", "L.len", "L.el"}, "update": {"S.dom", "D.dom", "D.val"}, "setdefault": {"D.dom", "D.val"}}

class Spec:
    """one instance per verification task"""
    FIELDS = {}          # (class, attr) -> type
    CONTRACTS = {}       # qualname -> Contract
    LOOPS = {}           # (qualname, ordinal) -> LoopSpec
    def __init__(self, repo): self.repo = repo
    # ---- declarations
    def field_type(self, repo, cls, attr):
        for c in repo.mro(cls):
            t = self.FIELDS.get((c.name, attr))
            if t is not None: return t
        return None
    def contract(self, qual, ip, args):
        if qual == ip.verifying and len(ip.callstack or []) == 0: return None
        return self.CONTRACTS.get(qual)
    def loop(self, key, node, ip): return self.LOOPS.get(key)
    def ctor(self, cname): return None
    def mixable(self, cname): return None
    def virtual(self, ip, cls, attr, o): return None
    def global_override(self, ip, mod, name): return None
    phase = None         # "entry" / "body" around a loop that is verified on its own
    merge_kwargs = False
    card_steps = False   # facts about the size of a dictionary after an insertion
    def contains_str(self, ip, c, v): return None
    # ---- text
    def text_as_str(self, v): return True
    def enc_text(self, ip, v): raise Unsupported("source text")
    set_card = True          # sizes of sets made from sequences matter
    filter_order = True      # the order of filtered sequences matters
    filter_els = False
    def enc_fun(self, ip, v): raise Unsupported("function value stored")
    def join(self, ip, sep, arg): raise Unsupported("str.join")
    # ---- events
    def on_new(self, ip, r, owner): pass
    def on_append(self, ip, a, n, a2, e, ty): pass
    def on_concat(self, ip, a, n, b, m, c, ty): pass
    def on_iter(self, ip, seq, i): pass
    def on_witness(self, ip, seq, i): pass
    def on_len(self, ip, seq): pass
    def on_havoc(self, ip, spec): pass
    def on_field(self, ip, o, attr, v): pass
    def on_setfield(self, ip, o, attr, v): pass
    def on_yield(self, ip, v, env): raise Unsupported("yield in a task without a generator contract")
    def on_yield_from(self, ip, v, env): raise Unsupported("yield from")
    def assume_assert(self, ip, s, env): return False
    NO_FOLLOW = ()           # methods known by contract that change nothing (a loop that changes more fails its frame obligation)
    def touched(self, ip, s, env):
        """heap maps the loop body may write, syntactically; inlined repository calls are followed by name"""
        cache = self.repo.__dict__.setdefault("_touched", {})
        k = (id(s), self.NO_FOLLOW)
        if k not in cache: cache[k] = (s, self.touched_syntax(s))
        out = cache[k][1]
        return out & set(ip.cx.heap) | {m for m in out if m in HEAP_SORTS}
    def bodies(self):
        """the bodies a call of a name may run"""
        ix = self.repo.__dict__.get("_bodies")
        if ix is None:
            ix = self.repo._bodies = {}
            for m in self.repo.mods.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.FunctionDef): ix.setdefault(x.name, []).append(x)
        return ix
    def touched_syntax(self, s):
        out, seen = set(), set()
        todo = list(s.body)
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add("f:" + n.attr)
                if n.attr.startswith("__"): out |= {"f:_%s%s" % (c, n.attr) for c in self.repo.classes}
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)): out |= {"L.el", "D.dom", "D.val"}
            if isinstance(n, ast.AugAssign): out |= {"L.el", "L.len"}
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm in HEAP_CALLS: out |= HEAP_CALLS[nm]
                if nm is not None and nm not in seen and nm not in self.NO_FOLLOW:
                    seen.add(nm)
                    for x in self.bodies().get(nm, []): todo += x.body
                    if nm in self.repo.classes:
                        for x in self.bodies().get("__init__", []): todo += x.body
            todo += list(ast.iter_child_nodes(n))
        return out
    # ---- library
    def for_generator(self, ip, s, gen, env): raise Unsupported("loop over a contracted generator")
    def nested_comp(self, ip, gens, elt, env): raise Unsupported("nested comprehension")
    def builtin(self, ip, f, args, kw, node, env): return None
    def call_sym(self, ip, f, args, kw, node): raise Unsupported("call of an opaque value")
    def sym_attr(self, ip, o, attr): raise Unsupported("attribute %s of %r" % (attr, o))
    def getitem(self, ip, o, k): raise Unsupported("item of %r" % (o,))
    def is_singleton(self, ip, a, name): return PyC(False)
    def isinst_dyn(self, ip, v, c): raise Unsupported("isinstance with a dynamic class")
    def isinst_any(self, ip, v, n): raise Unsupported("isinstance of an unknown value")
    def sum_(self, ip, arg, start, node):
        cx = ip.cx
        seq = ip.as_seq(arg)
        n = z3.simplify(seq.n)
        if z3.is_int_value(n) and n.as_long() <= 12:
            v = start
            for k in range(n.as_long()): v = ip.binop("add", v, seq.get(z3.IntVal(k)))
            return v
        n, a, ty = ip.arr_of(seq)
        if res(ty) is TBool or res(ty) is TInt:
            self.fold_hint(ip, a, n)
            return Sym(TInt, ip.int_(start) + ISUM(a, n))
        raise Unsupported("sum of %r" % (ty,))
    def fold_hint(self, ip, a, n): pass
    def lazy_map(self, ip, fn, s): raise Unsupported("map")
    def time(self, ip):
        cx = ip.cx
        t = cx.fresh("now")
        cx.assume(t >= cx.ghost.get("now", z3.Int("t0")))
        cx.ghost["now"] = t
        cx.ghost["readings"] = tuple(cx.ghost.get("readings", ())) + (t,)
        return Sym(TInt, t)
    def key_effects(self, ip, lf, maps): raise Unsupported("effects in a key function")

def fld(ip, o, attr, ty=None, heap=None):
    """field of an object as a value"""
    h = (heap or ip.cx.heap).get("f:" + attr)
    if h is None: h = ip.cx.hp("f:" + attr)
    t = z3.Select(h, o.t if isinstance(o, V) else o)
    return t if ty is None else ip.dec(t, ty)

def need_fields(repo, cls, names):
    """the contract speaks about these fields: they must exist in the current code"""
    have = set()
    for c in repo.mro(cls):
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): have.add(n.attr); have.add("_%s%s" % (c.name.lstrip("_"), n.attr))
    miss = [x for x in names if x not in have]
    if miss: raise AnnotationMismatch("%s has no field %s" % (cls, ", ".join(miss)))

def fn(repo, mod, name):
    """function or method of the current source"""
    if "." in name:
        c, m = name.split(".")
        ci = repo.classes.get(c)
        if ci is None: raise AnnotationMismatch("class %s is gone" % c)
        for k in repo.mro(c):
            if m in k.methods:
                return FuncV(k.methods[m], k.mod.name, cls=k.name, qual="%s:%s.%s" % (k.mod.name, k.name, m), kind=k.kinds.get(m))
        raise AnnotationMismatch("method %s is gone" % name)
    g = repo.lookup(mod, name)
    if g is None or g[0] != "func": raise AnnotationMismatch("function %s is gone" % name)
    return FuncV(g[1], g[2], qual="%s:%s" % (g[2], name))

def method_task(name, repo, spec_cls, cls, meth, setup, post, axioms=(), raises=None, mod=None, **kw):
    """verify one method: setup(ip, self) -> (args, kw, state); post(ip, self, ret, exc, state) checks"""
    def run(cx):
        spec = spec_cls(repo)
        ip = VC(repo, spec, cx)
        f = fn(repo, mod, "%s.%s" % (cls, meth))
        ip.verifying = f.qual
        self_ = Sym(TRef(cls), z3.Int("self"))
        ip.wf(self_)
        cx.assume(CLS(self_.t) == ip.cid[cls])
        args, kws, st = setup(ip, self_)
        try:
            ret, exc = ip.run_body(f, [self_] + args, kws), None
        except PyRaise as e:
            ret, exc = None, e
        post(ip, self_, ret, exc, st)
    t = Task(name, run, axioms=axioms, functions=["%s.%s" % (cls, meth)], **kw)
    return t
