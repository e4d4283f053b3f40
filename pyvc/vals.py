"""Types and values of the VC generator.  Every first-order value has an Int encoding; the type is kept at
generation time.  References to heap objects are positive Ints, None is 0 where a reference is optional."""
import z3

I, B = z3.IntSort(), z3.BoolSort()
AI, AB = z3.ArraySort(I, I), z3.ArraySort(I, B)

class Unsupported(Exception):
    """The code left the subset this generator handles; nothing is proved about the function."""
class AnnotationMismatch(Unsupported):
    """A sidecar annotation (loop invariant) does not fit the current code."""
class NeedType(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    def __repr__(self): return type(self).__name__
    def __eq__(self, o): return repr(res(self)) == repr(res(o))
    def __hash__(self): return hash(repr(self))
class _TInt(Ty): pass
class _TBool(Ty): pass
class _TStr(Ty): pass
class _TAny(Ty): pass
class _TNone(Ty): pass
class _TText(Ty): pass
TInt, TBool, TStr, TAny, TNone, TText = _TInt(), _TBool(), _TStr(), _TAny(), _TNone(), _TText()
class TVar(Ty):
    """element type found at the first use; stored per allocation site"""
    def __init__(self, site): self.site, self.ty = site, None
    def __repr__(self): return repr(self.ty) if self.ty is not None else "?"
class TRef(Ty):
    def __init__(self, cls): self.cls = cls          # name of a repo class
    def __repr__(self): return "Ref(%s)" % self.cls
class TList(Ty):
    def __init__(self, el): self.el = el
    def __repr__(self): return "List(%r)" % (self.el,)
class TSeq(Ty):
    """immutable tuple of symbolic length"""
    def __init__(self, el): self.el = el
    def __repr__(self): return "Seq(%r)" % (self.el,)
class TDict(Ty):
    def __init__(self, k, v, default=None): self.k, self.v, self.default = k, v, default
    def __repr__(self): return "Dict(%r,%r)" % (self.k, self.v)
class TSet(Ty):
    def __init__(self, el, frozen=False): self.el, self.frozen = el, frozen
    def __repr__(self): return "Set(%r)" % (self.el,)
class TTup(Ty):
    def __init__(self, els, names=None, cname=None): self.els, self.names, self.cname = list(els), names, cname
    def __repr__(self): return "Tup(%s)" % ",".join(map(repr, self.els))
class TOpt(Ty):
    def __init__(self, ty): self.ty = ty
    def __repr__(self): return "Opt(%r)" % (self.ty,)
class TMix(Ty):
    """an int or a reference: ints are encoded as MIXI(n) < 0"""
    def __init__(self, ref): self.ref = ref
    def __repr__(self): return "Mix(%r)" % (self.ref,)
class TFun(Ty):
    """opaque callable"""
class TEnum(Ty):
    def __init__(self, cls): self.cls = cls
    def __repr__(self): return "Enum(%s)" % self.cls
class TColl(Ty):
    """an immutable-by-assumption, sized, re-iterable collection of values supplied by the caller (a domain)"""
    def __init__(self, el): self.el = el
    def __repr__(self): return "Coll(%r)" % (self.el,)

def res(t):
    while isinstance(t, TVar) and t.ty is not None: t = t.ty
    return t
def is_ref(t):
    return isinstance(res(t), (TRef, TList, TSeq, TDict, TSet, TTup, TFun, TColl))

# ---------------------------------------------------------------- values
class V: pass
class Sym(V):
    def __init__(self, ty, t): self.ty, self.t = ty, t
    def __repr__(self): return "Sym(%r,%s)" % (self.ty, str(self.t)[:60])
class Tup(V):
    """tuple of known length (also namedtuple instances)"""
    def __init__(self, els, names=None, cname=None): self.els, self.names, self.cname = list(els), names, cname
    def __repr__(self): return "Tup%r" % (self.els,)
class PyC(V):
    """concrete Python constant: str, None, Ellipsis..."""
    def __init__(self, v): self.v = v
    def __repr__(self): return "PyC(%r)" % (self.v,)
class SeqV(V):
    """pure sequence value: length term and element function; `ref` when it mirrors a heap list"""
    def __init__(self, n, get, src=None, distinct=False): self.n, self.get, self.src, self.distinct = n, get, src, distinct
class IterV(V):
    """one-shot iterator over a SeqV"""
    def __init__(self, seq, once=False): self.seq, self.once = seq, once
class ClassV(V):
    def __init__(self, info): self.info = info
    def __repr__(self): return "Class(%s)" % self.info.name
class NTClass(V):
    def __init__(self, name, fields, defaults=()): self.name, self.fields = name, fields
class FuncV(V):
    def __init__(self, node, mod, cls=None, env=None, qual=None, kind=None):
        self.node, self.mod, self.cls, self.env, self.qual, self.kind = node, mod, cls, env, qual, kind
    def __repr__(self): return "Func(%s)" % self.qual
class BoundV(V):
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_
class BuiltinV(V):
    def __init__(self, name, fn=None, self_=None): self.name, self.fn, self.self_ = name, fn, self_
    def __repr__(self): return "Builtin(%s)" % self.name
class ModV(V):
    def __init__(self, name): self.name = name
class EnumV(V):
    def __init__(self, cls, name, num): self.cls, self.name, self.num = cls, name, num
class KwV(V):
    """**kwargs dictionary: per key (presence formula, value); every other key absent or opaque"""
    def __init__(self, entries, rest=None): self.entries, self.rest = entries, rest
class GenV(V):
    """un-started generator of a repo generator function (evaluated eagerly when consumed)"""
    def __init__(self, fn, args, kw): self.fn, self.args, self.kw = fn, args, kw
class TextV(V):
    """text: list of str literals, ('int',term), ('name',term), ('txt',term), ('join',sep,SeqV)"""
    def __init__(self, parts): self.parts = parts
class PyRaise(Exception):
    def __init__(self, exc, node=None): self.exc, self.node = exc, node
    def __str__(self): return self.exc
class SuperV(V):
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_
class OpaqueV(V):
    """a value nothing is known about and nothing may be done with, except being passed around"""
    def __init__(self, what): self.what = what
