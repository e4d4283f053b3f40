"""Contracts and their use at call sites."""
import z3
from .vals import *
from .core import *

class SolverGen(V):
    """a generator described by a contract instead of by its body"""
    def __init__(self, contract, args, extra=None): self.contract, self.args, self.extra = contract, args, extra

class Contract:
    """
    requires(ip, a)          -> [(name, formula)]
    value(ip, a)             -> V: the result as a function of the arguments (pure functions), or
    result                   -> type of the result, constrained by
    ensures(ip, a, ret, old) -> [(name, formula)]
    modifies(ip, a)          -> {heap map: None | ref -> formula}   (absent: nothing)
    a is the dictionary of arguments by parameter name; old the heap at entry.
    """
    def __init__(self, qual, requires=None, value=None, result=None, ensures=None, modifies=None, gen=False, effect=None, virtual=True, pre_call=None, raises=None):
        self.qual, self.requires, self.value, self.result, self.ensures = qual, requires, value, result, ensures
        self.modifies, self.gen, self.effect, self.pre_call, self.raises = modifies, gen, effect, pre_call, raises
    def apply(self, ip, a):
        cx = ip.cx
        cx.task.contracts_used.add(self.qual)
        short = self.qual.split(":")[-1]
        if self.requires:
            for nm, f in self.requires(ip, a): cx.check(f, "precondition of %s: %s" % (short, nm))
        if self.raises:
            # the callee may raise exactly under these conditions
            for exc, cond in self.raises(ip, a):
                if cx.branch(cond): raise PyRaise(exc)
        if self.gen: return SolverGen(self, a)
        if self.effect: return self.effect(ip, a)
        old = dict(cx.heap)
        if self.modifies:
            r = z3.Int("r")
            pre = cx.alloc
            na = cx.fresh("alloc"); cx.assume(na >= pre); cx.alloc = na
            for m, pr in self.modifies(ip, a).items():
                h = cx.hp(m); h2 = cx.fresh("H", heap_sort(m))
                if pr is not None:
                    keep = z3.And(r < pre, z3.Not(pr(r)))
                    cx.assume(forall([r], z3.Implies(keep, h2[r] == h[r]), [h2[r]]))
                    if z3.is_const(h): cx.assume(forall([r], z3.Implies(keep, h2[r] == h[r]), [h[r]]))
                cx.heap[m] = h2
                if cx.writes is not None: cx.writes.append((m, z3.IntVal(-1), None, "call", None))
        if self.value: ret = self.value(ip, a)
        elif self.result is not None: ret = ip.fresh(self.result(ip, a) if callable(self.result) and not isinstance(self.result, Ty) else self.result, "ret")
        else: ret = PyC(None)
        if self.ensures:
            for nm, f in self.ensures(ip, a, ret, old): cx.assume(f)
        return ret
