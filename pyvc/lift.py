"""Generic-element summaries: a body is executed once for an arbitrary index j; the result is generalised to all j."""
import z3
from .vals import *
from .core import *

class Lifted:
    def __init__(self, ip, j, n, thunk, what="comprehension"):
        self.ip, self.cx, self.j, self.n = ip, ip.cx, j, n
        cx = self.cx
        old_log, cx.fresh_log = cx.fresh_log, []
        old_w, cx.writes = cx.writes, []
        self.alloc0 = cx.alloc
        al = cx.fresh("al")
        def run():
            cx.assume(al >= self.alloc0)
            cx.alloc = al
            return thunk()
        try:
            self.outs = cx.explore(run)
            self.consts = [c for c in cx.fresh_log]
        finally:
            log = cx.fresh_log
            cx.fresh_log = old_log
            if old_log is not None: old_log.extend(log)
            cx.writes = old_w
        self.al = al
        self.funs = {}
        self._mentions = None
        if not self.outs:
            # the generic element is impossible: the sequence is empty
            cx.assume(self.n <= 0)
    def sub(self, f, jj):
        """formula/term about the generic index, re-expressed for index jj"""
        m = [(self.j, jj)]
        for c in self.consts:
            k = c.get_id()
            if k not in self.funs:
                self.funs[k] = (c, z3.Function("lf!" + str(c), I, c.sort()))
            m.append((c, self.funs[k][1](jj)))
        return z3.substitute(f, *m)
    def fun_apps(self, jj):
        return [f(jj) for _, f in self.funs.values()]
    def commit(self, pats, upto=None, guard_extra=None):
        """assert the facts of every outcome for all indices, and account for objects allocated on the way"""
        cx, ip = self.cx, self.ip
        jj = z3.Int("jj"); n = self.n if upto is None else upto
        grow = any(not z3.is_true(z3.simplify(o.alloc == self.al)) for o in self.outs)
        rng = lambda x: z3.And(0 <= x, x < n)
        for o in self.outs:
            fs = [f for f in o.facts]
            body = z3.And(*fs) if fs else z3.BoolVal(True)
            g = z3.And(rng(self.j), o.cond)
            if not z3.is_true(body) and len(fs):
                b = self.sub(z3.Implies(g, body), jj)
                self.assert_forall(jj, b, pats)
        if grow:
            new = cx.fresh("alloc")
            cx.assume(new >= self.alloc0)
            ii = z3.Int("ii")
            for o in self.outs:
                g = z3.And(rng(self.j), o.cond)
                self.assert_forall(jj, self.sub(z3.Implies(g, z3.And(self.al >= self.alloc0, o.alloc <= new)), jj), pats)
                p = pats(jj); q = pats(ii)
                if p and q:
                    cx.assume(forall([ii, jj], z3.Implies(z3.And(0 <= ii, ii < jj, jj < n, self.sub(o.cond, ii)), self.sub(o.alloc, ii) <= self.sub(self.al, jj)), [(q[0], p[0])]))
            maps = {}
            for o in self.outs:
                for (m, r, key, op, val) in o.writes:
                    maps.setdefault(m, [])
            for m in maps:
                h = cx.hp(m)
                h2 = cx.fresh("H", heap_sort(m))
                r = z3.Int("r")
                cx.assume(forall([r], z3.Implies(r < self.alloc0, h2[r] == h[r]), [h2[r]]))
                cx.assume(forall([r], z3.Implies(r < self.alloc0, h2[r] == h[r]), [h[r]]) if z3.is_const(h) else z3.BoolVal(True))
                for o in self.outs:
                    refs = {}
                    for (mm, rr, key, op, val) in o.writes:
                        if mm == m and mentions(rr, self.al): refs[rr.get_id()] = rr
                    g = z3.And(rng(self.j), o.cond)
                    for rr in refs.values():
                        b = self.sub(z3.Implies(g, h2[rr] == o.heap[m][rr]), jj)
                        self.assert_forall(jj, b, lambda x, rr=rr: (pats(x) or []) + [h2[self.sub(rr, x)]])
                cx.heap[m] = h2
            cx.alloc = new
    def assert_forall(self, jj, b, pats):
        ps = list(pats(jj) or []) if pats else []
        ps += [a for a in self.fun_apps(jj)]
        ok = [p for p in ps if not z3.is_var(p) and mentions(p, jj) and good_pattern(p)]
        seen, out = set(), []
        for p in ok:
            if p.get_id() not in seen: seen.add(p.get_id()); out.append(p)
        self.cx.assume(forall([jj], b, out[:6] or None))
    def pure(self):
        """every outcome is a plain value and nothing that existed before was written"""
        for o in self.outs:
            if o.kind != "ok": return False
            if not self.only_new(o): return False
        return True
    def only_new(self, o):
        """all writes go to objects allocated inside the iteration"""
        for (m, r, key, op, val) in o.writes:
            if not mentions(r, self.al): return False
        return True
    def assert_eq(self, target, pats):
        """for all jj: target(jj) == the value computed at jj"""
        cx = self.cx
        self.no_raise()
        if not self.pure(): raise Unsupported("side effect inside a comprehension")
        self.commit(pats)
        jj = z3.Int("jj")
        for o in self.outs:
            b = z3.Implies(z3.And(0 <= self.j, self.j < self.n, o.cond), target(self.j) == o.val)
            # also triggered by the element terms the value is made of
            self.assert_forall(jj, self.sub(b, jj), lambda x, o=o: pats(x) + elem_terms(self.sub(o.val, x), x))
    def no_raise(self):
        cx = self.cx
        bad = [o for o in self.outs if o.kind == "raise"]
        if bad:
            k = cx.fork(2)
            if k == 1:
                j0 = cx.fresh("jr")
                o = bad[0] if len(bad) == 1 else bad[cx.fork(len(bad))]
                m = [(self.j, j0)]
                cx.assume(z3.substitute(z3.And(0 <= self.j, self.j < self.n, o.cond, *o.facts), (self.j, j0)))
                if not cx.feasible(): raise PathEnd()
                raise o.val
            jj = z3.Int("jj")
            for o in bad:
                self.assert_forall(jj, self.sub(z3.Implies(z3.And(0 <= self.j, self.j < self.n), z3.Not(o.cond)), jj), lambda x: elem_terms(self.sub(o.cond, x), x))
            self.outs = [o for o in self.outs if o.kind != "raise"]
    def cond_true(self, pick):
        cs = [o.cond for o in self.outs if pick(o)]
        return z3.Or(*cs) if cs else z3.BoolVal(False)

def mentions(e, c):
    todo, seen = [e], set()
    cid = c.get_id()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() == cid: return True
        if z3.is_quantifier(x): todo.append(x.body())
        else: todo.extend(x.children())
    return False
def good_pattern(p):
    """no interpreted head, no boolean structure inside"""
    if not z3.is_app(p): return False
    k = p.decl().kind()
    if not (k == z3.Z3_OP_UNINTERPRETED and p.num_args() > 0 or k == z3.Z3_OP_SELECT): return False
    todo = list(p.children())
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): return False
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES): return False
            todo.extend(x.children())
    return True
def elem_terms(e, jj):
    """sub-terms select(a, jj) / f(jj) that can serve as triggers"""
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if good_pattern(x) and any(ch.get_id() == jj.get_id() for ch in x.children()): out.append(x)
            todo.extend(x.children())
    return out
