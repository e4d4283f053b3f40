"""C19: class invariant and method contracts of utils.Timer.

Ghost view of a timer: (acc, cnt, start) -- total length of the finished running intervals, number of stops that were
not aborts, and the start of the current interval (None when idle).  The methods are verified against the transitions
of that view; the clock is an arbitrary non-decreasing sequence of readings."""
from .base import *

MOD = "satisfy.utils"
class TimerSpec(Spec):
    FIELDS = {("Timer", "_t_elapsed"): TInt, ("Timer", "_t_start"): TOpt(TInt), ("Timer", "_count"): TInt}

def view(ip, o, heap=None):
    return fld(ip, o, "_t_elapsed", heap=heap), fld(ip, o, "_count", heap=heap), fld(ip, o, "_t_start", heap=heap)

def tasks(repo):
    need_fields(repo, "Timer", ["_t_elapsed", "_t_start", "_count"])
    def setup(kw=None):
        def s(ip, o):
            e, c, st = view(ip, o)
            cx = ip.cx
            # an optional number: 0 or SOME(n); the start lies in the past
            cx.assume(z3.Or(st == 0, st == SOME(UNSOME(st))))
            cx.assume(z3.Implies(st != 0, UNSOME(st) <= z3.Int("t0")))
            kws = kw(ip) if kw else {}
            return [], kws, (e, c, st, dict(cx.heap))
        return s
    def unchanged(ip, o, st):
        e, c, s = view(ip, o)
        ip.cx.check(z3.And(e == st[0], c == st[1], s == st[2]), "the timer is unchanged")
    def rd(ip): return ip.cx.ghost.get("readings", ())
    def some_reading(ip, f):
        r = rd(ip)
        return z3.Or(*[f(t) for t in r]) if r else z3.BoolVal(False)
    def p_start(ip, o, ret, exc, st):
        e, c, s = view(ip, o)
        ip.cx.check(z3.BoolVal(exc is not None) == (st[2] != 0), "start raises exactly on a running timer")
        if exc is not None:
            ip.cx.check(z3.BoolVal(exc.exc == "RuntimeError"), "a RuntimeError"); unchanged(ip, o, st); return
        ip.cx.check(z3.And(e == st[0], c == st[1]), "start keeps the elapsed time and the count")
        ip.cx.check(some_reading(ip, lambda t: s == SOME(t)), "start records the current time")
    def p_stop(count):
        def p(ip, o, ret, exc, st):
            e, c, s = view(ip, o)
            ip.cx.check(z3.BoolVal(exc is not None) == (st[2] == 0), "stop raises exactly on an idle timer")
            if exc is not None:
                ip.cx.check(z3.BoolVal(exc.exc == "RuntimeError"), "a RuntimeError"); unchanged(ip, o, st); return
            ip.cx.check(some_reading(ip, lambda t: e == st[0] + (t - UNSOME(st[2]))), "stop adds the length of the interval")
            ip.cx.check(s == 0, "stop leaves the timer idle")
            ip.cx.check(c == st[1] + count(ip), "stop counts")
        return p
    def p_abort(ip, o, ret, exc, st):
        e, c, s = view(ip, o)
        ip.cx.check(z3.BoolVal(exc is None), "abort never raises")
        ip.cx.check(z3.Implies(st[2] == 0, z3.And(e == st[0], s == 0)), "aborting an idle timer does nothing")
        ip.cx.check(c == st[1], "an abort is not counted")
        ip.cx.check(z3.Implies(st[2] != 0, z3.And(s == 0, some_reading(ip, lambda t: e == st[0] + (t - UNSOME(st[2]))))), "abort adds the length of the interval")
    def p_init(ip, o, ret, exc, st):
        e, c, s = view(ip, o)
        ip.cx.check(z3.And(z3.BoolVal(exc is None), e == 0, c == 0, s == 0), "a new timer is idle, with nothing elapsed or counted")
    def p_running(ip, o, ret, exc, st):
        ip.cx.check(z3.BoolVal(exc is None), "no exception"); unchanged(ip, o, st)
        ip.cx.check(ip.truth(ret) == (st[2] != 0), "running tells whether an interval is open")
    def p_count(ip, o, ret, exc, st):
        ip.cx.check(z3.BoolVal(exc is None), "no exception"); unchanged(ip, o, st)
        ip.cx.check(ip.int_(ret) == st[1], "count is the number of counted stops")
    def p_elapsed(ip, o, ret, exc, st):
        ip.cx.check(z3.BoolVal(exc is None), "no exception"); unchanged(ip, o, st)
        r = ip.int_(ret)
        ip.cx.check(z3.Implies(st[2] == 0, r == st[0]), "elapsed of an idle timer is the sum of its intervals")
        ip.cx.check(z3.Implies(st[2] != 0, some_reading(ip, lambda t: r == st[0] + (t - UNSOME(st[2])))), "elapsed includes the open interval")
    def p_stats(ip, o, ret, exc, st):
        ip.cx.check(z3.BoolVal(exc is None), "no exception"); unchanged(ip, o, st)
        ip.cx.check(ip.int_(ip.getattr_(ret, "count")) == st[1], "stats carry the count")
        ip.cx.check(z3.Implies(st[2] == 0, ip.int_(ip.getattr_(ret, "elapsed")) == st[0]), "stats of an idle timer carry the elapsed time")
    T = lambda m, post, s=None, nm=None: method_task("Timer.%s%s" % (m, nm or ""), repo, TimerSpec, "Timer", m, s or setup(), post)
    cnt = lambda ip: {"count": Sym(TInt, z3.Int("count"))}
    return [T("__init__", p_init), T("running", p_running), T("start", p_start), T("stop", p_stop(lambda ip: 1)),
            T("stop", p_stop(lambda ip: z3.Int("count")), setup(cnt), " (count given)"), T("abort", p_abort), T("count", p_count),
            T("elapsed", p_elapsed), T("stats", p_stats)]
