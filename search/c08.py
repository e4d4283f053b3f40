"""Random models with a history of searches on one solver: limits (constructor or call), timeouts driven by a scripted clock, abandoned searches; checked: number of yields, count and interrupt in the statistics after every yield and at the end, exhaustiveness when no interruption is reported. Non-trivial: at least two solutions exist."""
from csp import *
import c06
def generate(rng):
    spec = rand_model(rng, space=400)
    h = []
    for _ in range(rng.choice([1, 2, 3])):
        h.append({"cfg": dict(rand_config(rng), timeout=rng.choice([None, None, 0, 1, 5, 20, 60])), "call": rng.random() < 0.5,
                  "step": rng.choice([0, 1, 1, 2]), "yield_step": rng.choice([0, 0, 100]), "stop_after": rng.choice([None, None, 0, 1, 2])})
    return {"spec": spec, "hist": h}
def enumerate_cases():
    spec = {"vars": [["x", [0, 1, 2], "list"], ["y", [0, 1, 2], "list"]], "params": [], "cons": []}
    for lim in (1, 2, 8, 9, 10, None):
        for to in (None, 0, 3, 10**6):
            for call in (False, True):
                for sp in (spec, dict(spec, cons=[{"b": False}]), dict(spec, cons=[{"e": ["<", ["v", "x"], ["v", "x"]]}])):
                    yield {"spec": sp, "hist": [{"cfg": {"policy": "ORDERED", "compile": True, "limit": lim, "timeout": to}, "call": call, "step": 1, "yield_step": 0, "stop_after": None},
                                                {"cfg": {"policy": "GROUPS", "compile": True, "limit": None, "timeout": None}, "call": True, "step": 1, "yield_step": 0, "stop_after": None}]}
def nontrivial(case):
    return case["hist"][0]["cfg"]["limit"] is not None or case["hist"][0]["cfg"]["timeout"] is not None
def shrink(case):
    h = case["hist"]
    for i in range(len(h)):
        if len(h) > 1: yield dict(case, hist=h[:i] + h[i+1:])
    for s in shrink_spec(case["spec"]): yield dict(case, spec=s)
class Clock:
    def __init__(self): self.t = 1000.0; self.step = 0; self.reads = 0
    def __call__(self):
        self.t += self.step; self.reads += 1
        return self.t
def run(case):
    import time
    from satisfy import Solver
    spec = case["spec"]
    usable(spec)
    b = Built(spec)
    clock = Clock()
    real = time.time
    sols = {key(a) for a in brute(spec, b.pvals)}
    first = case["hist"][0]
    s = Solver(**mkconfig(first["cfg"]))
    ctor = mkconfig(first["cfg"])
    time.time = clock
    try:
        for h in case["hist"]:
            k = mkconfig(h["cfg"])
            if h["call"]:
                args = {x: k[x] for x in ("var_selection_policy", "limit", "timeout")}
                limit, timeout = h["cfg"]["limit"], h["cfg"]["timeout"]
            else:
                args = {}
                limit, timeout = ctor["limit"], ctor["timeout"]
            clock.step = h["step"]
            start = clock.t
            n = 0
            got = []
            spent_outside = 0.0
            it = s.solve(b.m, **args)
            ended = False
            while True:
                if h["stop_after"] is not None and n >= h["stop_after"] and n > 0: break
                try: sol = next(it)
                except StopIteration: ended = True; break
                n += 1; got.append(key(sol))
                st = s.get_stats()
                if st.count != n: return "statistics count %r after %d solutions" % (st.count, n)
                if st.interrupt is not None: return "interrupt %r reported while the search goes on" % st.interrupt
                if limit is not None and n > limit: return "%d solutions with limit %d" % (n, limit)
                clock.t += h["yield_step"]; spent_outside += h["yield_step"]
                if n > len(sols) + 20: return "too many solutions"
            st = s.get_stats()
            if st.count != n: return "statistics count %r after %d solutions" % (st.count, n)
            if not ended:
                it.close()
                continue
            total = clock.t - start
            if st.elapsed > total - spent_outside + 1e-6: return "elapsed %r exceeds the time spent %r" % (st.elapsed, total)
            if st.interrupt == "limit":
                if limit is None or n != limit: return "interrupt 'limit' after %d solutions, limit %r" % (n, limit)
            elif st.interrupt == "timeout":
                if timeout is None: return "interrupt 'timeout' without a timeout"
                if not (total - spent_outside > timeout): return "interrupt 'timeout' although only %r passed of %r" % (total - spent_outside, timeout)
            elif st.interrupt is None:
                if set(got) != sols: return "no interruption reported but %d of %d solutions yielded" % (len(set(got)), len(sols))
                if limit is not None and n >= limit: return "limit reached but not reported"
            else:
                return "unknown interrupt %r" % (st.interrupt,)
            if timeout == 0 and h["step"] > 0 and b.m.solvable() and st.interrupt != "timeout" and all(v[1] for v in spec["vars"]):
                return "timeout 0 not respected"
    finally:
        time.time = real
    return None
