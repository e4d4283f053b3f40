"""As C09 with optimal_solution, limits and a scripted clock for timeouts: a result marked optimal is compared with the brute-force optimum; an interrupted run must not be marked optimal. Non-trivial: more than one variable."""
from csp import *
import c09, c08
nontrivial, shrink = c09.nontrivial, c09.shrink
enumerate_cases = c09.enumerate_cases
def generate(rng):
    c = c09.generate(rng)
    c["cfg"]["timeout"] = rng.choice([None, None, None, 0, 3, 10, 40])
    c["pre"] = rng.random() < 0.3
    return c
def run(case):
    import time
    spec, b, sols, obj, s, args = c09.prepare(case)
    vals = [ev(case["obj"], a) for a in sols]
    best = (max(vals) if case["max"] else min(vals)) if vals else None
    if case.get("pre"):
        for _ in zip(range(1), s.solve(b.m, limit=1)): pass
        list(s.solve(b.m, limit=1))
    clock = c08.Clock(); clock.step = 1
    real = time.time
    time.time = clock
    try:
        for _ in range(2 if case["again"] else 1):
            r = s.optimal_solution(b.m, obj, **args)
            intr = s.get_stats().interrupt
            if r.solution is not None and r.solution not in sols: return "returns the non-solution %r" % r.solution
            if r.is_optimal:
                if r.solution is None: return "no solution but marked optimal"
                if intr is not None: return "interrupted (%s) but marked optimal" % intr
                v = ev(case["obj"], r.solution)
                if v != best: return "marked optimal with value %r, %r is possible" % (v, best)
            if intr is None:
                if sols and (r.solution is None or not r.is_optimal): return "uninterrupted, %d solutions exist, result %r" % (len(sols), r)
                if not sols and r.solution is not None: return "solution of an unsatisfiable model"
            if case["cfg"]["timeout"] is None and case["cfg"]["limit"] is None and intr is not None: return "interrupt %r without cause" % intr
    finally:
        time.time = real
    return None
