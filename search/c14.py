"""Random knapsack instances: 1-7 items, 0-3 capacities, values/weights/capacities in -3..12 (also iterators), every policy and compile setting; malformed instances must raise. Non-trivial: at least two items and one capacity."""
import itertools
from csp import POLICIES
def generate(rng):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7]); k = rng.choice([0, 1, 1, 2, 3])
    lo = rng.choice([0, 1, -3])
    c = {"values": [rng.randint(lo, 12) for _ in range(n)], "weights": [[rng.randint(rng.choice([0, lo]), 8) for _ in range(k)] for _ in range(n)],
         "capacities": [rng.randint(rng.choice([-2, 0]), 15) for _ in range(k)], "policy": rng.choice([None] + POLICIES), "compile": rng.random() < 0.5,
         "iters": rng.random() < 0.3, "bad": None}
    if rng.random() < 0.15: c["bad"] = rng.choice(["few", "many", "short", "long", "fvalue", "fweight", "fcap"])
    return c
def enumerate_cases():
    for v in itertools.product((-1, 0, 1, 2), repeat=2):
        for w in itertools.product((0, 1, 2), repeat=2):
            for cap in (-1, 0, 1, 2, 3):
                yield {"values": list(v), "weights": [[x] for x in w], "capacities": [cap], "policy": None, "compile": True, "iters": False, "bad": None}
    for v in (-1, 0, 3):
        for w in (0, 2, -2):
            for cap in (-1, 1, 2):
                yield {"values": [v], "weights": [[w]], "capacities": [cap], "policy": None, "compile": True, "iters": False, "bad": None}
def nontrivial(case): return len(case["values"]) > 1 and bool(case["capacities"])
def shrink(case):
    n = len(case["values"])
    for i in range(n):
        if n > 1: yield dict(case, values=case["values"][:i] + case["values"][i+1:], weights=case["weights"][:i] + case["weights"][i+1:])
    for j in range(len(case["capacities"])):
        yield dict(case, capacities=case["capacities"][:j] + case["capacities"][j+1:], weights=[w[:j] + w[j+1:] for w in case["weights"]])
    if case["policy"]: yield dict(case, policy=None)
def run(case):
    from satisfy import VarSelectionPolicy
    from satisfy.knapsack import KnapsackOptimizer
    V, W, C = list(case["values"]), [list(w) for w in case["weights"]], list(case["capacities"])
    b = case["bad"]
    if b == "few": W = W[:-1]
    elif b == "many": W = W + [list(C)]
    elif b == "short":
        if not C: return None
        W[-1] = W[-1][:-1]
    elif b == "long": W[0] = W[0] + [1]
    elif b == "fvalue": V[-1] = 1.5
    elif b == "fweight":
        if not C: return None
        W[0][-1] = "3"
    elif b == "fcap":
        if not C: return None
        C[0] = 2.5
    a = {} if case["policy"] is None else {"var_selection_policy": getattr(VarSelectionPolicy, case["policy"])}
    args = (V, C, W)
    if case["iters"]: args = (iter(V), iter(C), (iter(w) for w in W))
    if b:
        try: KnapsackOptimizer(*args, **a)
        except (ValueError, TypeError): return None
        return "malformed instance (%s) accepted" % b
    k = KnapsackOptimizer(*args, compile_constraints=case["compile"], **a)
    best = None
    for s in itertools.product((0, 1), repeat=len(V)):
        w = tuple(sum(x * W[i][j] for i, x in enumerate(s)) for j in range(len(C)))
        if all(x <= y for x, y in zip(w, C)):
            v = sum(x * y for x, y in zip(s, V))
            if best is None or v > best: best = v
    for _ in range(2):
        r = k()
        if best is None:
            if r.solution is not None or r.value is not None or r.weights is not None or r.is_optimal: return "infeasible, but result %r" % (r,)
            continue
        if r.solution is None: return "no solution, best value is %r" % best
        s = tuple(r.solution)
        if len(s) != len(V) or not set(s) <= {0, 1}: return "selection %r" % (s,)
        w = tuple(sum(x * W[i][j] for i, x in enumerate(s)) for j in range(len(C)))
        if not all(x <= y for x, y in zip(w, C)): return "selection %r weighs %r, capacities %r" % (s, w, C)
        if r.value != sum(x * y for x, y in zip(s, V)): return "value %r reported for %r" % (r.value, s)
        if tuple(r.weights) != w: return "weights %r reported for %r" % (r.weights, s)
        if r.value != best: return "value %r, best is %r" % (r.value, best)
        if not r.is_optimal: return "not reported optimal"
    return None
