"""Two or three searches (with different policies, compile flags, also optimizations) on one solver and model, stepped in a random interleaving while the caller scrambles every yielded dict; each search must yield exactly what it yields alone, and the model must be unchanged. Non-trivial: at least two interleaved searches."""
from csp import *
def generate(rng):
    spec = rand_model(rng, params=False, space=200)
    k = rng.choice([2, 2, 3])
    return {"spec": spec, "cfgs": [rand_config(rng, limits=False) for _ in range(k)], "order": [rng.randrange(k) for _ in range(rng.randint(4, 60))],
            "abandon": rng.choice([None, None, 0]), "scramble": rng.choice(["clear", "set", "add", "none"])}
def nontrivial(case): return len(set(case["order"])) > 1
def shrink(case):
    for s in shrink_spec(case["spec"]): yield dict(case, spec=s)
def scramble(d, how):
    if how == "clear": d.clear()
    elif how == "set":
        for k in d: d[k] = -999
    elif how == "add": d["zzz"] = 1; d.pop(next(iter(d)))
def snap(m):
    return ([(k, id(v.variable), type(v.domain), list(v.domain) if v.domain is not None else None) for k, v in m.variables().items()], [id(c) for c in m.constraints()], [sorted(c.vars()) for c in m.constraints()], m.solvable())
def run(case):
    from satisfy import Solver, VarSelectionPolicy
    spec = case["spec"]
    usable(spec)
    b = Built(spec)
    want = {key(a) for a in brute(spec, b.pvals)}
    before = snap(b.m)
    s = Solver()
    its = []
    for c in case["cfgs"]:
        s.compile_constraints = c["compile"]
        its.append(s.solve(b.m, var_selection_policy=getattr(VarSelectionPolicy, c["policy"]), limit=None, timeout=None))
    got = [[] for _ in its]; live = [True] * len(its)
    kept = []
    def step(i):
        try: sol = next(its[i])
        except StopIteration: live[i] = False; return
        got[i].append(key(sol))
        if case["scramble"] == "none": kept.append((sol, key(sol)))
        else: scramble(sol, case["scramble"])
    for i in case["order"]:
        if live[i] and len(got[i]) <= len(want) + 3: step(i)
    if case["abandon"] is not None:
        its[case["abandon"]].close(); live[case["abandon"]] = False
        got[case["abandon"]] = None
    for i in range(len(its)):
        while live[i]:
            step(i)
            if len(got[i]) > len(want) + 3: return "search %d yields too many solutions" % i
    for i, g in enumerate(got):
        if g is None: continue
        if len(g) != len(set(g)) or set(g) != want: return "search %d (%r) yields %d solutions (%d distinct), alone it yields %d" % (i, case["cfgs"][i], len(g), len(set(g)), len(want))
    for sol, k in kept:
        if key(sol) != k: return "a yielded solution was modified later"
    if snap(b.m) != before: return "the model was modified"
    again = [key(a) for a in s.solve(b.m, limit=None, timeout=None)]
    if sorted(again) != sorted(want): return "solving again gives %d solutions instead of %d" % (len(again), len(want))
    return None
