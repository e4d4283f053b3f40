"""Random models (<= 5 variables, space <= 3000) and a history of solves with changing policy, compile flag, limit, additional constraints and parameter values on one model and solver; every yielded assignment is checked against an independent evaluator. Also an enumerated family of small models under all policies. Non-trivial: the model has a constraint over two or more variables and at least one solution was expected."""
from csp import *
ONLY_SOUND = True
def enumerate_cases():
    for i, s in enumerate(small_specs()):
        yield {"spec": s, "hist": [{"cfg": {"policy": POLICIES[i % 8], "compile": bool(i // 8 % 2), "limit": None, "timeout": None}, "extra": [], "set": []}]}
def rand_hist(rng, spec, limits=True):
    names = [v[0] for v in spec["vars"]]
    h = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        h.append({"cfg": rand_config(rng, limits), "extra": [rand_con(rng, names, spec["params"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
                  "set": [[p[0], rng.choice([0, 1, 2, 4])] for p in spec["params"] if rng.random() < 0.5], "reuse": rng.random() < 0.5})
    return h
def generate(rng):
    spec = rand_model(rng)
    return {"spec": spec, "hist": rand_hist(rng, spec)}
def nontrivial(case):
    return any(len(all_cvars(c)) > 1 for c in case["spec"]["cons"])
def shrink(case):
    h = case["hist"]
    for i in range(len(h)):
        if len(h) > 1: yield dict(case, hist=h[:i] + h[i+1:])
        if h[i]["extra"]: yield dict(case, hist=h[:i] + [dict(h[i], extra=h[i]["extra"][1:])] + h[i+1:])
    for s in shrink_spec(case["spec"]):
        yield dict(case, spec=s)
def run(case, complete=False):
    from satisfy import Solver
    from satisfy.solver import ModelSolver
    spec = case["spec"]
    for h in case["hist"]: usable(spec, h["extra"])
    pv = dict(spec["params"])
    # parameters may take other values: skip cases undefined for those
    b = Built(spec)
    s = None
    names = [v[0] for v in spec["vars"]]
    doms = {v[0]: v[1] for v in spec["vars"]}
    for h in case["hist"]:
        for p, v in h["set"]: b.set_param(p, v)
        extra = [b.addl(c) for c in h["extra"]]
        if s is None or not h.get("reuse"):
            s = Solver(**mkconfig(h["cfg"])); args = {}
        else:
            s.compile_constraints = h["cfg"]["compile"]
            k = mkconfig(h["cfg"]); args = {x: k[x] for x in ("var_selection_policy", "limit", "timeout")}
        if extra: args["additional_constraints"] = extra
        want = brute(spec, b.pvals, h["extra"])
        wantset = {key(a) for a in want}
        got = []
        if complete or args:
            it = s.solve(b.m, **args)
        else:
            it = iter(ModelSolver(model=b.m, solver=s))
        cap = len(wantset) + 5
        for sol in it:
            if set(sol) != set(names): return "solution %r binds %r, the model has %r" % (sol, sorted(sol), sorted(names))
            for n in names:
                if sol[n] not in doms[n]: return "solution %r: %s is outside its domain %r" % (sol, n, doms[n])
            if not complete:
                for c in list(spec["cons"]) + list(h["extra"]):
                    if not truth(c, sol, b.pvals): return "solution %r breaks %r (config %r)" % (sol, c, h["cfg"])
            got.append(key(sol))
            if len(got) > 3 * cap + 50: break
        if complete and h["cfg"]["limit"] is None:
            if len(set(got)) != len(got): return "a solution is yielded twice (config %r)" % (h["cfg"],)
            miss = wantset - set(got)
            if miss: return "missing solution %r (config %r, yielded %d of %d)" % (dict(min(miss)), h["cfg"], len(set(got) & wantset), len(wantset))
            if set(got) - wantset: return "yields the non-solution %r (config %r)" % (dict(min(set(got) - wantset)), h["cfg"])
    return None
