"""Board sizes 1..2 under every policy, 3..6 under the four policies that branch on the queens first, compiled and not, all boards compared with brute force over permutations. Non-trivial: size >= 4."""
import itertools
from csp import POLICIES
_memo = {}
def boards(n):
    if n not in _memo:
        out = set()
        for p in itertools.permutations(range(n)):
            if len({p[i] + i for i in range(n)}) == n and len({p[i] - i for i in range(n)}) == n:
                out.add(tuple(tuple(1 if p[r] == c else 0 for c in range(n)) for r in range(n)))
        _memo[n] = out
    return _memo[n]
def enumerate_cases():
    for n in (1, 2):
        for p in [None] + POLICIES:
            for c in (True, False): yield {"n": n, "policy": p, "compile": c}
    for n in (3, 4, 5, 6):   # the other policies order the auxiliary variables first: correct, but far too slow here
        for p in (None, "ORDERED", "MIN_BOUND", "MAX_CONSTRAINT"):
            for c in (True, False): yield {"n": n, "policy": p, "compile": c}
def nontrivial(case): return case["n"] >= 4
def run(case):
    from satisfy import VarSelectionPolicy
    from satisfy.tool.queens import QueensSolver
    a = {} if case["policy"] is None else {"var_selection_policy": getattr(VarSelectionPolicy, case["policy"])}
    n = case["n"]
    got = [tuple(tuple(r) for r in b) for b in QueensSolver(n, compile_constraints=case["compile"], **a)]
    if len(set(got)) != len(got): return "a board is yielded twice"
    w = boards(n)
    if set(got) - w: return "yields the wrong board %r" % (min(set(got) - w),)
    if w - set(got): return "%d of %d boards yielded" % (len(got), len(w))
    return None
