"""Nonograms of at most 5x5: clues of random pictures (often ambiguous), random clues that may not fit, all pictures <= 3x3 enumerated; solutions compared with brute force over row fillings. Non-trivial: at least two runs."""
import itertools
from csp import POLICIES
def runs(cells):
    out = []; c = 0
    for x in list(cells) + [0]:
        if x: c += 1
        elif c: out.append(c); c = 0
    return out
def clues(p): return {"rows": [runs(r) for r in p], "columns": [runs(c) for c in zip(*p)]}
_rows = {}
def rowfill(n, clue):
    k = (n, tuple(clue))
    if k not in _rows: _rows[k] = [r for r in itertools.product((0, 1), repeat=n) if runs(r) == list(clue)]
    return _rows[k]
def brute(ng):
    R, C = ng["rows"], ng["columns"]
    out = set()
    for rows in itertools.product(*[rowfill(len(C), r) for r in R]):
        if all(runs(c) == list(cc) for c, cc in zip(zip(*rows), C)): out.add(rows)
    return out
def enumerate_cases():
    for h, w in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (3, 3)):
        for bits in range(1, 2 ** (h * w)):
            p = [[bits >> (r * w + c) & 1 for c in range(w)] for r in range(h)]
            yield {"ng": clues(p), "policy": None, "compile": True}
    for R in ([[1], [1]], [[2], []], [[1], []], [[3], [1]], [[1, 1], [1]]):
        for C in ([[1], [1]], [[1], []], [[2], [2]], [[1], [2]], [[3], []]):
            yield {"ng": {"rows": R, "columns": C}, "policy": None, "compile": True}
def generate(rng):
    h, w = rng.randint(1, 5), rng.randint(1, 5)
    while True:
        d = rng.choice([0.3, 0.5, 0.7])
        p = [[int(rng.random() < d) for _ in range(w)] for _ in range(h)]
        if any(map(any, p)): break
    ng = clues(p)
    if rng.random() < 0.2:
        side = rng.choice(["rows", "columns"]); i = rng.randrange(len(ng[side]))
        ng[side][i] = [rng.randint(1, 3) for _ in range(rng.randint(0, 2))]
        if not any(ng["rows"]) and not any(ng["columns"]): ng["rows"][0] = [1]
    return {"ng": ng, "policy": rng.choice([None, None] + POLICIES), "compile": rng.random() < 0.7}
def nontrivial(case): return sum(map(len, case["ng"]["rows"])) >= 2
def run(case):
    from satisfy import VarSelectionPolicy
    from satisfy.nonogram import NonogramSolver
    a = {} if case["policy"] is None else {"var_selection_policy": getattr(VarSelectionPolicy, case["policy"])}
    got = [tuple(tuple(r) for r in p) for p in NonogramSolver(case["ng"], compile_constraints=case["compile"], **a)]
    want = brute(case["ng"])
    if len(set(got)) != len(got): return "a picture is yielded twice"
    if set(got) - want: return "yields the wrong picture %r" % (min(set(got) - want),)
    if want - set(got): return "missing picture %r" % (min(want - set(got)),)
    return None
