"""Sudoku schemas with 1-14 blanks cut from valid grids (sometimes with contradictory or changed clues, None or 0 blanks), all solutions compared with an independent solver; default limit checked. Non-trivial: at least two blanks."""
import random
BASE = [[(3 * (r % 3) + r // 3 + c) % 9 + 1 for c in range(9)] for r in range(9)]
def rgrid(rng):
    p = rng.sample(range(1, 10), 9)
    rows = [3 * b + r for b in rng.sample(range(3), 3) for r in rng.sample(range(3), 3)]
    cols = [3 * b + r for b in rng.sample(range(3), 3) for r in rng.sample(range(3), 3)]
    g = [[p[BASE[r][c] - 1] for c in cols] for r in rows]
    if rng.random() < 0.5: g = [list(x) for x in zip(*g)]
    return g
def generate(rng):
    g = rgrid(rng)
    mode = rng.random()
    if mode < 0.3:
        # a family with several completions: blank two digits in a band
        a, b = rng.sample(range(1, 10), 2); band = rng.randrange(3)
        cells = [(r, c) for r in range(9) for c in range(9) if g[r][c] in (a, b) and (r // 3 == band or rng.random() < 0.3)]
    else:
        cells = rng.sample([(r, c) for r in range(9) for c in range(9)], rng.choice([1, 2, 5, 10, 20, 30]))
    for r, c in cells: g[r][c] = None if rng.random() < 0.3 else 0
    if rng.random() < 0.25:
        filled = [(r, c) for r in range(9) for c in range(9) if g[r][c]]
        r, c = rng.choice(filled); g[r][c] = rng.randint(1, 9)
    if rng.random() < 0.1:
        filled = [(r, c) for r in range(9) for c in range(9) if g[r][c]]
        (r, c), (r2, c2) = rng.sample(filled, 2); g[r][c] = g[r2][c2]
    return {"schema": g, "limit": rng.choice(["default", "default", "none", "none", 2])}
def nontrivial(case): return sum(1 for r in case["schema"] for x in r if not x) >= 2
def solve(g, cap):
    g = [[x or 0 for x in r] for r in g]
    R = [0] * 9; C = [0] * 9; B = [0] * 9
    for r in range(9):
        for c in range(9):
            v = g[r][c]
            if v:
                m = 1 << v
                if R[r] & m or C[c] & m or B[r // 3 * 3 + c // 3] & m: return []
                R[r] |= m; C[c] |= m; B[r // 3 * 3 + c // 3] |= m
    out = []
    def rec():
        best = None
        for r in range(9):
            for c in range(9):
                if not g[r][c]:
                    used = R[r] | C[c] | B[r // 3 * 3 + c // 3]
                    k = 9 - bin(used).count("1")
                    if best is None or k < best[0]: best = (k, r, c, used)
        if best is None:
            out.append(tuple(tuple(r) for r in g)); return len(out) < cap
        _, r, c, used = best
        for v in range(1, 10):
            m = 1 << v
            if not used & m:
                g[r][c] = v; R[r] |= m; C[c] |= m; B[r // 3 * 3 + c // 3] |= m
                ok = rec()
                g[r][c] = 0; R[r] ^= m; C[c] ^= m; B[r // 3 * 3 + c // 3] ^= m
                if not ok: return False
        return True
    rec()
    return out
def run(case):
    import copy
    from satisfy.sudoku import SudokuSolver
    from satisfy.utils import INFINITY
    s = case["schema"]
    want = solve(s, 60)
    if len(want) >= 60: return None
    args = {} if case["limit"] == "default" else {"limit": INFINITY if case["limit"] == "none" else case["limit"]}
    orig = copy.deepcopy(s)
    got = list(SudokuSolver(s, **args))
    if s != orig: return "the schema was modified"
    got = [tuple(tuple(r) for r in g) for g in got]
    if len(set(got)) != len(got): return "a grid is yielded twice"
    if set(got) - set(want): return "yields an invalid grid %r" % (min(set(got) - set(want)),)
    lim = 1 if case["limit"] == "default" else case["limit"]
    exp = len(want) if lim == "none" else min(len(want), lim)
    if len(got) != exp: return "%d grids yielded, %d expected (limit %s, %d exist)" % (len(got), exp, lim, len(want))
    return None
def enumerate_cases():
    rng = random.Random(3)
    for k in range(20):
        g = rgrid(rng); r, c = divmod(k * 4 % 81, 9)
        h = [list(x) for x in g]; h[r][c] = 0
        yield {"schema": h, "limit": "none"}
        h = [list(x) for x in g]; h[r][c] = 0; r2, c2 = (r + 1) % 9, (c + 5) % 9
        h[r2][c2] = h[r2][(c2 + 1) % 9]; yield {"schema": h, "limit": "none"}
