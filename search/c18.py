"""Random ascii maps up to 5x6 (ragged rows, blanks, dots, up to 5 characters, long snakes), 1-4 colors, with and without limit; regions recomputed by an independent flood fill, colorings compared cell by cell and counted by brute force. Non-trivial: at least two regions."""
import itertools, re
COLORS = ["red", "green", "yellow", "blue"]
def generate(rng):
    h, w = rng.randint(1, 5), rng.randint(1, 6)
    al = rng.choice(["A ", "AB ", "ABC ", "ABCD .", "12A  "])
    rows = ["".join(rng.choice(al) for _ in range(rng.choice([w, w, w, rng.randint(0, w)]))) for _ in range(h)]
    if not re.search(r"[^ .]", "".join(rows)): rows[0] = "A"
    cell, reg = regions(rows)
    if max(reg.values()) >= 8: return generate(rng)
    return {"map": rows, "as_str": rng.random() < 0.5, "colors": rng.sample(COLORS, rng.randint(1, 4)), "limit": rng.choice(["default", "all", 2])}
def enumerate_cases():
    for rows in (["AB", "BA"], ["A A", " B "], ["ABA", "CCC"], ["A", "B", "A"], ["AAA", "ABA", "AAA"], ["A B", "", "C"], ["AAAA", "A  A", "BBBA"], ["ABAB"], ["A.A"], ["AB", "C"], ["A", "AB", "B"]):
        for k in (1, 2, 3, 4):
            yield {"map": rows, "as_str": False, "colors": COLORS[:k], "limit": "all"}
def nontrivial(case): return len(set("".join(case["map"])) - {" ", "."}) >= 2
def shrink(case):
    m = case["map"]
    for i in range(len(m)):
        if re.search(r"[^ .]", "".join(m[:i] + m[i+1:])): yield dict(case, map=m[:i] + m[i+1:])
def regions(rows):
    cell = {(r, c): ch for r, row in enumerate(rows) for c, ch in enumerate(row) if ch not in " ."}
    reg = {}
    for p in sorted(cell):
        if p in reg: continue
        k = len(set(reg.values())); todo = [p]; reg[p] = k
        while todo:
            r, c = todo.pop()
            for dr in (-1, 0, 1):
                for dc in (-1, 0, 1):
                    q = (r + dr, c + dc)
                    if q in cell and q not in reg and cell[q] == cell[p]: reg[q] = k; todo.append(q)
    return cell, reg
def run(case):
    import termcolor
    from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
    from satisfy.utils import INFINITY
    rows = case["map"]
    cell, reg = regions(rows)
    n = max(reg.values()) + 1
    adj = {(reg[p], reg[q]) for p in cell for q in cell if reg[p] < reg[q] and max(abs(p[0] - q[0]), abs(p[1] - q[1])) <= 1}
    adj |= {(b, a) for a, b in adj}; adj = {(a, b) for a, b in adj if a < b}
    want = {cs for cs in itertools.product(case["colors"], repeat=n) if all(cs[a] != cs[b] for a, b in adj)}
    lim = {"default": {}, "all": {"limit": INFINITY}, 2: {"limit": 2}}[case["limit"]]
    code = {}
    for c in COLORS:
        code[termcolor.colored("#", c, force_color=True).split("#")[0]] = c
    got = []
    for out in AsciiMapColoringSolver("\n".join(rows) if case["as_str"] else rows, case["colors"], **lim):
        cs = [None] * n
        if len(out) != len(rows): return "%d rows out of %d" % (len(out), len(rows))
        for r, row in enumerate(rows):
            for c in range(len(row)):
                v = out[r][c]
                if (r, c) in cell:
                    k = [code[x] for x in code if v.startswith(x)]
                    if len(k) != 1: return "cell %d,%d is %r" % (r, c, v)
                    g = reg[(r, c)]
                    if cs[g] is None: cs[g] = k[0]
                    elif cs[g] != k[0]: return "region of cell %d,%d has two colors" % (r, c)
                elif v.strip(" ") != "": return "blank cell %d,%d is %r" % (r, c, v)
        got.append(tuple(cs))
        if len(got) > len(want) + 2: break
    for cs in got:
        if cs not in want:
            bad = [(a, b) for a, b in adj if cs[a] == cs[b]]
            return "touching regions %r have the same color" % (bad[:1],)
    if len(set(got)) != len(got): return "a coloring is yielded twice"
    exp = len(want) if case["limit"] == "all" else min(len(want), 1 if case["limit"] == "default" else 2)
    if len(got) != exp: return "%d colorings yielded, %d expected" % (len(got), exp)
    return None
