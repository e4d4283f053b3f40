"""All pictures up to 3x4, random pictures up to 9x9 with arbitrary non-zero cell values, and 0-row / 0-column pictures; non-trivial: at least one filled cell."""
from c15 import runs
def enumerate_cases():
    yield {"p": []}; yield {"p": [[]]}; yield {"p": [[], []]}
    for h, w in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (1, 7), (7, 1)):
        for bits in range(2 ** (h * w)): yield {"p": [[bits >> (r * w + c) & 1 for c in range(w)] for r in range(h)]}
def generate(rng):
    h, w = rng.randint(1, 9), rng.randint(1, 9); d = rng.random()
    return {"p": [[rng.choice([1, 1, 2, 9, -1]) if rng.random() < d else 0 for _ in range(w)] for _ in range(h)]}
def nontrivial(case): return any(map(any, case["p"]))
def shrink(case):
    p = case["p"]
    for i in range(len(p)): yield {"p": p[:i] + p[i+1:]}
    if p:
        for j in range(len(p[0])): yield {"p": [r[:j] + r[j+1:] for r in p]}
def run(case):
    from satisfy.nonogram import pixmap_to_nonogram, pixmap_shape
    p = case["p"]
    import copy
    q = copy.deepcopy(p)
    ng = pixmap_to_nonogram(q)
    if q != p: return "picture modified"
    w = len(p[0]) if p else 0
    if tuple(pixmap_shape(q)) != (len(p), w): return "shape %r" % (pixmap_shape(q),)
    if list(map(list, ng["rows"])) != [runs(r) for r in p]: return "rows %r" % (ng["rows"],)
    if list(map(list, ng["columns"])) != [runs([r[c] for r in p]) for c in range(w)]: return "columns %r" % (ng["columns"],)
    return None
