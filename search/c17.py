"""Cryptarithms over at most 4 letters with words/numbers mixing letters and digits, + - * and parentheses-free equations, lower case, both leading-zero settings, every policy; solutions compared with brute force over digit permutations. Non-trivial: at least two letters."""
import itertools, re
from csp import POLICIES
def enumerate_cases():
    for s in ("A+B==C", "AB+B==CA", "A*A==A", "AB*2==BA", "A5+B==BA", "0A==A", "a+b==9", "AA==BB", "10A==A01", "A-B==3", "A+A==B0", "AA3*55==6CAB", "A1B+1==A2C", "A==A", "A0==0A", "AB==BA+9", "A*1==A", "A*10==BA"):
        for z in (True, False): yield {"src": s, "avoid": z, "policy": None, "compile": True}
def generate(rng):
    letters = rng.sample("ABCDEXYZabz", rng.randint(1, 4))
    def word():
        return "".join(rng.choice(letters) if rng.random() < 0.7 else rng.choice("0123456789") for _ in range(rng.randint(1, 4)))
    n = rng.randint(2, 4)
    terms = [word() for _ in range(n)]
    ops = [rng.choice(["+", "+", "-", "*"]) for _ in range(n - 1)]
    ops[rng.randrange(n - 1)] = "=="
    sp = rng.choice(["", " "])
    s = terms[0]
    for o, t in zip(ops, terms[1:]): s += sp + o + sp + t
    # make it satisfiable half the time: replace one side by its value under a random assignment
    if rng.random() < 0.6:
        L = sorted(set(re.findall("[A-Z]", s.upper()))); a = dict(zip(L, rng.sample(range(10), len(L))))
        l = s.upper().split("==")[0]
        v = val(l, a)
        if v >= 0:
            inv = {str(d): x for x, d in a.items()}
            s = l + "==" + "".join(inv.get(ch, ch) if rng.random() < 0.6 else ch for ch in str(v))
    return {"src": s, "avoid": rng.random() < 0.6, "policy": rng.choice([None, None] + POLICIES), "compile": rng.random() < 0.7}
def val(s, a):
    s = re.sub("[A-Z0-9]+", lambda m: str(int("".join(str(a.get(c, c)) for c in m.group()))), s)
    return eval(s)
def nontrivial(case): return len(set(re.findall("[A-Z]", case["src"].upper()))) >= 2
def run(case):
    from satisfy import VarSelectionPolicy
    from satisfy.cryptarithm import CryptarithmSolver
    src = case["src"].upper()
    L = sorted(set(re.findall("[A-Z]", src)))
    if not L: return None
    a = {} if case["policy"] is None else {"var_selection_policy": getattr(VarSelectionPolicy, case["policy"])}
    got = []
    for s in CryptarithmSolver(case["src"], avoid_leading_zeros=case["avoid"], compile_constraints=case["compile"], **a):
        if set(s) != set(L): return "letters %r bound, source has %r" % (sorted(s), L)
        got.append(tuple(s[x] for x in L))
    lead = {w[0] for w in re.findall("[A-Z0-9]+", src) if w[0].isalpha()} if case["avoid"] else set()
    want = set()
    for p in itertools.permutations(range(10), len(L)):
        d = dict(zip(L, p))
        if any(d[x] == 0 for x in lead): continue
        if val(src, d): want.add(p)
    if len(set(got)) != len(got): return "a solution is yielded twice"
    if set(got) - want: return "yields the non-solution %r" % dict(zip(L, min(set(got) - want)))
    if want - set(got): return "missing solution %r" % dict(zip(L, min(want - set(got))))
    return None
