"""Regular expressions of the code as languages: decided with the string solver over representatives of the character
classes (ASCII as it is; U+00E9 stands for every non-ASCII word character, U+00A7 for every other non-ASCII character)."""
import functools
import z3
from pyvc.vals import Unsupported
from pyvc.interp import tmpl_re
try: import re._parser as sp
except ImportError: import sre_parse as sp

def ch(c): return z3.Re(z3.StringVal(chr(c))) if not isinstance(c, str) else z3.Re(z3.StringVal(c))
def rng(a, b): return z3.Range(chr(a), chr(b))
def union(xs): return xs[0] if len(xs) == 1 else z3.Union(*xs)
DIGIT = z3.Range("0", "9")
LETTER = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"))
ALETTER = z3.Union(LETTER, ch(0xe9))
WORD = z3.Union(LETTER, DIGIT, ch("_"), ch(0xe9))
ANY = z3.Union(rng(0, 127), ch(0xe9), ch(0xa7))
def neg(r): return z3.Intersect(ANY, z3.Complement(r))
SPACE = union([ch(c) for c in (32, 9, 10, 11, 12, 13, 28, 29, 30, 31)])
CATS = {"CATEGORY_WORD": WORD, "CATEGORY_DIGIT": DIGIT, "CATEGORY_SPACE": SPACE, "CATEGORY_NOT_WORD": neg(WORD), "CATEGORY_NOT_DIGIT": neg(DIGIT), "CATEGORY_NOT_SPACE": neg(SPACE)}
EPS = z3.Re("")
STAR = z3.Star(ANY)
def one(op, av):
    o = str(op)
    if o == "LITERAL":
        if av > 127: raise Unsupported("non-ASCII literal in a pattern")
        return ch(av)
    if o == "NOT_LITERAL": return neg(ch(av))
    if o == "ANY": return neg(ch(10))
    if o == "IN":
        items, n = list(av), False
        if str(items[0][0]) == "NEGATE": n, items = True, items[1:]
        rs = []
        for a, b in items:
            if str(a) == "LITERAL": rs.append(ch(b))
            elif str(a) == "RANGE": rs.append(rng(*b))
            elif str(a) == "CATEGORY": rs.append(CATS[str(b)])
            else: raise Unsupported("pattern item %s" % a)
        r = union(rs)
        return neg(r) if n else r
    if o in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, sub = av
        s = seq(list(sub))
        if hi == sp.MAXREPEAT:
            if lo == 0: return z3.Star(s)
            if lo == 1: return z3.Plus(s)
            return z3.Concat(z3.Loop(s, lo, lo), z3.Star(s))
        return z3.Option(s) if (lo, hi) == (0, 1) else z3.Loop(s, lo, hi)
    if o == "SUBPATTERN": return seq(list(av[-1]))
    if o == "BRANCH": return union([seq(list(b)) for b in av[1]])
    raise Unsupported("pattern element %s" % o)
def seq(items):
    rs = [one(a, b) for a, b in items]
    return EPS if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)
def language(pattern, method):
    """the strings s for which re.compile(pattern).<method>(s) succeeds"""
    items = list(sp.parse(pattern))
    if items and str(items[0][0]) == "AT" and str(items[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
        items = items[1:]
        if method == "search": method = "match"
    tail = None
    if items and str(items[-1][0]) == "AT":
        k = str(items[-1][1]); items = items[:-1]
        tail = EPS if k == "AT_END_STRING" else z3.Option(ch(10)) if k == "AT_END" else None
        if tail is None: raise Unsupported("pattern anchor %s" % k)
    if any(str(a) == "AT" for a, _ in items): raise Unsupported("anchor inside a pattern")
    r = seq(items)
    if method == "fullmatch": return z3.Concat(r, EPS if tail is None else EPS)
    if method not in ("match", "search"): raise Unsupported("regular expression method %s" % method)
    r = z3.Concat(r, STAR if tail is None else tail)
    return z3.Concat(STAR, r) if method == "search" else r
def empty(*rs):
    """no string is in all the languages"""
    x = z3.String("s"); s = z3.Solver(); s.set("timeout", 20000)
    for r in rs: s.add(z3.InRe(x, r))
    k = s.check()
    if k == z3.unknown: raise Unsupported("string solver gave no answer")
    return k == z3.unsat, (str(s.model()[x]) if k == z3.sat else None)
def subset(a, b): return empty(a, z3.Complement(b))
NAME = z3.Concat(ALETTER, z3.Star(WORD))            # a letter followed by letters, digits or underscores
