"""Shared pieces of the bounded search: expression trees with an oracle that does not use satisfy.

A tree is JSON:  ["v",name]  ["c",k] Const  ["i",k] plain int  ["p",name,k] Parameter
                 [op,l,r]  op in + - * / % ** == != < <= > >= & |     ["neg",a] ["abs",a] ["pos",a] ["not",a]
                 ["Sum",[trees],const]  ["Prod",[trees],const]   (direct construction of the node classes)
"""
import itertools, random

ARITH = ["+", "-", "*"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
ALL_BIN = ARITH + ["/", "%", "**"] + CMP + ["&", "|"]

class Undefined(Exception):
    pass

def ev(t, a, params=None):
    k = t[0]
    if k == "v":
        return a[t[1]]
    if k in ("c", "i"):
        return t[1]
    if k == "p":
        return t[2] if params is None or t[1] not in params else params[t[1]]
    if k == "neg":
        return -ev(t[1], a, params)
    if k == "pos":
        return ev(t[1], a, params)
    if k == "abs":
        return abs(ev(t[1], a, params))
    if k == "not":
        return not ev(t[1], a, params)
    if k == "Sum":
        r = t[2]
        for x in t[1]:
            r = r + ev(x, a, params)
        return r
    if k == "Prod":
        r = t[2]
        for x in t[1]:
            r = r * ev(x, a, params)
        return r
    l = ev(t[1], a, params)
    r = ev(t[2], a, params)
    if k == "+": return l + r
    if k == "-": return l - r
    if k == "*": return l * r
    if k == "/":
        if r == 0: raise Undefined
        return l // r
    if k == "%":
        if r == 0: raise Undefined
        return l % r
    if k == "**":
        if r < 0 or r > 8 or abs(l) > 10**6: raise Undefined
        return l ** r
    if k == "==": return l == r
    if k == "!=": return l != r
    if k == "<": return l < r
    if k == "<=": return l <= r
    if k == ">": return l > r
    if k == ">=": return l >= r
    if k == "&": return l and r
    if k == "|": return l or r
    raise ValueError(k)

def tvars(t, out=None):
    out = set() if out is None else out
    if t[0] == "v":
        out.add(t[1])
    elif t[0] in ("Sum", "Prod"):
        for x in t[1]:
            tvars(x, out)
    elif t[0] not in ("c", "i", "p"):
        for x in t[1:]:
            tvars(x, out)
    return out

def build(t, params=None):
    """Build with the real operators. params: name -> Parameter object to share."""
    from satisfy import expression as X
    k = t[0]
    if k == "v": return X.Variable(t[1])
    if k == "c": return X.Const(t[1])
    if k == "i": return t[1]
    if k == "p":
        if params is not None:
            if t[1] not in params:
                params[t[1]] = X.Parameter(t[1], t[2])
            return params[t[1]]
        return X.Parameter(t[1], t[2])
    if k in ("Sum", "Prod"):
        args = [build(x, params) for x in t[1]]
        return getattr(X, k)(args, const=t[2])
    args = [build(x, params) for x in t[1:]]
    if not any(isinstance(x, X.Expression) for x in args):
        args[0] = X.Const(args[0])       # two plain integers are not satisfy's business
    if k == "neg": return -args[0]
    if k == "pos": return +args[0]
    if k == "abs": return abs(args[0])
    if k == "not": return X.Not(args[0])
    l, r = args
    if k in ("/", "%", "**"):
        rv = r.value if type(r) is X.Const else r
        if isinstance(rv, int) and ((k != "**" and rv == 0) or (k == "**" and not 0 <= rv <= 8)):
            raise Undefined     # the constant-folded formula is undefined, like in plain Python
    if k == "+": return l + r
    if k == "-": return l - r
    if k == "*": return l * r
    if k == "/": return l / r
    if k == "%": return l % r
    if k == "**": return l ** r
    if k == "==": return l == r
    if k == "!=": return l != r
    if k == "<": return l < r
    if k == "<=": return l <= r
    if k == ">": return l > r
    if k == ">=": return l >= r
    if k == "&": return l & r
    if k == "|": return l | r
    raise ValueError(k)

def build_expr(t, params=None):
    from satisfy.expression import Expression
    return Expression.coerce(build(t, params))

SMALL = [0, 0, 1, 1, -1, 2, -2, 3, 5, 7, 10, -7, 100]
NAMES = ["x", "y", "z", "w"]
ODD_NAMES = ["a\ufb01", "b\u00b2", "if", "class", "sum", "prod", "abs", "self", "lambda", "len", "x1", "e", "None", "substitution", "list", "int"]

def rand_tree(rng, depth, names, ops=ALL_BIN, params=True, direct=True, consts=SMALL):
    if depth <= 0 or rng.random() < 0.12:
        q = rng.random()
        if q < 0.55 and names:
            return ["v", rng.choice(names)]
        if q < 0.75:
            return ["i", rng.choice(consts)]
        if q < 0.9 or not params:
            return ["c", rng.choice(consts)]
        k = rng.choice(consts)
        return ["p", "p%d" % (k + 50), k]
    q = rng.random()
    sub = lambda: rand_tree(rng, depth - 1, names, ops, params, direct, consts)
    if q < 0.13:
        return [rng.choice(["neg", "neg", "abs", "pos"] + (["not"] if direct else [])), sub()]
    if direct and q < 0.2:
        return [rng.choice(["Sum", "Prod"]), [sub() for _ in range(rng.randint(0, 4))], rng.choice([0, 1, 1, 0, 2, -3])]
    if q < 0.4:
        op = rng.choice(ARITH)
    else:
        op = rng.choice(ops)
    return [op, sub(), sub()]

def small_trees(names=("x", "y"), consts=(0, 1, 2, -1, -2), ops=ALL_BIN):
    """Exhaustive depth-1 and a good part of depth-2 trees."""
    leaves = [["v", n] for n in names] + [["i", c] for c in consts] + [["c", c] for c in consts] + [["p", "p%d" % (c + 50), c] for c in (0, 1, -2)]
    d1 = [[op, l, r] for op in ops for l in leaves for r in leaves] + [[u, l] for u in ("neg", "abs", "pos", "not") for l in leaves]
    yield from leaves
    yield from d1
    few = [["v", "x"], ["i", 2], ["c", -2], ["v", "y"]]
    d1s = [[op, l, r] for op in ops for l in few for r in few if "v" in (l[0], r[0])] + [[u, l] for u in ("neg", "abs", "not") for l in few[:1]]
    d1s += [[k, a, c] for k in ("Sum", "Prod") for c in (0, 1, 3, -2) for a in ([], [["v", "x"]], [["v", "x"], ["v", "y"]], [["v", "x"], ["v", "y"], ["i", -2]])]
    for s in d1s:
        for u in ("neg", "abs", "not"):
            yield [u, s]
        for op in ops:
            for l in few:
                yield [op, l, s]
                yield [op, s, l]

class Hang(BaseException):
    pass
