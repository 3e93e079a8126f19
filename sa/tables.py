"""Literal tables of pre-computed expressions: exact rational evaluation of their text and
classification against the Bardell shape functions."""
import ast
from fractions import Fraction
from functools import lru_cache

NF = 64       # orders the oracle can evaluate
Q = Fraction


# ---------------------------------------------------------------- the Bardell functions (oracle)

def _dfact(n):
    r = 1
    while n > 1:
        r *= n
        n -= 2
    return r


def _fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


@lru_cache(None)
def f_poly(i):
    """coefficients (lowest first) of the i-th function: four cubics and the orthogonal-derivative series"""
    if i == 0:
        return (Q(1, 2), Q(-3, 4), Q(0), Q(1, 4))
    if i == 1:
        return (Q(1, 8), Q(-1, 8), Q(-1, 8), Q(1, 8))
    if i == 2:
        return (Q(1, 2), Q(3, 4), Q(0), Q(-1, 4))
    if i == 3:
        return (Q(-1, 8), Q(-1, 8), Q(1, 8), Q(1, 8))
    r = i + 1
    c = [Q(0)] * (i + 1)
    for n in range(r // 2 + 1):
        e = r - 2 * n - 1
        if e < 0:
            continue
        c[e] += Q((-1) ** n * _dfact(2 * r - 2 * n - 7), 2 ** n * _fact(n) * _fact(e))
    return tuple(c)


@lru_cache(None)
def deriv(i, d):
    c = f_poly(i)
    for _ in range(d):
        c = tuple(c[j] * j for j in range(1, len(c)))
    return c


@lru_cache(None)
def integral(i, d1, k, d2):
    """integral over (-1, 1) of the d1-th derivative of f_i times the d2-th derivative of f_k"""
    a, b = deriv(i, d1), deriv(k, d2)
    s = Q(0)
    for p, x in enumerate(a):
        if not x:
            continue
        for q, y in enumerate(b):
            if y and (p + q) % 2 == 0:
                s += x * y * Q(2, p + q + 1)
    return s


def value_at(i, x, d=0):
    s = Q(0)
    for p, c in enumerate(deriv(i, d)):
        s += c * x ** p
    return s


# ---------------------------------------------------------------- polynomials from text

class NotPoly(Exception):
    pass


def _add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = (m[0] + n[0], m[1] + n[1])
            v = r.get(e, 0) + c * d
            if v:
                r[e] = v
            else:
                r.pop(e, None)
    return r


def poly(node, names=("xi", "eta")):
    """bivariate polynomial {(p, q): coefficient} of a syntax tree, exactly"""
    if isinstance(node, ast.Expression):
        return poly(node.body, names)
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        v = Q(repr(node.value))
        return {(0, 0): v} if v else {}
    if isinstance(node, ast.Name):
        if node.id == names[0]:
            return {(1, 0): Q(1)}
        if node.id == names[1]:
            return {(0, 1): Q(1)}
        raise NotPoly(f"name {node.id}")
    if isinstance(node, ast.UnaryOp):
        x = poly(node.operand, names)
        if isinstance(node.op, ast.USub):
            return {m: -c for m, c in x.items()}
        if isinstance(node.op, ast.UAdd):
            return x
        raise NotPoly("operator")
    if isinstance(node, ast.BinOp):
        a, b = poly(node.left, names), poly(node.right, names)
        if isinstance(node.op, ast.Add):
            return _add(a, b)
        if isinstance(node.op, ast.Sub):
            return _add(a, b, -1)
        if isinstance(node.op, ast.Mult):
            return _mul(a, b)
        if isinstance(node.op, ast.Div):
            if set(b) != {(0, 0)}:
                raise NotPoly("division")
            return {m: c / b[0, 0] for m, c in a.items()}
        if isinstance(node.op, ast.Pow):
            if not b:
                return {(0, 0): Q(1)}
            if set(b) != {(0, 0)} or b[0, 0].denominator != 1 or b[0, 0] < 0:
                raise NotPoly("power")
            r = {(0, 0): Q(1)}
            for _ in range(int(b[0, 0])):
                r = _mul(r, a)
            return r
    raise NotPoly(type(node).__name__)


@lru_cache(None)
def text_poly(s):
    try:
        return poly(ast.parse(s.strip(), mode="eval"))
    except SyntaxError:
        raise NotPoly("syntax")


def number(s):
    p = text_poly(s)
    if set(p) - {(0, 0)}:
        raise NotPoly("not a number")
    return p.get((0, 0), Q(0))


# ---------------------------------------------------------------- comparison with the oracle

RTOL = Q(1, 10 ** 10)
ATOL = Q(1, 10 ** 12)


ZTOL = Q(1, 10 ** 8)        # round-off allowed where the exact integral vanishes


def close(x, y, scale=Q(1)):
    return abs(x - y) <= RTOL * abs(y) + (ATOL * scale if y else ZTOL * scale)


def poly_close(p, q):
    return all(close(p.get(m, Q(0)), q.get(m, Q(0))) for m in set(p) | set(q))


def f1(i):
    return {(e, 0): c for e, c in enumerate(f_poly(i)) if c}


def f2(i, k):
    return {(p, q): x * y for p, x in enumerate(f_poly(i)) if x for q, y in enumerate(f_poly(k)) if y}


def classify(d):
    """('int', d1, d2) | ('shape2', swapped) | None, by majority of a sample of the entries"""
    keys = sorted(d)
    sample = [k for k in keys if 0 <= k[0] < 12 and 0 <= k[1] < 12 and (min(k) < 4 or k[0] == k[1])]
    if not sample:
        return None
    votes = {}
    n = 0
    for i, k in sample:
        try:
            p = text_poly(d[i, k])
        except NotPoly:
            continue
        n += 1
        if not (set(p) - {(0, 0)}):
            v = p.get((0, 0), Q(0))
            for d1 in range(3):
                for d2 in range(3):
                    if close(v, integral(i, d1, k, d2)):
                        votes[("int", d1, d2)] = votes.get(("int", d1, d2), 0) + 1
        if i < 8 and k < 8 or len(votes) == 0:
            if poly_close(p, f2(i, k)):
                votes[("shape2", False)] = votes.get(("shape2", False), 0) + 1
            if poly_close(p, f2(k, i)):
                votes[("shape2", True)] = votes.get(("shape2", True), 0) + 1
    if not votes or n == 0:
        return None
    best = max(votes, key=lambda k: (votes[k], k))
    second = max([v for k, v in votes.items() if k != best] or [0])
    if best[0] == "int" and votes[best] >= 0.7 * n and votes[best] > second:
        return best
    if best[0] == "shape2":
        return best if votes[best] > second else None
    return None


def check_int_table(d, d1, d2):
    """entries that differ from the exact integral: [(key, text, exact)]"""
    bad = []
    for (i, k), s in sorted(d.items()):
        try:
            v = number(s)
        except NotPoly:
            bad.append(((i, k), s, integral(i, d1, k, d2)))
            continue
        if not close(v, integral(i, d1, k, d2)):
            bad.append(((i, k), s, integral(i, d1, k, d2)))
    return bad


SHAPE_BY_TEXT = {}


def shape_index(s):
    """index of the one-dimensional shape function written as s (exact), or None"""
    if s in SHAPE_BY_TEXT:
        return SHAPE_BY_TEXT[s]
    r = None
    if "xi" in s and "eta" not in s.replace("beta", ""):
        try:
            p = text_poly(s)
            deg = max((m[0] for m in p), default=0)
            for i in ((0, 1, 2, 3) if deg == 3 else (deg,)):
                if i < NF and poly_close(p, f1(i)):
                    r = i
        except NotPoly:
            pass
    SHAPE_BY_TEXT[s] = r
    return r
