"""Guards: boolean functions over program conditions, as reduced ordered BDDs.

A literal is either the sign of a numeric form or an uninterpreted predicate
(membership of a label in an input, type tests on an input, failure of a library
call, ...).  The guards only order and merge control-flow facts; nothing is
enumerated and no solver is involved.
"""
import math
import time

from . import forms as F

TRUE = True
FALSE = False


class Limit(Exception):
    """the analysis gives up on this construct"""


_deadline = [None]


def budget(seconds):
    """bound the work on one analysis step; returns the previous deadline"""
    old = _deadline[0]
    _deadline[0] = seconds if seconds is None else time.monotonic() + seconds
    return old


def tick():
    if _deadline[0] is not None and time.monotonic() > _deadline[0]:
        _deadline[0] = None
        raise Limit("the guarded values of this step grow beyond the time allotted")


class Node:
    __slots__ = ("var", "hi", "lo", "id")


_nodes = {}
_count = [2]
_vars = []        # index -> description
_var_ids = {}     # key -> index


def _id(b):
    return 1 if b is True else 0 if b is False else b.id


def _mk(var, hi, lo):
    if hi is lo:
        return hi
    key = (var, _id(hi), _id(lo))
    n = _nodes.get(key)
    if n is None:
        n = Node()
        n.var, n.hi, n.lo = var, hi, lo
        n.id = _count[0]
        _count[0] += 1
        _nodes[key] = n
        if not n.id & 1023:
            tick()
    return n


_ite_memo = {}


def ite(c, t, e):
    if c is True:
        return t
    if c is False:
        return e
    if t is e:
        return t
    if t is True and e is False:
        return c
    key = (_id(c), _id(t), _id(e))
    r = _ite_memo.get(key)
    if r is not None or key in _ite_memo:
        return r
    v = min(x.var for x in (c, t, e) if isinstance(x, Node))

    def br(x, side):
        if isinstance(x, Node) and x.var == v:
            return x.hi if side else x.lo
        return x
    r = _mk(v, ite(br(c, 1), br(t, 1), br(e, 1)), ite(br(c, 0), br(t, 0), br(e, 0)))
    _ite_memo[key] = r
    return r


def AND(*xs):
    r = True
    for x in xs:
        r = ite(r, x, False)
        if r is False:
            return r
    return r


def OR(*xs):
    r = False
    for x in xs:
        r = ite(r, True, x)
        if r is True:
            return r
    return r


def NOT(x):
    return ite(x, False, True)


def implies(a, b):
    return AND(a, NOT(b)) is False


def var(key, descr=None):
    i = _var_ids.get(key)
    if i is None:
        i = _var_ids[key] = len(_vars)
        _vars.append((key, descr))
    return _mk(i, True, False)


def pred(*key):
    """an uninterpreted predicate"""
    return var(("pred",) + key)


def restrict(b, c):
    """b simplified under the care set c (generalised cofactor)"""
    if c is False or b is True or b is False or c is True:
        return b
    memo = {}

    def go(f, g):
        if f is True or f is False or g is True:
            return f
        k = (_id(f), _id(g))
        if k in memo:
            return memo[k]
        if f is g:
            return True
        v = min(f.var, g.var)
        gh, gl = (g.hi, g.lo) if g.var == v else (g, g)
        fh, fl = (f.hi, f.lo) if f.var == v else (f, f)
        if gh is False:
            r = go(fl, gl)
        elif gl is False:
            r = go(fh, gh)
        else:
            r = _mk(v, go(fh, gh), go(fl, gl))
        memo[k] = r
        return r
    return go(b, c)


# ------------------------------------------------------------ signs of forms

POSITIVE = set()      # atoms known to be > 0
NONNEG = set()        # atoms known to be >= 0
_signs = {}           # scale-invariant fingerprint -> list of (form, var index base)


def declare_positive(*forms):
    for f in forms:
        for m in f.t:
            for a, _ in m:
                POSITIVE.add(a)


def declare_nonneg(*forms):
    for f in forms:
        for m in f.t:
            for a, _ in m:
                NONNEG.add(a)


def _atom_sign(a):
    """'+', '0+' or None"""
    if a in POSITIVE:
        return "+"
    if a in NONNEG:
        return "0+"
    if a.kind == "sym" and a.args[0] == "pi":
        return "+"
    if a.kind == "at":
        base = a.args[0]
        if base in POSITIVE_SEQ:
            return "+"
        if base in NONNEG_SEQ:
            return "0+"
    if a.kind == "pre":
        s = known_sign(a.args[0])
        if s in ("+", "0+"):
            return "0+"
    if a.kind == "inv":
        s = known_sign(a.args[0])
        return "+" if s == "+" else None
    if a.kind in ("bv", "idx"):
        return "0+"
    if a.kind == "sqrt":
        return "0+"
    return None


POSITIVE_SEQ = set()
NONNEG_SEQ = set()


def _ordered(f):
    """difference of two numbers the library returns in ascending order"""
    (m1, c1), (m2, c2) = f.t.items()
    if c1 + c2 or len(m1) != 1 or len(m2) != 1:
        return None
    (a, e), (b, k) = next(iter(m1)), next(iter(m2))
    if e != 1 or k != 1 or a.kind != "eigval" or b.kind != "eigval" or a.args[0] is not b.args[0] and a.args[0] != b.args[0]:
        return None
    i, j = a.args[-1], b.args[-1]
    if not isinstance(i, int) or not isinstance(j, int):
        return None
    return "0+" if (c1 > 0) == (i > j) else "0-"


def known_sign(f):
    """'+', '-', '0', '0+', '0-' or None from syntax alone"""
    if not f.t:
        return "0"
    if len(f.t) > 1 and all(a is F._PI_ATOM for m in f.t for a, _ in m):
        v = sum(float(c) * math.pi ** sum(e for _, e in m) for m, c in f.t.items())
        if abs(v) > 1e-9 * max(abs(float(c)) * math.pi ** sum(e for _, e in m) for m, c in f.t.items()):
            return "+" if v > 0 else "-"
    if len(f.t) == 2:
        s = _ordered(f)
        if s:
            return s
    pos = neg = False
    strict_pos = strict_neg = False
    for m, c in f.t.items():
        s = "+"
        for a, e in m:
            if e % 2 == 0:
                if _atom_sign(a) != "+":
                    s = "0+" if e > 0 or True else s
                continue
            t = _atom_sign(a)
            if t is None:
                return None
            if t == "0+":
                s = "0+"
        if c > 0:
            pos = True
            strict_pos |= s == "+"
        else:
            neg = True
            strict_neg |= s == "+"
    if pos and neg:
        return None
    if pos:
        return "+" if strict_pos else "0+"
    return "-" if strict_neg else "0-"


def _strip(f):
    """drop positive monomial content (sign preserving)"""
    low = None
    for m in f.t:
        d = dict(m)
        if low is None:
            low = {a: e for a, e in d.items()}
        else:
            for a in list(low):
                low[a] = min(low[a], d.get(a, 0))
            for a in d:
                if a not in low:
                    low[a] = min(0, d[a])
    content = []
    for a, e in (low or {}).items():
        if e and (_atom_sign(a) == "+" or e % 2 == 0 and False):
            content.append((a, -e))
    if content:
        content.sort(key=lambda p: p[0].id)
        f = F.mul(f, F.Form({tuple(content): F.Fraction(1)}))
    return f


def _sign_vars(f):
    """(lt, eq, flipped): the guard variables for the sign of f"""
    f = _strip(f)
    inv_form = f
    a, b = F.fp(inv_form, 0), F.fp(inv_form, 1)
    P = F.PRIME
    key = a * pow(b, P - 2, P) % P if b else a
    for g, i in _signs.setdefault(key, []):
        ga, gb = F.fp(g, 0), F.fp(g, 1)
        if not ga or not gb:
            continue
        r = a * pow(ga, P - 2, P) % P
        r2 = b * pow(gb, P - 2, P) % P
        if r != r2:
            continue
        q = F.rational(r)
        if q is None:
            continue
        return g, i, q < 0
    i = len(_vars)
    _vars.append((("lt", f), None))
    _vars.append((("eq", f), None))
    _signs[key].append((f, i))
    return f, i, False


def fraction(f):
    """(kind, sign, x) when f is sign * (x - x rounded): the comparison asks whether x is an integer"""
    for m, c in f.t.items():
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            continue
        a = m[0][0]
        if a.kind not in ("int", "round0", "floordiv"):
            continue
        if a.kind == "floordiv" and a.args[1].const() != 1:
            continue
        x = a.args[0]
        rest = f - F.Form({((a, 1),): c})
        if rest == x * -c or F.same(rest, x * -c):
            return a.kind, -c, x
    return None


def integer(x):
    return pred("integer", ("f", F.fp(x, 0), F.fp(x, 1)))


def _fraction_lt(fr):
    kind, sign, x = fr
    I = integer(x)
    if kind == "floordiv":
        return False if sign > 0 else NOT(I)
    p = pred("fractional part below zero", kind, F.fp(x, 0), F.fp(x, 1))
    return AND(NOT(I), p if sign > 0 else NOT(p))


def lt0(f):
    c = f.const()
    if c is not None:
        return c < 0
    fr = fraction(f)
    if fr:
        return _fraction_lt(fr)
    s = known_sign(f)
    if s in ("+", "0", "0+"):
        return False
    if s == "-":
        return True
    if F.fp(f, 0) == 0 and F.fp(f, 1) == 0:
        return False
    g, i, flip = _sign_vars(f)
    L = _mk(i, True, False)
    E = _mk(i + 1, True, False)
    if flip:
        r = AND(NOT(L), NOT(E))
    else:
        r = L
    if s == "0-":
        return NOT(eq0(f))
    return r


def eq0(f):
    c = f.const()
    if c is not None:
        return c == 0
    fr = fraction(f)
    if fr:
        return integer(fr[2])
    if F.fp(f, 0) == 0 and F.fp(f, 1) == 0:
        return True
    s = known_sign(f)
    if s in ("+", "-"):
        return False
    g, i, flip = _sign_vars(f)
    L = _mk(i, True, False)
    E = _mk(i + 1, True, False)
    r = AND(NOT(L), E)
    if s in ("0+", "0-"):
        return E
    return r


def le0(f):
    return OR(lt0(f), eq0(f))


def gt0(f):
    return NOT(le0(f))


def zero_forms(b):
    """forms g such that the guard b implies g == 0"""
    out = []
    if b is True or b is False:
        return out
    seen = set()

    def walk(n):
        if not isinstance(n, Node) or n.id in seen:
            return
        seen.add(n.id)
        k = _vars[n.var][0]
        if k[0] == "eq":
            E = _mk(n.var, True, False)
            L = _mk(n.var - 1, True, False)
            if implies(b, AND(NOT(L), E)) or (known_sign(k[1]) in ("0+", "0-") and implies(b, E)):
                out.append(k[1])
        walk(n.hi)
        walk(n.lo)
    walk(b)
    return out


def support(b):
    vs = set()
    seen = set()

    def walk(n):
        if not isinstance(n, Node) or n.id in seen:
            return
        seen.add(n.id)
        vs.add(n.var)
        walk(n.hi)
        walk(n.lo)
    walk(b)
    return [_vars[v][0] for v in sorted(vs)]


def show_var(v, val):
    k, _ = _vars[v]
    if k[0] == "lt":
        return f"({F.show(k[1], 4)} {'<' if val else '>='} 0)"
    if k[0] == "eq":
        return f"({F.show(k[1], 4)} {'==' if val else '!='} 0)"
    s = " ".join(str(x) if not isinstance(x, F.Form) else F.show(x, 3) for x in k[1:])
    return s if val else f"not[{s}]"


def show(b):
    """one satisfying conjunction"""
    if b is True:
        return "always"
    if b is False:
        return "never"
    out = []
    while isinstance(b, Node):
        if b.hi is not False:
            out.append(show_var(b.var, True))
            b = b.hi
        else:
            out.append(show_var(b.var, False))
            b = b.lo
    return " and ".join(out)


def decide(b, key):
    """cofactor of b with predicate `key` set; helper for specs: assume(b, key, value)"""
    raise NotImplementedError
