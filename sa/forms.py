"""Algebraic normal forms: the numeric value domain of the analysis.

A Form is a Laurent polynomial with rational coefficients over interned atoms.
Atoms are named inputs, elements of abstract sequences, trigonometric functions
of a canonical angle, prefix sums over an abstract sequence, reciprocals of
non-monomial forms, entries of opaque matrices, and so on.  Two expressions of
the program that compute the same real number for every input get the same Form
(value numbering modulo the ring laws, sin^2+cos^2=1 and linearity of sums).
"""
from fractions import Fraction
from functools import lru_cache


class Unsupported(Exception):
    """A construct the domain has no transfer function for."""


class Atom:
    __slots__ = ("kind", "args", "id", "_dep")
    _table = {}
    _count = 0

    def __new__(cls, kind, *args):
        key = (kind, args)
        a = cls._table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args = kind, args
            a.id = Atom._count
            a._dep = None
            Atom._count += 1
            cls._table[key] = a
        return a

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, other):
        return self.id < other.id

    def atoms(self):
        """every atom that occurs inside this one, itself included"""
        if self._dep is None:
            s = {self}
            for x in self.args:
                _collect(x, s)
            self._dep = frozenset(s)
        return self._dep


def _collect(x, s):
    if isinstance(x, Form):
        s |= x.atoms()
    elif isinstance(x, Atom):
        s |= x.atoms()
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _collect(y, s)
    elif hasattr(x, "form_atoms"):
        s |= x.form_atoms()


class Form:
    __slots__ = ("t", "_h", "_atoms")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._atoms = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset((m, c) for m, c in self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Form) and (self is o or (hash(self) == hash(o) and self.t == o.t))

    def __repr__(self):
        return show(self)

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.atoms()
            self._atoms = frozenset(s)
        return self._atoms

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        if type(o) is not Form:
            o = coerce(o)
            if o is NotImplemented:
                return o
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
                continue
            v = _qadd(v, c)
            if v._numerator:
                t[m] = v
            else:
                del t[m]
        return Form(t)

    def __neg__(self):
        return Form({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if type(o) is not Form:
            o = coerce(o)
            if o is NotImplemented:
                return o
        return self + (-o)

    def __mul__(self, o):
        if type(o) is not Form:
            o = coerce(o)
            if o is NotImplemented:
                return o
        return mul(self, o)

    def __truediv__(self, o):
        if type(o) is not Form:
            o = coerce(o)
            if o is NotImplemented:
                return o
        return mul(self, inv(o))

    def __pow__(self, n):
        if type(n) is not Form:
            n = coerce(n)
            if n is NotImplemented:
                return n
        return power(self, n)

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else o - self

    def __rtruediv__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else o / self

    def __rpow__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else power(o, self)

    def __bool__(self):
        raise TypeError("truth of a Form")


def coerce(o):
    if isinstance(o, Form):
        return o
    if isinstance(o, bool):
        return ONE if o else ZERO
    if isinstance(o, (int, float, Fraction)):
        return form(o)
    return NotImplemented


ZERO = Form({})
_consts = {}


def const(x):
    x = Fraction(x)
    if not x:
        return ZERO
    f = _consts.get(x)
    if f is None:
        f = _consts[x] = Form({(): x})
    return f


ONE = const(1)


def form(x):
    if isinstance(x, Form):
        return x
    if isinstance(x, Atom):
        return atom_form(x)
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    return const(x)


def atom_form(a):
    return Form({((a, 1),): Fraction(1)})


def sym(name):
    return atom_form(Atom("sym", name))


_qadd, _qmul = Fraction._add, Fraction._mul     # without the dispatch of + and *
_mono_memo = {}


def _mono_mul(m1, m2):
    """(product, does it need reducing)"""
    r = _mono_memo.get((m1, m2))
    if r is None:
        d = dict(m1)
        for a, e in m2:
            v = d.get(a, 0) + e
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        m = tuple(sorted(d.items(), key=lambda p: p[0].id))
        if len(_mono_memo) > 3000000:
            _mono_memo.clear()
        r = _mono_memo[(m1, m2)] = (m, _needs_reduce(m))
    return r


MAX_TERMS = 60000


def mul(f, g):
    if not f.t or not g.t:
        return ZERO
    cf, cg = f.const(), g.const()
    if cf is not None:
        if cf == 1:
            return g
        return Form({m: cf * c for m, c in g.t.items()})
    if cg is not None:
        if cg == 1:
            return f
        return Form({m: cg * c for m, c in f.t.items()})
    if len(f.t) * len(g.t) > 4000000:
        raise Unsupported("expression too large")
    t = {}
    redo = []
    for m1, c1 in f.t.items():
        for m2, c2 in g.t.items():
            m, red = _mono_mul(m1, m2)
            c = _qmul(c1, c2)
            if red:
                redo.append((m, c))
                continue
            v = t.get(m)
            if v is None:
                t[m] = c
                continue
            v = _qadd(v, c)
            if v._numerator:
                t[m] = v
            else:
                del t[m]
    r = Form(t)
    for m, c in redo:
        r = r + _reduce_mono(m, c)
    if len(r.t) > MAX_TERMS:
        raise Unsupported("expression too large")
    return r


def _needs_reduce(m):
    for a, e in m:
        k = a.kind
        if k == "sin" and e >= 2:
            return True
        if k == "inv" and e < 0:
            return True
        if k == "bool" and e != 1:
            return True
        if k in ("sqrt", "abs") and e >= 2:
            return True
    return False


def _reduce_mono(m, c):
    rest = []
    extra = const(c)
    for a, e in m:
        if a.kind == "sin" and e >= 2:
            cos = atom_form(Atom("cos", *a.args))
            extra = extra * power(ONE - power(cos, 2), e // 2)
            if e % 2:
                rest.append((a, 1))
        elif a.kind == "inv" and e < 0:
            extra = extra * power(a.args[0], -e)
        elif a.kind == "sqrt" and e >= 2:
            extra = extra * power(a.args[0], e // 2)
            if e % 2:
                rest.append((a, 1))
        elif a.kind == "abs" and e >= 2:
            extra = extra * power(a.args[0], 2 * (e // 2))
            if e % 2:
                rest.append((a, 1))
        elif a.kind == "bool" and e != 1:
            rest.append((a, 1))
        else:
            rest.append((a, e))
    return mul(Form({tuple(rest): Fraction(1)}), extra)


def power(f, n):
    if isinstance(n, Form):
        c = n.const()
        if c is None:
            raise Unsupported("symbolic exponent")
        n = c
    n = Fraction(n)
    if n.denominator != 1:
        if n == Fraction(1, 2):
            return sqrt(f)
        if n == Fraction(-1, 2):
            return inv(sqrt(f))
        if n.denominator == 2:
            return power(sqrt(f), n.numerator)
        return atom_form(Atom("pow", f, n))
    n = int(n)
    if n < 0:
        return power(inv(f), -n)
    r = ONE
    b = f
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def sqrt(f):
    c = f.const()
    if c is not None and c >= 0:
        from math import isqrt
        p, q = isqrt(c.numerator), isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            return const(Fraction(p, q))
    return atom_form(Atom("sqrt", f))


class DivZero(Exception):
    pass


def inv(f):
    if not f.t:
        raise DivZero()
    if len(f.t) == 1:
        (m, c), = f.t.items()
        r = const(1 / c)
        mono = tuple((a, -e) for a, e in m)
        if _needs_reduce(mono):
            return mul(r, _reduce_mono(mono, 1))
        return mul(r, Form({mono: Fraction(1)}))
    p, factor = _primitive(f)
    return mul(inv(factor), atom_form(Atom("inv", p)))


def _primitive(f):
    """f = factor * p with p free of negative exponents and monomial content, leading coefficient 1"""
    low = {}
    monos = list(f.t)
    for m in monos:
        for a, e in m:
            low.setdefault(a, 0)
    for a in low:
        low[a] = min(dict(m).get(a, 0) for m in monos)
    content = tuple(sorted(((a, e) for a, e in low.items() if e), key=lambda p: p[0].id))
    icontent = tuple((a, -e) for a, e in content)
    lead = min(f.t, key=_mono_key)
    c = f.t[lead]
    p = mul(mul(f, Form({icontent: Fraction(1)})), const(1 / c))
    return p, mul(Form({content: Fraction(1)}), const(c))


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


# ---------------------------------------------------------------- equality

def is_zero(f):
    """zero test for the rational function f: clear reciprocals, then compare polynomials"""
    for _ in range(60):
        if not f.t:
            return True
        invs = {}
        for m in f.t:
            for a, e in m:
                if a.kind == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return False
        # innermost-last: clear the most nested one first
        a = max(invs, key=lambda x: (len(x.atoms()), x.id))
        e = invs[a]
        p = a.args[0]
        r = ZERO
        pows = {0: ONE}
        for i in range(1, e + 1):
            pows[i] = mul(pows[i - 1], p)
        groups = {}
        for m, c in f.t.items():
            d = dict(m)
            k = d.pop(a, 0)
            if k < 0:
                return False
            rest = tuple(sorted(d.items(), key=lambda q: q[0].id))
            groups.setdefault(k, {})[rest] = c
        for k, t in groups.items():
            r = r + mul(Form(t), pows[e - k])
        f = r
    return False


def eq(f, g):
    if f == g:
        return True
    return is_zero(f - g)


# ---------------------------------------------------------------- substitution

_rebuild = {}


def rebuilder(kind):
    def deco(fn):
        _rebuild[kind] = fn
        return fn
    return deco


def subst(f, mp, memo=None):
    """replace atoms by forms everywhere (also inside composite atoms)"""
    if not mp:
        return f
    keys = mp.keys()
    if not (f.atoms() & keys):
        return f
    if memo is None:
        memo = {}
    r = None
    t = {}
    acc = []
    for m, c in f.t.items():
        touched = False
        for a, e in m:
            if a.atoms() & keys:
                touched = True
                break
        if not touched:
            t[m] = c
            continue
        p = const(c)
        for a, e in m:
            p = mul(p, power(subst_atom(a, mp, memo), e))
        acc.append(p)
    r = Form(t)
    for p in acc:
        r = r + p
    return r


def subst_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    if not (a.atoms() & mp.keys()):
        return atom_form(a)
    if a in memo:
        return memo[a]
    args = tuple(subst_arg(x, mp, memo) for x in a.args)
    fn = _rebuild.get(a.kind)
    r = fn(*args) if fn else atom_form(Atom(a.kind, *args))
    memo[a] = r
    return r


def subst_arg(x, mp, memo=None):
    if memo is None:
        memo = {}
    if isinstance(x, Form):
        return subst(x, mp, memo)
    if isinstance(x, Atom):
        f = subst_atom(x, mp, memo)
        return f if f != atom_form(x) else x
    if isinstance(x, tuple):
        return tuple(subst_arg(y, mp, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(subst_arg(y, mp, memo) for y in x)
    if hasattr(x, "form_subst"):
        return x.form_subst(mp)
    return x


# ---------------------------------------------------------------- trigonometry

PI = sym("pi")
_PI_ATOM = next(iter(PI.atoms()))


def _split_angle(arg):
    """arg = n * unit with n an integer where possible; returns (n, unit form)"""
    if len(arg.t) == 1:
        (m, c), = arg.t.items()
        if any(a is _PI_ATOM for a, _ in m):
            q = c * 180
            if q.denominator == 1:
                return int(q), Form({m: Fraction(1, 180)})
            q = c * 180 * 4
            if q.denominator == 1:
                return int(q), Form({m: Fraction(1, 720)})
        if c.denominator == 1:
            return int(c), Form({m: Fraction(1)})
        return (1, arg) if c > 0 else (-1, -arg)
    lead = min(arg.t, key=_mono_key)
    if arg.t[lead] < 0:
        return -1, -arg
    return 1, arg


def cos(arg):
    if not arg.t:
        return ONE
    k = _pi_multiple(arg)
    if k is not None:
        return {0: ONE, 1: ZERO, 2: -ONE, 3: ZERO}[k % 4]
    if len(arg.t) > 1:
        return _angle_sum(arg)[0]
    q = _pi_const(arg)
    if q is not None:
        return _cos_pi(q)
    n, u = _split_angle(arg)
    return _cos_n(abs(n), u)


def _pi_const(arg):
    (m, c), = arg.t.items()
    return c if m == ((_PI_ATOM, 1),) else None


@lru_cache(None)
def _cos_pi(q):
    """cos(q pi) for rational q, folded into the first octant; exact at multiples of 15 degrees"""
    q = abs(q) % 2
    if q > 1:
        q = 2 - q
    if q > Fraction(1, 2):
        return -_cos_pi(1 - q)
    k = q * 12
    if k.denominator == 1:
        r2, r3 = sqrt(const(2)), sqrt(const(3))
        return {0: ONE, 1: (r2 * r3 + r2) * Fraction(1, 4), 2: r3 * Fraction(1, 2), 3: r2 * Fraction(1, 2),
                4: const(Fraction(1, 2)), 5: (r2 * r3 - r2) * Fraction(1, 4), 6: ZERO}[int(k)]
    if q > Fraction(1, 4):
        return atom_form(Atom("sin", PI * (Fraction(1, 2) - q)))
    return atom_form(Atom("cos", PI * q))


def _angle_sum(arg):
    terms = sorted(arg.t.items(), key=lambda p: _mono_key(p[0]))
    m, c = terms[0]
    a = Form({m: c})
    b = arg - a
    ca, sa, cb, sb = cos(a), sin(a), cos(b), sin(b)
    return ca * cb - sa * sb, sa * cb + ca * sb


def sin(arg):
    if not arg.t:
        return ZERO
    k = _pi_multiple(arg)
    if k is not None:
        return {0: ZERO, 1: ONE, 2: ZERO, 3: -ONE}[k % 4]
    if len(arg.t) > 1:
        return _angle_sum(arg)[1]
    q = _pi_const(arg)
    if q is not None:
        return _cos_pi(Fraction(1, 2) - q)
    n, u = _split_angle(arg)
    r = _sin_n(abs(n), u)
    return r if n > 0 else -r


def _pi_multiple(arg):
    """arg == k*pi/2 -> k"""
    if len(arg.t) == 1:
        (m, c), = arg.t.items()
        if m == ((_PI_ATOM, 1),) and (c * 2).denominator == 1:
            return int(c * 2)
    return None


def _cs(u):
    return atom_form(Atom("cos", u)), atom_form(Atom("sin", u))


def _cos_n(n, u):
    c, s = _cs(u)
    a, b = ONE, ZERO
    for _ in range(n):
        a, b = a * c - b * s, b * c + a * s
    return a


def _sin_n(n, u):
    c, s = _cs(u)
    a, b = ONE, ZERO
    for _ in range(n):
        a, b = a * c - b * s, b * c + a * s
    return b


@rebuilder("cos")
def _r_cos(u):
    return cos(u)


@rebuilder("sin")
def _r_sin(u):
    return sin(u)


@rebuilder("inv")
def _r_inv(f):
    return inv(f)


@rebuilder("sqrt")
def _r_sqrt(f):
    return sqrt(f)


# ---------------------------------------------------------------- sums over abstract sequences

def _bv(depth):
    return Atom("bv", depth)


def _depth(f):
    d = -1
    for a in f.atoms():
        if a.kind == "bv":
            d = max(d, a.args[0])
    return d


def prefix(body, var, idx):
    """sum of body[var := j] for j = 0 .. idx-1"""
    if not body.t or not idx.t:
        return ZERO
    if isinstance(var, Form):
        (m, _), = var.t.items()
        var = m[0][0]
    c = idx.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 64:
        r = ZERO
        for j in range(int(c)):
            r = r + subst(body, {var: const(j)})
        return r
    # split off integer offset of the bound
    off = idx.t.get((), Fraction(0))
    if off.denominator == 1 and off != 0 and abs(off) <= 64:
        base = idx - const(off)
        r = prefix(body, var, base)
        o = int(off)
        if o > 0:
            for j in range(o):
                r = r + subst(body, {var: base + j})
        else:
            for j in range(o, 0):
                r = r - subst(body, {var: base + j})
        return r
    r = ZERO
    dep = {}
    for m, cf in body.t.items():
        inn, out = [], []
        for a, e in m:
            (inn if var in a.atoms() else out).append((a, e))
        r_out = Form({tuple(out): cf})
        dep.setdefault(tuple(inn), []).append(r_out)
    for inn, outs in dep.items():
        o = ZERO
        for x in outs:
            o = o + x
        if not inn:
            r = r + o * idx
            continue
        b = Form({inn: Fraction(1)})
        if b == atom_form(var):
            r = r + o * idx * (idx - 1) * const(Fraction(1, 2))
            continue
        b = _reverse_if_needed(b, var, idx)
        bv = _bv(_depth(b) + 1)
        nb = subst(b, {var: atom_form(bv)})
        r = r + o * atom_form(Atom("pre", nb, atom_form(bv), idx))
    return r


def _reverse_if_needed(b, var, idx):
    """sum_j f(n-1-j) = sum_j f(j)"""
    vf = atom_form(var)
    found = []

    def walk(x):
        if isinstance(x, Form):
            if var in x.atoms():
                cc = x.t.get(((var, 1),))
                if cc is not None:
                    found.append(cc)
                for m in x.t:
                    for a, _ in m:
                        if a is not var and var in a.atoms():
                            for y in a.args:
                                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    for m in b.t:
        for a, _ in m:
            if a is not var:
                for y in a.args:
                    walk(y)
    if found and all(c < 0 for c in found):
        return subst(b, {var: idx - 1 - vf})
    return b


@rebuilder("pre")
def _r_pre(body, bv, idx):
    return prefix(body, bv, idx)


def at(name, *idx):
    """element of the abstract input sequence `name`"""
    return atom_form(Atom("at", name, *[form(i) for i in idx]))


# ---------------------------------------------------------------- fingerprints

PRIME = (1 << 61) - 1
SEED = [1]


def _h(*parts):
    import hashlib
    d = hashlib.blake2b(repr(parts).encode(), digest_size=16).digest()
    return int.from_bytes(d, "big") % PRIME


_fp_memo = {}
_fp_atom_memo = {}


def fp(f, k=0):
    """value of f at the k-th fixed pseudo-random point of GF(2^61-1): equal functions have equal
    fingerprints; different ones collide with negligible probability (Schwartz-Zippel)"""
    key = (f, k)
    r = _fp_memo.get(key)
    if r is not None:
        return r
    r = 0
    for m, c in f.t.items():
        v = c.numerator % PRIME
        if c.denominator != 1:
            v = v * pow(c.denominator % PRIME, PRIME - 2, PRIME) % PRIME
        for a, e in m:
            x = fp_atom(a, k)
            v = v * pow(x, e % (PRIME - 1), PRIME) % PRIME
        r = (r + v) % PRIME
    _fp_memo[key] = r
    return r


def _fp_arg(x, k):
    if isinstance(x, Form):
        return fp(x, k)
    if isinstance(x, Atom):
        return fp_atom(x, k)
    if isinstance(x, (tuple, list)):
        return tuple(_fp_arg(y, k) for y in x)
    if isinstance(x, frozenset):
        return tuple(sorted(map(repr, (_fp_arg(y, k) for y in x))))
    if hasattr(x, "fingerprint"):
        return x.fingerprint(k)
    return repr(x)


def fp_atom(a, k):
    key = (a, k)
    r = _fp_atom_memo.get(key)
    if r is not None:
        return r
    kind = a.kind
    if kind == "inv":
        r = pow(fp(a.args[0], k), PRIME - 2, PRIME)
    elif kind in ("cos", "sin"):
        t = _h("angle", SEED[0], k, fp(a.args[0], k))
        d = pow((1 + t * t) % PRIME, PRIME - 2, PRIME)
        r = (1 - t * t) * d % PRIME if kind == "cos" else 2 * t * d % PRIME
    elif kind in FP_SPECIAL:
        r = FP_SPECIAL[kind](a, k)
    else:
        r = _h(kind, SEED[0], k, tuple(_fp_arg(x, k) for x in a.args))
    _fp_atom_memo[key] = r
    return r


FP_SPECIAL = {}


def rational(r, bound=1 << 29):
    """the rational n/d with small n, d and n/d = r mod PRIME, if there is one"""
    s0, s1 = PRIME, r % PRIME
    t0, t1 = 0, 1
    while s1 > bound:
        q = s0 // s1
        s0, s1 = s1, s0 - q * s1
        t0, t1 = t1, t0 - q * t1
    if t1 == 0 or abs(t1) > bound:
        return None
    return Fraction(s1, t1) if t1 > 0 else Fraction(-s1, -t1)


def same(f, g):
    if f is g or f == g:
        return True
    return all(fp(f, k) == fp(g, k) for k in (0, 1))


# ---------------------------------------------------------------- printing

def show_atom(a):
    k, g = a.kind, a.args
    if k == "sym":
        return str(g[0])
    if k == "at":
        return f"{g[0]}[{','.join(show(i) for i in g[1:])}]"
    if k == "idx":
        return f"{g[0]}"
    if k == "bv":
        return f"#{g[0]}"
    if k == "pre":
        return f"SUM(#<{show(g[2])}: {show(g[0])})"
    return f"{k}({', '.join(_show_arg(x) for x in g)})"


def _show_arg(x):
    if isinstance(x, Form):
        return show(x)
    if isinstance(x, tuple):
        return "(" + ",".join(_show_arg(y) for y in x) + ")"
    s = repr(x)
    return s if len(s) < 60 else s[:57] + "..."


def show(f, limit=12):
    if not f.t:
        return "0"
    out = []
    items = sorted(f.t.items(), key=lambda p: _mono_key(p[0]))
    for m, c in items[:limit]:
        s = "*".join((show_atom(a) + (f"**{e}" if e != 1 else "")) for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = f"{c}*{s}"
        out.append(s)
    if len(items) > limit:
        out.append(f"... ({len(items)} terms)")
    return " + ".join(out).replace("+ -", "- ")


def degree(f, weights):
    """set of total weights of the monomials of f; weights: function atom -> number or None (unknown)"""
    ds = set()
    for m in f.t:
        d = 0
        for a, e in m:
            w = weights(a)
            if w is None:
                return None
            d += w * e
        ds.add(d)
    return ds
