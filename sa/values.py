"""Abstract values and heap cells."""
import numpy as np
from . import forms as F
from . import guards as G
from .forms import Form

IT = [None]      # the running interpreter (for the path condition when lifting over guarded values)


def pc():
    return IT[0].st.pc if IT[0] is not None and IT[0].st is not None else True


class Unk:
    """a value the analysis knows nothing about; carries the reason"""
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return f"Unk({self.reason})"


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Cond:
    """a symbolic boolean"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return f"Cond[{G.show(self.b)}]"

    def __eq__(self, o):
        return isinstance(o, Cond) and self.b is o.b

    def __hash__(self):
        return hash(("cond", G._id(self.b)))


def mk_bool(b):
    if b is True or b is False:
        return b
    return Cond(b)


class Ref:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and self.a == o.a

    def __hash__(self):
        return hash(("ref", self.a))

    def __repr__(self):
        return f"@{self.a}"


class Phi:
    """guarded alternatives (guards are pairwise disjoint)"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "Phi{" + "; ".join(f"{G.show(g)} -> {v!r}" for g, v in self.alts) + "}"


MAX_ALTS = 160


def mk_phi(alts):
    """build a guarded value; flattens, prunes and merges equal alternatives"""
    flat = []
    p = pc()
    G.tick()
    for g, v in alts:
        if isinstance(v, Phi):
            for g2, v2 in v.alts:
                gg = G.AND(g, g2)
                if gg is not False and G.AND(gg, p) is not False:
                    flat.append((gg, v2))
        elif g is not False and G.AND(g, p) is not False:
            flat.append((g, v))
    out = []
    for g, v in flat:
        for i, (g2, v2) in enumerate(out):
            if identical(v, v2):
                out[i] = (G.OR(g, g2), v2)
                break
        else:
            out.append((g, v))
    if len(out) > 1:
        out = _absorb(out, p)
    if len(out) == 1:
        return out[0][1]
    if not out:
        return UNDEF
    if len(out) > MAX_ALTS:
        return Unk("too many guarded alternatives")
    return Phi(out)


def _absorb(out, p):
    """an alternative that holds only where some number is zero, and is there what another one gives, is part of that one"""
    if len(out) > 12 or not any(isinstance(v, Form) for _, v in out):
        return out
    from . import equal
    i = 0
    while i < len(out) and len(out) > 1:
        g, v = out[i]
        if isinstance(v, Form) and g is not True:
            gp = G.AND(g, p)
            if equal.solved(gp) != equal.NONE:
                for j, (g2, v2) in enumerate(out):
                    if j != i and isinstance(v2, Form) and equal.same_where(v, v2, gp):
                        out = [(G.OR(g, h) if k == j else h, w) for k, (h, w) in enumerate(out) if k != i]
                        i = -1
                        break
        i += 1
    return out


def narrow(v, p=None):
    """drop alternatives that are impossible here"""
    if not isinstance(v, Phi):
        return v
    if p is None:
        p = pc()
    out = [(g, x) for g, x in v.alts if G.AND(g, p) is not False]
    if len(out) == 1:
        return out[0][1]
    if len(out) == len(v.alts):
        return v
    return Phi(out) if out else UNDEF


def identical(a, b):
    """same value for certain (used to merge alternatives)"""
    if a is b:
        return True
    if isinstance(a, Form) and isinstance(b, Form):
        return a == b or F.same(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (str, bool, bytes, int, float)):
        return a == b
    if isinstance(a, Ref):
        return a.a == b.a
    if isinstance(a, tuple):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, Cond):
        return a.b is b.b
    if isinstance(a, StrV):
        return len(a.parts) == len(b.parts) and all(
            (p == q) if isinstance(p, str) or isinstance(q, str) else (p[1] == q[1] and identical(p[0], q[0]))
            for p, q in zip(a.parts, b.parts))
    if isinstance(a, Opaque):
        return a.tag == b.tag and len(a.args) == len(b.args) and all(identical(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, Phi):
        return len(a.alts) == len(b.alts) and all(g is h and identical(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    if isinstance(a, (Bound,)):
        return a.fn is b.fn and identical(a.self, b.self)
    if isinstance(a, Ext):
        return a.path == b.path
    if isinstance(a, FnV):
        return a.node is b.node and a.frame == b.frame and a.defaults_id == b.defaults_id
    if isinstance(a, ClassV):
        return a is b
    if isinstance(a, SliceV):
        return identical(a.lo, b.lo) and identical(a.hi, b.hi) and identical(a.step, b.step)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and all(identical(x, y) for x, y in zip(a.flat, b.flat))
    return False


class StrV:
    """a string with holes: parts are str or (value, format-spec)"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else "{" + f"{p[0]!r}" + (":" + p[1] if p[1] else "") + "}" for p in self.parts)


def mk_str(parts):
    out = []
    for p in parts:
        if isinstance(p, StrV):
            sub = p.parts
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return StrV(out)


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Ext:
    """a name of a library outside the repository"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<{self.path}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Builtin:
    __slots__ = ("name", "py")

    def __init__(self, name, py=None):
        self.name, self.py = name, py

    def __repr__(self):
        return f"<builtin {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Opaque:
    """an uninterpreted library value, identified by how it was made"""
    __slots__ = ("tag", "args")

    def __init__(self, tag, *args):
        self.tag, self.args = tag, args

    def __repr__(self):
        return f"{self.tag}{self.args if self.args else ''}"


class FnV:
    _n = 0

    def __init__(self, node, module, frame, defaults, kwdefaults, qualname, cls=None):
        self.node, self.module, self.frame = node, module, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qualname, self.cls = qualname, cls
        self.defaults_id = tuple(d.a if isinstance(d, Ref) else None for d in defaults)
        self.name = getattr(node, "name", "<lambda>")

    def __repr__(self):
        return f"<fn {self.qualname}>"


class Bound:
    __slots__ = ("self", "fn")

    def __init__(self, self_, fn):
        self.self, self.fn = self_, fn

    def __repr__(self):
        return f"<bound {self.fn!r} of {self.self!r}>"


class Native:
    """a library-model function of the analyser itself"""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<native {self.name}>"


class Method:
    """bound method of a modelled value (list.append, ndarray.reshape, ...)"""
    __slots__ = ("self", "name")

    def __init__(self, self_, name):
        self.self, self.name = self_, name

    def __repr__(self):
        return f"<method {self.name} of {self.self!r}>"


class ClassV:
    def __init__(self, name, bases, ns, module, node, qualname):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.qualname = qualname

    def __repr__(self):
        return f"<class {self.qualname}>"

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                out.remove(c)
            out.append(c)
            if isinstance(c, ClassV):
                todo.extend(c.bases)
        return out

    def is_sub(self, other):
        return any(c is other or c == other for c in self.mro())


class ModV:
    def __init__(self, name, frame, path):
        self.name, self.frame, self.path = name, frame, path

    def __repr__(self):
        return f"<module {self.name}>"


class PropV:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class CachedPropV:
    def __init__(self, fn):
        self.fn = fn


class StaticV:
    def __init__(self, fn):
        self.fn = fn


class ClassMV:
    def __init__(self, fn):
        self.fn = fn


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class ExcV:
    """an exception instance"""
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return f"{getattr(self.cls, 'name', getattr(self.cls, 'path', self.cls))}{self.args!r}"


# ---------------------------------------------------------------- heap cells (immutable contents)

class ListC:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Gitem:
    """list item that is there only under a guard"""
    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g, self.v = g, v


class DictC:
    __slots__ = ("d", "kind")

    def __init__(self, d, kind="dict"):
        self.d, self.kind = d, kind


class InstDict:
    """the live attribute dictionary of an instance"""
    __slots__ = ("owner",)

    def __init__(self, owner):
        self.owner = owner


class SetC:
    __slots__ = ("d", "frozen")

    def __init__(self, d, frozen=False):
        self.d, self.frozen = d, frozen       # dict used as an ordered set


class TableC:
    """a literal table of expressions keyed by index pairs, summarised"""
    __slots__ = ("kind", "keys", "d", "src")

    def __init__(self, kind, keys, d):
        self.kind, self.keys, self.d = kind, keys, d


class ObjC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class ArrC:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


class ViewC:
    __slots__ = ("base", "idx")

    def __init__(self, base, idx):
        self.base, self.idx = base, idx


class SeriesC:
    __slots__ = ("a", "name", "index")

    def __init__(self, a, name=None, index=None):
        self.a, self.name, self.index = a, name, index         # index: labels of the rows, None when counted from zero


class FrameDFC:
    __slots__ = ("cols", "index")

    def __init__(self, cols, index=None):
        self.cols, self.index = cols, index


class IterC:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class CounterC:
    __slots__ = ("cur", "step")

    def __init__(self, cur, step):
        self.cur, self.step = cur, step


# ---------------------------------------------------------------- lifting over guarded scalars

def lift(fn, *args):
    """apply a pure function alternative by alternative"""
    for a in args:
        if isinstance(a, Unk):
            return a
    if not any(isinstance(a, Phi) for a in args):
        return fn(*args)
    p = pc()
    combos = [(p, ())]
    for a in args:
        new = []
        if isinstance(a, Phi):
            for g, t in combos:
                for h, v in a.alts:
                    gh = G.AND(g, h)
                    if gh is not False:
                        new.append((gh, t + (v,)))
        else:
            new = [(g, t + (a,)) for g, t in combos]
        combos = new
        if len(combos) > 4000:
            return Unk("too many guarded alternatives")
    return mk_phi([(g, fn(*t) if not any(isinstance(x, Unk) for x in t) else next(x for x in t if isinstance(x, Unk)))
                   for g, t in combos])


def _num(x):
    if isinstance(x, Form):
        return x
    if isinstance(x, bool):
        return F.ONE if x else F.ZERO
    if isinstance(x, Cond):
        return Phi(((x.b, F.ONE), (G.NOT(x.b), F.ZERO)))
    if isinstance(x, (int, float, F.Fraction, np.integer, np.floating)):
        return F.form(x.item() if isinstance(x, (np.integer, np.floating)) else x)
    return x


def _opaque_num(x):
    if isinstance(x, Opaque):
        return F.atom_form(F.Atom("opaque", OpaqueKey(x)))
    return x


class OpaqueKey:
    """hashable wrapper of an opaque value for use inside atoms"""
    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        self.k = canon(v)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, OpaqueKey) and self.k == o.k

    def fingerprint(self, k):
        return canon(self.v, k)

    def form_atoms(self):
        s = set()

        def walk(v):
            if isinstance(v, Form):
                s.update(v.atoms())
            elif isinstance(v, Opaque):
                for a in v.args:
                    walk(a)
            elif isinstance(v, (tuple, list)):
                for a in v:
                    walk(a)
            elif isinstance(v, np.ndarray):
                for a in v.flat:
                    walk(a)
            elif isinstance(v, Phi):
                for _, a in v.alts:
                    walk(a)
        walk(self.v)
        return s

    def form_subst(self, mp):
        return OpaqueKey(subst_value(self.v, mp))

    def __repr__(self):
        return repr(self.v)


def subst_value(v, mp):
    if isinstance(v, Form):
        return F.subst(v, mp)
    if isinstance(v, tuple):
        return tuple(subst_value(x, mp) for x in v)
    if isinstance(v, Opaque):
        return Opaque(v.tag, *[subst_value(x, mp) for x in v.args])
    if isinstance(v, np.ndarray):
        r = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            r[i] = subst_value(v[i], mp)
        return r
    if isinstance(v, StrV):
        return StrV([p if isinstance(p, str) else (subst_value(p[0], mp), p[1]) for p in v.parts])
    if isinstance(v, Phi):
        return Phi([(g, subst_value(x, mp)) for g, x in v.alts])
    return v


def canon(v, k=None):
    """hashable canonical key of a value (k: fingerprint point, None: both)"""
    if isinstance(v, Form):
        return ("f", F.fp(v, 0), F.fp(v, 1)) if k is None else ("f", F.fp(v, k))
    if isinstance(v, (str, bool)) or v is None:
        return v
    if isinstance(v, (int, float, F.Fraction)):
        return canon(F.form(v), k)
    if isinstance(v, (tuple, list)):
        return tuple(canon(x, k) for x in v)
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, tuple(canon(x, k) for x in v.flat))
    if isinstance(v, Opaque):
        return ("op", v.tag, tuple(canon(x, k) for x in v.args))
    if isinstance(v, Phi):
        return ("phi", tuple(sorted(((G._id(g), canon(x, k)) for g, x in v.alts), key=repr)))
    if isinstance(v, Cond):
        return ("cond", G._id(v.b))
    if isinstance(v, StrV):
        return ("str", tuple(p if isinstance(p, str) else (canon(p[0], k), p[1]) for p in v.parts))
    if isinstance(v, Ref):
        return ("ref", v.a)
    if isinstance(v, Ext):
        return ("ext", v.path)
    return ("id", repr(v))


class DivZeroOp(Exception):
    pass


def arith(op, x, y):
    x, y = _num(x), _num(y)
    if isinstance(x, Phi) or isinstance(y, Phi):
        return lift(lambda p, q: arith(op, p, q), x, y)
    if isinstance(x, Unk):
        return x
    if isinstance(y, Unk):
        return y
    x, y = _opaque_num(x), _opaque_num(y)
    if not (isinstance(x, Form) and isinstance(y, Form)):
        return Unk(f"{op} of {x!r} and {y!r}")
    try:
        if op == "+":
            return inf_norm(x + y)
        if op == "-":
            return inf_norm(x - y)
        if op == "*":
            return inf_norm(F.mul(x, y))
        if op == "/":
            if not y.t:
                return div0(x)
            if (y == INF or y == -INF) and not has_inf(x):
                return F.ZERO
            if len(y.t) > 1 and F.fp(y, 0) == 0 and F.fp(y, 1) == 0:
                return div0(x)
            return x / y
        if op == "**":
            c = y.const()
            if c is None:
                xc = x.const()
                if xc == -1:
                    return neg1pow(y)
                return F.atom_form(F.Atom("pow", x, y))
            if not x.t:
                if c < 0:
                    return div0(F.ONE)
                return F.ONE if c == 0 else F.ZERO
            if c.denominator != 1 or abs(c) <= 40 or len(x.t) <= 1 and abs(c) <= 400:
                return F.power(x, c)
            xc = x.const()
            if xc is not None and c.denominator == 1:
                return F.const(xc ** int(c))
            return F.atom_form(F.Atom("pow", x, y))
        if op == "//":
            return floordiv(x, y)
        if op == "%":
            q = floordiv(x, y)
            return x - y * q
    except F.DivZero:
        return div0(x)
    except F.Unsupported as e:
        return Unk(str(e))
    return Unk(f"operator {op}")


def neg1pow(y):
    # (-1)**(2k+c) = (-1)**c
    t = {}
    sign = 1
    for m, c in y.t.items():
        if not m and c.denominator == 1:
            if int(c) % 2:
                sign = -sign
        elif c.denominator == 1 and int(c) % 2 == 0 and all(e > 0 for _, e in m):
            pass
        elif c.denominator == 1:
            t[m] = F.Fraction(int(c) % 2)
        else:
            t[m] = c
    if not t:
        return F.const(sign)
    return F.const(sign) * F.atom_form(F.Atom("neg1pow", F.Form(t)))


def floordiv(x, y):
    xc, yc = x.const(), y.const()
    if yc == 0:
        return div0(x)
    if xc is not None and yc is not None:
        return F.const(xc // yc)
    if yc == 1 and is_int(x):
        return x
    # x = q*y + r with constant integer r of small size
    q = F.ZERO
    r = F.ZERO
    if yc is not None and yc > 0 and is_int(x):
        for m, c in x.t.items():
            if (c / yc).denominator == 1:
                q = q + F.Form({m: c / yc})
            else:
                r = r + F.Form({m: c})
        rc = r.const()
        if rc is not None:
            return q + F.const(rc // yc)
        return q + F.atom_form(F.Atom("floordiv", r, y))
    # exact multiple of a symbolic divisor
    if len(y.t) == 1:
        for m, c in x.t.items():
            t = F.Form({m: c}) / y
            if all(e > 0 for mm in t.t for _, e in mm) and is_int(t):
                q = q + t
            else:
                r = r + F.Form({m: c})
        if not r.t:
            return q
        if DIGITS and in_range(r, y):
            return q
        return q + F.atom_form(F.Atom("floordiv", r, y))
    return F.atom_form(F.Atom("floordiv", x, y))


DIGITS = {}        # atom -> exclusive upper bound form (0 <= atom < bound)


def in_range(r, y):
    """0 <= r < y known: r is a digit of radix y (or a mixed-radix number below y)"""
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            b = DIGITS.get(m[0][0])
            return b is not None and b == y
    # mixed radix: r = d1*w + r2 with d1 < y/w and r2 < w
    for m, c in r.t.items():
        if c != 1:
            continue
        for a, e in m:
            if e == 1 and a in DIGITS:
                w = F.Form({tuple(p for p in m if p[0] is not a): F.Fraction(1)})
                if F.mul(DIGITS[a], w) == y:
                    rest = r - F.Form({m: c})
                    if not rest.t or in_range(rest, w):
                        return True
    return False


INT_ATOMS = set()


def is_int(f):
    for m, c in f.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0:
                return False
            if a in INT_ATOMS or a.kind in ("bv", "idx", "floordiv", "neg1pow", "int", "len", "round0"):
                continue
            return False
    return True


INF = F.sym("inf")
INF_ATOM = next(iter(INF.atoms()))
G.POSITIVE.add(INF_ATOM)


def div0(x):
    """x / 0 in array arithmetic (inf or nan); the zero is taken as +0"""
    s = G.known_sign(x)
    if s == "+":
        return INF
    if s == "-":
        return -INF
    return F.atom_form(F.Atom("div0", x))


def has_inf(f):
    for m in f.t:
        for p in m:
            if p[0] is INF_ATOM:
                return True
    return False


def inf_norm(f):
    """absorb finite terms into an infinite one whose sign is known"""
    if not has_inf(f):
        return f
    rest = {}
    for m, c in f.t.items():
        if any(a is INF_ATOM for a, _ in m):
            rest[m] = c
    r = F.Form(rest)
    s = G.known_sign(r)
    return INF if s == "+" else -INF if s == "-" else r


# operator overloading so that numpy can move and combine elements
def _mk_op(op, swap=False):
    def f(self, other):
        if isinstance(other, np.ndarray):
            return NotImplemented
        return arith(op, other, self) if swap else arith(op, self, other)
    return f


for cls in (Phi, Unk, Cond, Opaque):
    for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**"), ("floordiv", "//"), ("mod", "%")):
        setattr(cls, f"__{nm}__", _mk_op(op))
        setattr(cls, f"__r{nm}__", _mk_op(op, True))
    cls.__neg__ = lambda self: arith("*", F.const(-1), self)
    cls.__pos__ = lambda self: self


def compare(op, x, y):
    """numeric comparison -> BDD (or Unk)"""
    x, y = _opaque_num(_num(x)), _opaque_num(_num(y))
    if isinstance(x, Unk) or isinstance(y, Unk):
        return x if isinstance(x, Unk) else y
    d = inf_norm(x - y)
    if op == "<":
        return G.lt0(d)
    if op == "<=":
        return G.le0(d)
    if op == ">":
        return G.gt0(d)
    if op == ">=":
        return G.NOT(G.lt0(d))
    if op == "==":
        return G.eq0(d)
    if op == "!=":
        return G.NOT(G.eq0(d))
    raise AssertionError(op)


def clift(fn, *args):
    """lift a function returning a BDD over guarded scalars; returns BDD or Unk"""
    r = lift(lambda *a: _wrap(fn(*a)), *args)
    return to_bdd(r)


def _wrap(b):
    return b if isinstance(b, Unk) else mk_bool(b)


def to_bdd(v):
    if v is True or v is False or isinstance(v, Unk):
        return v
    if isinstance(v, Cond):
        return v.b
    if isinstance(v, Phi):
        r = False
        for g, x in v.alts:
            b = to_bdd(x)
            if isinstance(b, Unk):
                return b
            r = G.OR(r, G.AND(g, b))
        return r
    if isinstance(v, G.Node):
        return v
    return Unk(f"condition {v!r}")
