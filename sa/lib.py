"""Models of Python builtins and of the numpy / pandas / scipy functions in use."""
import ast
import math
from fractions import Fraction
import numpy as np
from . import forms as F
from . import guards as G
from . import values as V
from . import models as M
from . import seqs as S
from . import strings as STR
from . import pandas_
from . import pycls
from .values import *   # noqa
from .forms import Form
from .models import (BUILTIN_FNS, EXT_FNS, METHOD_FNS, OPAQUE_CALLS, OPAQUE_METHODS, METHODS, get_arr, to_array, wrap_arr, emap, is_scalar,
                     has_unk, const_int, like, mk_b, _Event, Limit)


def bi(*names):
    def deco(f):
        for n in names:
            BUILTIN_FNS[n] = f
        return f
    return deco


def ext(*names):
    def deco(f):
        for n in names:
            EXT_FNS[n] = f
        return f
    return deco


def meth(types, *names):
    if not isinstance(types, (tuple, list)):
        types = (types,)

    def deco(f):
        for t in types:
            for n in names:
                METHOD_FNS[(t, n)] = f
        return f
    return deco


def arg(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


# ================================================================ scalars

def absv(x):
    def one(v):
        v = V._opaque_num(V._num(v))
        if not isinstance(v, Form):
            return v if isinstance(v, Unk) else Unk(f"abs of {v!r}")
        c = v.const()
        if c is not None:
            return F.const(abs(c))
        neg = G.lt0(v)
        if neg is False:
            return v
        if neg is True:
            return -v
        return mk_phi([(neg, -v), (G.NOT(neg), v)])
    return V.lift(one, V._num(x))


def pick2(x, y, op):
    """x if x op y else y"""
    def two(p, q):
        b = V.compare(op, p, q)
        if isinstance(b, Unk):
            return b
        return mk_phi([(b, p), (G.NOT(b), q)])
    return V.lift(two, V._num(x), V._num(y))


class SetKey:
    """the set of numbers an extreme is taken over, inside an atom"""
    __slots__ = ("items",)

    def __init__(self, items):
        by = {}
        for x in items:
            by.setdefault((F.fp(x, 0), F.fp(x, 1)), x)
        self.items = tuple(by[k] for k in sorted(by))

    def __hash__(self):
        return hash(self.items)

    def __eq__(self, o):
        return isinstance(o, SetKey) and self.items == o.items

    def form_atoms(self):
        s = set()
        for x in self.items:
            s |= x.atoms()
        return s

    def form_subst(self, mp):
        return SetKey([V.subst_value(x, mp) for x in self.items])

    def fingerprint(self, k):
        return tuple(sorted(F.fp(x, k) for x in self.items))


def extreme(items, sign):
    """sign = 1: maximum, -1: minimum, of many undetermined numbers, kept as one unknown (positive factors taken out)"""
    fs = [V._opaque_num(V._num(x)) for x in items]
    if len(fs) <= 6 or not all(isinstance(f, Form) for f in fs):
        return None
    fs = list(dict.fromkeys(f * F.const(sign) for f in fs))
    cs = [f.const() for f in fs]
    consts = [c for c in cs if c is not None]
    rest = [f for f, c in zip(fs, cs) if c is None]
    if len(rest) + bool(consts) <= 6:
        return None
    if consts:
        rest.append(F.const(max(consts)))
    num, den = 0, 1
    for f in rest:
        for c in f.t.values():
            num, den = math.gcd(num, c.numerator), den * c.denominator // math.gcd(den, c.denominator)
    k = F.const(Fraction(num or 1, den))
    for a in sorted({a for f in rest if f.t for m in f.t for a, _ in m}, key=lambda a: a.id):
        if G._atom_sign(a) != "+":
            continue
        e = min(dict(m).get(a, 0) for f in rest for m in f.t)
        if e:
            k = k * F.power(F.atom_form(a), e)
    return k * F.atom_form(F.Atom("max", SetKey([f * F.inv(k) for f in rest]))) * F.const(sign)


def maxv(items):
    x = extreme(items, 1)
    if x is not None:
        return x
    r = items[0]
    for x in items[1:]:
        r = pick2(x, r, ">")
    return r


def minv(items):
    x = extreme(items, -1)
    if x is not None:
        return x
    r = items[0]
    for x in items[1:]:
        r = pick2(x, r, "<")
    return r


def scalar_fn(f):
    def run(v):
        v = V._opaque_num(V._num(v))
        if isinstance(v, Unk):
            return v
        if not isinstance(v, Form):
            return Unk(f"numeric function of {v!r}")
        try:
            return f(v)
        except F.Unsupported as e:
            return Unk(str(e))
    return lambda x: V.lift(run, V._num(x))


DEG = F.PI * F.const(F.Fraction(1, 180))
s_cos = scalar_fn(F.cos)
s_sin = scalar_fn(F.sin)
s_tan = scalar_fn(lambda v: F.sin(v) / F.cos(v))
s_sqrt = scalar_fn(F.sqrt)
s_rad = scalar_fn(lambda v: v * DEG)
s_deg = scalar_fn(lambda v: v / DEG)
s_sq = scalar_fn(lambda v: v * v)


def known_integer(it, x, r):
    """r is x rounded in some way: x itself where it is known to be an integer"""
    if isinstance(x, Form) and r is not x and x.const() is None:
        p = G.pred("integer", V.canon(x))
        if G.implies(it.st.pc, p):
            V.INT_ATOMS.update(a for a in x.atoms() if len(x.t) == 1 and a.kind == "sym")
            return x
    return r


def to_int(it, v):
    v = narrow(v)

    def one(x):
        x = V._opaque_num(V._num(x))
        if not isinstance(x, Form):
            return x
        c = x.const()
        if c is not None:
            return F.const(int(c))
        if V.is_int(x):
            return x
        return F.atom_form(F.Atom("int", x))
    if isinstance(v, Phi) or isinstance(v, (Form, bool, Cond)):
        return V.lift(lambda x: known_integer(it, x, one(x)), V._num(v))
    return it.unk(f"int of {v!r}")


def is_integer(it, v):
    def one(x):
        x = V._opaque_num(V._num(x))
        if not isinstance(x, Form):
            return x
        c = x.const()
        if c is not None:
            return c.denominator == 1
        if V.is_int(x):
            return True
        return mk_bool(G.pred("integer", V.canon(x)))
    return V.lift(one, V._num(v))


@bi("abs")
def b_abs(it, args, kwargs):
    v = narrow(args[0])
    a = get_arr(it, v)
    if a is not None:
        return like(it, v, emap(absv, a))
    if is_scalar(v):
        return absv(v)
    if v is None or isinstance(v, (str, tuple)):
        it.raise_exc("TypeError", "bad operand type for abs()")
    return it.unk("abs")


def convert_input(it, o, what):
    """numeric conversion of an unconstrained input value"""
    bad = G.pred("not a number", o.args[0])
    it.raise_exc("ValueError" if what != "TypeError" else what, f"{o.args[0]} is not a number", guard=bad)
    return F.sym(o.args[0])


@bi("float", "numpy.float64")
def b_float(it, args, kwargs):
    if not args:
        return F.ZERO
    v = narrow(args[0])
    if isinstance(v, Phi) and not is_scalar(v):
        return it.fork_join([(g, (lambda x=x: b_float(it, [x], {}))) for g, x in v.alts])
    if isinstance(v, Unk):
        return v
    if isinstance(v, str):
        return M.parse_number(it, v, "float")
    if isinstance(v, Opaque) and v.tag == "input":
        return convert_input(it, v, "float")
    a = get_arr(it, v)
    if a is not None:
        if a.size == 1:
            return a.reshape(-1)[0]
        it.raise_exc("TypeError", "only length-1 arrays can be converted")
    if is_scalar(v):
        return V._num(v)
    if v is None or isinstance(v, (tuple, Ref)):
        it.raise_exc("TypeError", "float() argument must be a number")
    return it.unk(f"float of {v!r}")


@bi("int")
def b_int(it, args, kwargs):
    if not args:
        return F.ZERO
    v = narrow(args[0])
    if isinstance(v, Phi) and not is_scalar(v):
        return it.fork_join([(g, (lambda x=x: b_int(it, [x], {}))) for g, x in v.alts])
    if isinstance(v, Unk):
        return v
    if isinstance(v, str):
        return M.parse_number(it, v, "int")
    if isinstance(v, Opaque) and v.tag == "input":
        v = convert_input(it, v, "int")
    a = get_arr(it, v)
    if a is not None and a.size == 1:
        v = a.reshape(-1)[0]
    if is_scalar(v):
        return to_int(it, v)
    if v is None or isinstance(v, (tuple, Ref)):
        it.raise_exc("TypeError", "int() argument must be a number")
    return it.unk(f"int of {v!r}")


@bi("bool")
def b_bool(it, args, kwargs):
    if not args:
        return False
    b = it.truth(args[0])
    return b if isinstance(b, Unk) else mk_bool(b)


@bi("str")
def b_str(it, args, kwargs):
    return M.to_str(it, args[0]) if args else ""


@bi("repr")
def b_repr(it, args, kwargs):
    return M.to_repr(it, args[0])


@bi("format")
def b_format(it, args, kwargs):
    return M.to_format(it, args[0], args[1] if len(args) > 1 else "")


@bi("round")
def b_round(it, args, kwargs):
    v = narrow(args[0])
    nd = narrow(arg(args, kwargs, 1, "ndigits"))

    def one(x):
        x = V._opaque_num(V._num(x))
        if not isinstance(x, Form):
            return x
        c = x.const()
        n = const_int(nd) if nd is not None else 0
        if c is not None and n is not None:
            return F.const(round(c, n))
        if n == 0:
            return known_integer(it, x, x if V.is_int(x) else F.atom_form(F.Atom("round0", x)))
        return F.atom_form(F.Atom("round", x, n))
    a = get_arr(it, v)
    if a is not None:
        return like(it, v, emap(one, a))
    return V.lift(one, V._num(v))


EXT_FNS["numpy.round"] = EXT_FNS["numpy.around"] = lambda it, a, k: b_round(it, [a[0]], {"ndigits": arg(a, k, 1, "decimals")})


def rounding(name, fc, fs):
    def go(it, args, kwargs):
        v = narrow(args[0])

        def one(x):
            x = V._opaque_num(V._num(x))
            if not isinstance(x, Form):
                return x
            c = x.const()
            if c is not None:
                return F.const(fc(c))
            return known_integer(it, x, x if V.is_int(x) else fs(x))
        a = get_arr(it, v)
        if a is not None:
            return like(it, v, emap(one, a))
        if not is_scalar(v):
            if v is None or isinstance(v, (str, tuple, Ref)):
                it.raise_exc("TypeError", f"{name} of something that is no number")
            return it.unk(f"{name} of {v!r}")
        return V.lift(one, V._num(v))
    return go


for _n, _fc, _fs in (("floor", math.floor, lambda x: V.floordiv(x, F.ONE)), ("ceil", math.ceil, lambda x: -V.floordiv(-x, F.ONE)),
                     ("trunc", math.trunc, lambda x: F.atom_form(F.Atom("int", x)))):
    EXT_FNS["numpy." + _n] = EXT_FNS["math." + _n] = rounding(_n, _fc, _fs)
EXT_FNS["numpy.fix"] = EXT_FNS["numpy.trunc"]
EXT_FNS["numpy.rint"] = rounding("rint", round, lambda x: F.atom_form(F.Atom("round0", x)))


@bi("pow")
def b_pow(it, args, kwargs):
    return M.binop(it, "**", args[0], args[1])


@bi("divmod")
def b_divmod(it, args, kwargs):
    return (M.binop(it, "//", args[0], args[1]), M.binop(it, "%", args[0], args[1]))


# ================================================================ sequences

def seq_len(it, v):
    v = narrow(v)
    if isinstance(v, Phi):
        return it.fork_join([(g, (lambda x=x: seq_len(it, x))) for g, x in v.alts])
    if isinstance(v, Unk):
        return v
    if isinstance(v, (str, tuple)):
        return F.const(len(v))
    if isinstance(v, Ref):
        c = it.cell(v)
        if isinstance(c, (ListC, IterC)):
            return S.length(c.items)
        if isinstance(c, DictC):
            n = F.ZERO
            for x in c.d.values():
                g = M.present(x)
                n = V.arith("+", n, F.ONE if g is True else mk_phi([(g, F.ONE), (G.NOT(g), F.ZERO)]))
            return n
        if isinstance(c, SetC):
            n = F.ZERO
            for g in c.d.values():
                n = V.arith("+", n, F.ONE if g is True else mk_phi([(g, F.ONE), (G.NOT(g), F.ZERO)]))
            return n
        if isinstance(c, TableC):
            return F.const(len(c.d))
        if isinstance(c, FrameDFC):
            return F.const(len(next(iter(c.cols.values()))) if c.cols else 0)
        if isinstance(c, S.GArrC):
            return c.count
        a = get_arr(it, v)
        if a is not None:
            if a.ndim == 0:
                it.raise_exc("TypeError", "len() of unsized object")
            return F.const(a.shape[0])
        if isinstance(c, ObjC):
            m = it.class_lookup(c.cls, "__len__")
            if m is not None:
                return it.call(m, [v], {})
        if isinstance(c, Unk):
            return c
        it.raise_exc("TypeError", "object has no len()")
    if isinstance(v, Opaque) and v.tag == "input":
        it.raise_exc("TypeError", "object has no len()")
    if v is None or isinstance(v, (Form, bool, Cond)):
        it.raise_exc("TypeError", "object has no len()")
    return it.unk(f"len of {v!r}")


@bi("len")
def b_len(it, args, kwargs):
    return seq_len(it, args[0])


@bi("range")
def b_range(it, args, kwargs):
    a = [narrow(x) for x in args]
    if any(isinstance(x, Unk) for x in a):
        return next(x for x in a if isinstance(x, Unk))
    if any(isinstance(x, Phi) for x in a):
        i = next(i for i, x in enumerate(a) if isinstance(x, Phi))
        return it.fork_join([(g, (lambda x=x: b_range(it, a[:i] + [x] + a[i + 1:], {}))) for g, x in a[i].alts])
    c = [const_int(x) if is_scalar(x) else None for x in a]
    if all(x is not None for x in c):
        r = range(*c)
        if len(r) > 300000:
            return it.unk("very long range")
        return it.new_list([F.const(i) for i in r])
    for x in a:
        if not is_scalar(x):
            it.raise_exc("TypeError", "range() argument must be an integer")
    if it.loop_hook is not None:
        return it.loop_hook.sym_range(it, a)
    return it.unk("range with a symbolic bound")


EXT_FNS["numpy.arange"] = lambda it, a, k: np_arange(it, a, k)


def np_arange(it, args, kwargs):
    c = [V._num(narrow(x)) for x in args if is_scalar(narrow(x))]
    c = [x.const() if isinstance(x, Form) else None for x in c]
    if any(x is None for x in c):
        return it.unk("arange with symbolic bounds")
    lo, hi, st = (F.Fraction(0), c[0], F.Fraction(1)) if len(c) == 1 else (c[0], c[1], c[2] if len(c) > 2 else F.Fraction(1))
    out = []
    x = lo
    while (x < hi if st > 0 else x > hi):
        out.append(F.const(x))
        x += st
    a = np.empty(len(out), dtype=object)
    a[:] = out
    return it.new_arr(a)


def items_or_unk(it, v, lazy=False):
    return it.iterate(v, lazy)


@bi("enumerate")
def b_enumerate(it, args, kwargs):
    items = it.iterate(args[0], lazy=True)
    start = narrow(arg(args, kwargs, 1, "start", F.ZERO))
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return it.loop_hook.enumerate(it, items, start)
    if any(isinstance(x, Gitem) for x in items):
        out = []
        n = start
        for x in items:
            if isinstance(x, Gitem):
                out.append(Gitem(x.g, (n, x.v)))
                n = V.arith("+", n, mk_phi([(x.g, F.ONE), (G.NOT(x.g), F.ZERO)]))
            else:
                out.append((n, x))
                n = V.arith("+", n, F.ONE)
        return it.alloc(IterC(out))
    return it.alloc(IterC([(V.arith("+", start, F.const(i)), x) for i, x in enumerate(items)]))


@bi("zip")
def b_zip(it, args, kwargs):
    cols = []
    counters = []
    for i, a in enumerate(args):
        a = narrow(a)
        if isinstance(a, Ref) and isinstance(it.cell(a), CounterC):
            counters.append(i)
            cols.append(a)
        else:
            cols.append(it.iterate(a))
    u = has_unk(*[c for c in cols if isinstance(c, Unk)])
    if u:
        return u
    lists = [c for i, c in enumerate(cols) if i not in counters]
    if any(not isinstance(c, list) for c in lists):
        return it.loop_hook.zip(it, cols)
    n = min((len(c) for c in lists), default=0)
    for i in counters:
        c = it.cell(cols[i])
        vals = []
        cur = c.cur
        for _ in range(n):
            vals.append(cur)
            cur = V.arith("+", cur, c.step)
        it.put(cols[i], CounterC(cur, c.step))
        cols[i] = vals
    return it.alloc(IterC([tuple(c[j] for c in cols) for j in range(n)]))


@bi("reversed")
def b_reversed(it, args, kwargs):
    items = it.iterate(args[0], lazy=True)
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return it.loop_hook.reversed(it, items)
    return it.alloc(IterC(items[::-1]))


@bi("list")
def b_list(it, args, kwargs):
    if not args:
        return it.new_list([])
    items = it.iterate(args[0], lazy=True)
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return it.new_list(items.items)
    return it.new_list(items)


@bi("tuple")
def b_tuple(it, args, kwargs):
    if not args:
        return ()
    if isinstance(args[0], tuple):
        return args[0]
    items = it.iterate(args[0])
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return it.new_list(items.items)
    return tuple(items)


@bi("dict")
def b_dict(it, args, kwargs):
    d = {}
    if args:
        a = narrow(args[0])
        c = it.cell(a) if isinstance(a, Ref) else None
        if isinstance(c, DictC):
            d.update(c.d)
        elif isinstance(c, TableC):
            return it.alloc(c)
        else:
            items = it.iterate(a)
            if not isinstance(items, list):
                return it.unk("dict of an unknown sequence")
            for p in items:
                kv = it.iterate(p)
                if not isinstance(kv, list) or len(kv) != 2:
                    return it.unk("dict of pairs")
                d[M.key(it, kv[0])] = kv[1]
    d.update(kwargs)
    return it.new_dict(d)


@bi("set", "frozenset")
def b_set(it, args, kwargs):
    if not args:
        return M.make_set(it, [])
    items = it.iterate(args[0], lazy=True)
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return it.unk("set of an unknown sequence")
    return M.make_set(it, items)


@bi("iter")
def b_iter(it, args, kwargs):
    items = it.iterate(args[0], lazy=True)
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return args[0]
    return it.alloc(IterC(items))


@bi("next")
def b_next(it, args, kwargs):
    v = narrow(args[0])
    c = it.cell(v) if isinstance(v, Ref) else None
    if isinstance(c, ObjC) and len(args) == 1 and it._has_in_class(c.cls, "__next__"):
        return it.call(it.getattr(v, "__next__"), [], {})
    if isinstance(c, CounterC):
        it.put(v, CounterC(V.arith("+", c.cur, c.step), c.step))
        return c.cur
    if isinstance(c, IterC):
        if c.items:
            x = c.items[0]
            if isinstance(x, Gitem):
                # first item present
                alts = []
                rest = True
                for y in c.items:
                    g = y.g if isinstance(y, Gitem) else True
                    alts.append((G.AND(rest, g), y.v if isinstance(y, Gitem) else y))
                    rest = G.AND(rest, G.NOT(g))
                    if rest is False:
                        break
                it.put(v, IterC(()), note=False)
                if len(args) > 1:
                    alts.append((rest, args[1]))
                else:
                    it.raise_exc("StopIteration", guard=rest)
                return mk_phi(alts)
            if it.is_part(x):
                return it.unk("next of a summarised sequence")
            it.put(v, IterC(c.items[1:]))
            return x
        if len(args) > 1:
            return args[1]
        it.raise_exc("StopIteration")
    if isinstance(c, ObjC):
        m = it.class_lookup(c.cls, "__next__")
        if m is not None:
            return it.call(m, [v], {})
    return it.unk("next")


def sum_items(it, items, start=F.ZERO):
    r = start
    for x in items:
        if isinstance(x, Gitem):
            r2 = M.binop(it, "+", r, x.v)
            r = mk_phi([(x.g, r2), (G.NOT(x.g), r)])
        else:
            r = M.binop(it, "+", r, x)
    return r


@bi("sum")
def b_sum(it, args, kwargs):
    items = it.iterate(args[0], lazy=True)
    start = arg(args, kwargs, 1, "start", F.ZERO)
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return it.loop_hook.sum(it, items, start)
    return sum_items(it, items, start)


EXT_FNS["math.fsum"] = b_sum


@bi("min", "max")
def b_minmax(it, args, kwargs):
    raise AssertionError


def _minmax(name):
    def f(it, args, kwargs):
        if len(args) == 1:
            items = it.iterate(args[0])
        else:
            items = list(args)
        if isinstance(items, Unk):
            return items
        if not isinstance(items, list):
            return it.unk(f"{name} of a sequence of unknown length")
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            it.raise_exc("ValueError", f"{name}() arg is an empty sequence")
        keyf = kwargs.get("key")
        items = [narrow(x) for x in items]
        if keyf is None and all(is_scalar(x) for x in items):
            return (maxv if name == "max" else minv)(items)
        keys = [it.call(keyf, [x], {}) for x in items] if keyf is not None else items
        best, bk = items[0], keys[0]
        op = ">" if name == "max" else "<"
        for x, k in zip(items[1:], keys[1:]):
            b = to_bdd(M.order(it, op, k, bk))
            if isinstance(b, Unk):
                return b
            best = mk_phi([(b, x), (G.NOT(b), best)])
            bk = mk_phi([(b, k), (G.NOT(b), bk)])
        return best
    return f


BUILTIN_FNS["min"] = _minmax("min")
BUILTIN_FNS["max"] = _minmax("max")


def _plain(it, k):
    """the Python value of a constant"""
    k = narrow(k)
    if isinstance(k, (str, bool)):
        return k
    if isinstance(k, Form) and k.const() is not None:
        return k.const()
    if isinstance(k, tuple):
        return tuple(_plain(it, x) for x in k)
    if isinstance(k, Ref) and isinstance(it.cell(k), ListC) and not any(isinstance(x, Gitem) for x in it.cell(k).items):
        return [_plain(it, x) for x in it.cell(k).items]
    raise LookupError


def sort_items(it, items, keyf=None, reverse=False):
    items = [narrow(x) for x in items]
    if keyf is None and all(is_scalar(x) for x in items):
        a = list(items)
        n = len(a)
        if n > 6 and not all(isinstance(x, Form) and x.const() is not None for x in a):
            return it.unk("sorting many symbolic numbers")
        if all(isinstance(x, Form) and x.const() is not None for x in a):
            a.sort(key=lambda f: f.const())
        else:
            for i in range(n):
                for j in range(n - 1 - i):
                    a[j], a[j + 1] = pick2(a[j], a[j + 1], "<"), pick2(a[j], a[j + 1], ">=")
        return a[::-1] if reverse else a
    keys = [it.call(keyf, [x], {}) for x in items] if keyf is not None else items
    if all(isinstance(k, str) for k in keys):
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=reverse)
        return [items[i] for i in order]
    if all(isinstance(k, Form) and k.const() is not None for k in keys):
        order = sorted(range(len(items)), key=lambda i: keys[i].const(), reverse=reverse)
        return [items[i] for i in order]
    try:
        plain = [_plain(it, k) for k in keys]
        order = sorted(range(len(items)), key=lambda i: plain[i], reverse=reverse)
        return [items[i] for i in order]
    except (LookupError, TypeError):
        pass
    pairs = list(zip(keys, items))
    if all(is_scalar(k) for k in keys) and len(pairs) <= 5:
        n = len(pairs)
        for i in range(n):
            for j in range(n - 1 - i):
                b = to_bdd(M.order(it, ">" if not reverse else "<", pairs[j][0], pairs[j + 1][0]))
                if isinstance(b, Unk):
                    return b
                p, q = pairs[j], pairs[j + 1]
                pairs[j] = tuple(mk_phi([(b, y), (G.NOT(b), x)]) for x, y in zip(p, q))
                pairs[j + 1] = tuple(mk_phi([(b, x), (G.NOT(b), y)]) for x, y in zip(p, q))
        return [p[1] for p in pairs]
    return it.unk("sort")


@bi("sorted")
def b_sorted(it, args, kwargs):
    items = it.iterate(args[0])
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return it.unk("sorting a sequence of unknown length")
    r = sort_items(it, items, kwargs.get("key"), it.truth(kwargs.get("reverse", False)) is True)
    return r if isinstance(r, Unk) else it.new_list(r)


@bi("map")
def b_map(it, args, kwargs):
    f = args[0]
    cols = [it.iterate(a, lazy=len(args) == 2) for a in args[1:]]
    u = has_unk(*cols)
    if u:
        return u
    if any(not isinstance(c, list) for c in cols):
        return it.loop_hook.map(it, f, cols)
    out = []
    for xs in zip(*cols):
        if isinstance(xs[0], Gitem):
            g = xs[0].g
            v = it.fork_join([(g, lambda: it.call(f, [xs[0].v], {})), (G.NOT(g), lambda: UNDEF)])
            if isinstance(v, Phi):
                v = M.drop_undef(v)
            out.append(Gitem(g, v))
        else:
            out.append(it.call(f, list(xs), {}))
    return it.alloc(IterC(out))


@bi("filter")
def b_filter(it, args, kwargs):
    items = it.iterate(args[1], lazy=True)
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return it.unk("filter of a sequence of unknown length")
    out = []
    for x in items:
        g = True
        if isinstance(x, Gitem):
            g, x = x.g, x.v
        c = it.truth(x if args[0] is None else it.call(args[0], [x], {}))
        if isinstance(c, Unk):
            return c
        g = G.AND(g, c)
        if g is False or G.AND(it.st.pc, g) is False:
            continue
        out.append(x if G.implies(it.st.pc, g) else Gitem(g, x))
    return it.alloc(IterC(out))


def _anyall(isany):
    def f(it, args, kwargs):
        v = narrow(args[0])
        a = get_arr(it, v)
        items = list(a.flat) if a is not None else it.iterate(v, lazy=True)
        if isinstance(items, Unk):
            return items
        if not isinstance(items, list):
            return it.unk("any/all over a sequence of unknown length")
        r = not isany
        for x in items:
            g = True
            if isinstance(x, Gitem):
                g, x = x.g, x.v
            b = it.truth(x)
            if isinstance(b, Unk):
                return b
            r = G.OR(r, G.AND(g, b)) if isany else G.AND(r, G.OR(G.NOT(g), b))
        return mk_bool(r)
    return f


BUILTIN_FNS["any"] = EXT_FNS["numpy.any"] = _anyall(True)
BUILTIN_FNS["all"] = EXT_FNS["numpy.all"] = _anyall(False)


# ================================================================ reflection

ABSTRACT_NUM = {"numbers.Number", "numbers.Real", "numbers.Complex", "numpy.number", "numpy.floating"}


def isinst(it, v, cls):
    v, cls = narrow(v), narrow(cls)
    if isinstance(v, Unk):
        return v
    if isinstance(cls, tuple):
        r = False
        for c in cls:
            b = isinst(it, v, c)
            if isinstance(b, Unk):
                return b
            r = G.OR(r, b)
        return r
    if isinstance(v, Phi):
        r = False
        for g, x in v.alts:
            b = isinst(it, x, cls)
            if isinstance(b, Unk):
                return b
            r = G.OR(r, G.AND(g, b))
        return r
    cell = it.cell(v) if isinstance(v, Ref) else None
    if isinstance(v, Opaque) and v.tag in ("input", "maybe"):
        return G.pred("isinstance", v.args[0], getattr(cls, "qualname", None) or getattr(cls, "path", None) or getattr(cls, "name", repr(cls)))
    if isinstance(cls, ClassV):
        if isinstance(v, ExcV):
            return isinstance(v.cls, ClassV) and v.cls.is_sub(cls)
        if isinstance(v, pycls.NTuple) and v.cls is not None:
            return v.cls.is_sub(cls)
        if isinstance(cell, ObjC):
            return cell.cls.is_sub(cls) if isinstance(cell.cls, ClassV) else False
        return False
    if isinstance(cls, Builtin):
        n = cls.name
        if n == "object":
            return True
        if isinstance(v, (str, StrV, S.HoleStr)):
            return n == "str"
        if isinstance(v, bool) or isinstance(v, Cond):
            return n in ("bool", "int")
        if isinstance(v, Form):
            if n == "int":
                c = v.const()
                if c is not None:
                    return c.denominator == 1
                return True if V.is_int(v) else G.pred("is int", V.canon(v))
            if n == "float":
                c = v.const()
                if c is not None:
                    return c.denominator != 1 or G.pred("is float", V.canon(v))
                return False if V.is_int(v) else G.NOT(G.pred("is int", V.canon(v)))
            return False
        if isinstance(v, tuple):
            return n == "tuple"
        if isinstance(v, Opaque) and v.tag == "dofs":
            return n == "list"
        if isinstance(cell, ListC):
            return n == "list"
        if isinstance(cell, (DictC, TableC)):
            return n == "dict"
        if isinstance(cell, SetC):
            return n in ("set", "frozenset")
        if isinstance(cell, ObjC):
            return cell.cls.is_sub(cls) if isinstance(cell.cls, ClassV) else False
        if isinstance(v, ExcV):
            c = v.cls
            if isinstance(c, ClassV):
                return any(isinstance(b, Builtin) and isinstance(b.py, type) and cls.py is not None and issubclass(b.py, cls.py) for b in c.mro())
            if isinstance(c, Ext):
                return n in M.EXT_EXC_BASES.get(c.path, ("Exception", "BaseException"))
            return isinstance(c, Builtin) and cls.py is not None and issubclass(c.py, cls.py)
        return False
    if isinstance(cls, Ext):
        p = cls.path
        if p in ("numpy.ndarray",):
            return isinstance(cell, (ArrC, ViewC, S.GArrC))
        if p in ABSTRACT_NUM:
            return isinstance(v, (Form, bool))
        if p in ("numbers.Integral", "numpy.integer", "numpy.int64"):
            if isinstance(v, Form):
                c = v.const()
                return c.denominator == 1 if c is not None else V.is_int(v)
            return False
        if p in ("numpy.float64",):
            return G.pred("is numpy float", V.canon(v)) if isinstance(v, Form) else False
        if p == "pandas.DataFrame":
            return isinstance(cell, FrameDFC)
        if p == "pandas.Series":
            return isinstance(cell, SeriesC)
        if p in ("collections.abc.Mapping", "typing.Mapping", "collections.abc.MutableMapping"):
            return isinstance(cell, (DictC, TableC))
        if p in ("collections.abc.Iterable", "typing.Iterable"):
            return isinstance(v, (str, tuple)) or cell is not None and not isinstance(cell, ObjC) or isinstance(v, Opaque) and v.tag == "dofs"
        if p in ("collections.abc.Sequence", "typing.Sequence"):
            return isinstance(v, (str, tuple)) or isinstance(cell, ListC)
        return it.unk(f"isinstance of {p}")
    return it.unk("isinstance")


@bi("isinstance")
def b_isinstance(it, args, kwargs):
    b = isinst(it, args[0], args[1])
    return b if isinstance(b, Unk) else mk_bool(b)


@bi("issubclass")
def b_issubclass(it, args, kwargs):
    cs = args[1] if isinstance(args[1], tuple) else (args[1],)
    if isinstance(args[0], ClassV):
        return any(args[0].is_sub(c) or isinstance(c, Builtin) and (c.name == "object" or any(
            isinstance(b, Builtin) and isinstance(b.py, type) and isinstance(c.py, type) and issubclass(b.py, c.py) for b in args[0].mro())) for c in cs)
    if isinstance(args[0], Builtin) and isinstance(args[0].py, type):
        return any(isinstance(c, Builtin) and isinstance(c.py, type) and issubclass(args[0].py, c.py) for c in cs)
    if isinstance(args[0], Ext) and args[0].path in M.EXT_EXC_BASES:
        return any(c == args[0] or isinstance(c, Builtin) and c.name in M.EXT_EXC_BASES[args[0].path] + ("BaseException", "object") for c in cs)
    return it.unk("issubclass")


@bi("type")
def b_type(it, args, kwargs):
    v = narrow(args[0])
    if isinstance(v, Ref) and isinstance(it.cell(v), ObjC):
        return it.cell(v).cls
    if isinstance(v, str):
        return M.builtin("str")
    if isinstance(v, bool):
        return M.builtin("bool")
    if isinstance(v, tuple):
        return M.builtin("tuple")
    if isinstance(v, Ref):
        c = it.cell(v)
        if isinstance(c, ListC):
            return M.builtin("list")
        if isinstance(c, DictC):
            return M.builtin("dict")
        if isinstance(c, (ArrC, ViewC)):
            return Ext("numpy.ndarray")
    if isinstance(v, Opaque):
        return Opaque("type", v)
    return it.unk("type()")


@bi("hasattr")
def b_hasattr(it, args, kwargs):
    o, n = narrow(args[0]), args[1]
    st = it.st.clone()
    v, alive, exc = it.run(lambda: it.getattr(o, n))
    if alive and not exc:
        return True
    for s, e in exc:
        if isinstance(e.cls, Builtin) and e.cls.name != "AttributeError":
            it.exc_sinks[-1].append((s, e))
    exc = [(s, e) for s, e in exc if not (isinstance(e.cls, Builtin) and e.cls.name != "AttributeError")]
    if not alive:
        if not exc:
            from .interp import Dead
            raise Dead()
        it.st = st
        return False
    if not exc:
        return True
    g = G.OR(*[s.pc for s, _ in exc])
    it.st.pc = st.pc if isinstance(st.pc, bool) else G.OR(it.st.pc, g)
    return mk_bool(G.NOT(g))


@bi("getattr")
def b_getattr(it, args, kwargs):
    n = narrow(args[1])
    if isinstance(n, Phi):
        return it.fork_join([(g, (lambda x=x: b_getattr(it, [args[0], x] + list(args[2:]), {}))) for g, x in n.alts])
    if not isinstance(n, str):
        return it.unk("getattr with a computed name")
    if len(args) > 2:
        st = it.st.clone()
        v, alive, exc = it.run(lambda: it.getattr(args[0], it.mangle(n) if False else n))
        if not alive:
            it.st = st
            return args[2]
        if exc:
            g = G.OR(*[s.pc for s, _ in exc])
            ok = it.st.pc
            it.st.pc = G.OR(ok, g)
            return mk_phi([(ok, v), (g, args[2])])
        return v
    return it.getattr(args[0], n)


@bi("setattr")
def b_setattr(it, args, kwargs):
    if not isinstance(args[1], str):
        raise Limit("setattr with a computed name")
    it.setattr(args[0], args[1], args[2])


@bi("callable")
def b_callable(it, args, kwargs):
    return isinstance(args[0], (FnV, Bound, Builtin, Ext, ClassV, Method, Native))


@bi("super")
def b_super(it, args, kwargs):
    if args:
        return SuperV(args[0], args[1])
    fn = it.stack[-1][0]
    first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
    return SuperV(fn.cls, it.lookup(first))


@bi("property")
def b_property(it, args, kwargs):
    return PropV(arg(args, kwargs, 0, "fget"), arg(args, kwargs, 1, "fset"), arg(args, kwargs, 2, "fdel"))


BUILTIN_FNS["staticmethod"] = lambda it, a, k: StaticV(a[0])
BUILTIN_FNS["classmethod"] = lambda it, a, k: ClassMV(a[0])
BUILTIN_FNS["object.__setattr__"] = lambda it, a, k: it.setattr(a[0], a[1], a[2], True)
BUILTIN_FNS["object.__delattr__"] = lambda it, a, k: it.delattr(a[0], a[1], True)
BUILTIN_FNS["delattr"] = lambda it, a, k: it.delattr(a[0], a[1])
BUILTIN_FNS["object"] = lambda it, a, k: Opaque("object", F.const(it.next_addr))
BUILTIN_FNS["slice"] = lambda it, a, k: SliceV(*((None, a[0], None) if len(a) == 1 else (a + [None])[:3]))
def b_hash(it, args, kwargs):
    v = S.freeze(it, args[0])

    def text(x):
        return isinstance(x, (str, StrV)) or isinstance(x, tuple) and any(text(y) for y in x) or isinstance(x, Phi) and any(text(y) for _, y in x.alts)
    if text(v) and not it.cur_fn().endswith("__hash__"):
        _Event(it, "nondeterminism", ["hash of a text"], {})
    return Opaque("hash", v)


BUILTIN_FNS["hash"] = b_hash
BUILTIN_FNS["id"] = lambda it, a, k: Opaque("id", S.freeze(it, a[0]) if not isinstance(a[0], Ref) else F.const(a[0].a))
BUILTIN_FNS["ord"] = lambda it, a, k: F.const(ord(a[0])) if isinstance(a[0], str) else it.unk("ord")
BUILTIN_FNS["chr"] = lambda it, a, k: chr(const_int(a[0])) if const_int(a[0]) is not None else it.unk("chr")


@bi("eval")
def b_eval(it, args, kwargs):
    return M.do_eval(it, list(args), kwargs)


@bi("compile")
def b_compile(it, args, kwargs):
    if str(narrow(arg(args, kwargs, 2, "mode"))) != "eval":
        return b_exec(it, args, kwargs)
    return M.lift(lambda v: Opaque("code", v), narrow(args[0]))


@bi("exec")
def b_exec(it, args, kwargs):
    it.eval_sites.append((it.where(), it.cur_fn(), narrow(args[0]), it.st.pc))
    return it.unk("executed statements")


def names_of(it, frame, label):
    """the variables of a frame as they are now; writing to the result would not be followed"""
    d = {}
    for k, v in it.st.heap[frame].items():
        if k.startswith("__") and k.endswith("__"):
            continue
        if isinstance(v, Undef):
            continue
        if isinstance(v, Phi) and any(isinstance(x, Undef) for _, x in v.alts):
            return it.unk(f"{label} where a variable is set under a condition")
        d[k] = v
    r = it.new_dict(d)
    it.readonly.add(r.a)
    return r


@bi("locals")
def b_locals(it, args, kwargs):
    a = it.st.frame
    while it.st.heap[a].get("__compframe__"):
        a = it.st.heap[a]["__outer__"]
    return names_of(it, a, "locals")


@bi("globals")
def b_globals(it, args, kwargs):
    return names_of(it, it.cur_mod.frame, "globals")


@bi("__import__", "open", "input", "exit", "quit")
def b_effect(it, args, kwargs):
    _Event(it, "builtins.call", [S.freeze(it, a) for a in args], {})
    return it.unk("builtin with an effect")


@bi("vars")
def b_vars(it, args, kwargs):
    if args:
        return it.getattr(narrow(args[0]), "__dict__")
    return b_locals(it, args, kwargs)


@bi("print")
def b_print(it, args, kwargs):
    _Event(it, "print", [S.freeze(it, a) for a in args], {k: S.freeze(it, v) for k, v in kwargs.items()})
    return None


# ================================================================ decorators and small library functions

@ext("functools.wraps")
def x_wraps(it, args, kwargs):
    import copy

    def named(it2, a, k):
        f = a[0]
        if isinstance(f, FnV) and isinstance(args[0], FnV):
            f = copy.copy(f)
            f.name = args[0].name
        return f
    return Native("wraps", named)


@ext("functools.singledispatch")
def x_singledispatch(it, args, kwargs):
    return _Dispatch(it, args[0])


class _Dispatch(Native):
    """a function chosen by the class of its first argument"""
    __slots__ = ("cases",)

    def __init__(self, it, default):
        self.cases = []
        Native.__init__(self, "singledispatch", self.go)
        self.cases.append((M.builtin("object"), default))

    def go(self, it, a, k):
        def rank(c):
            cls = c[0]
            return -len(cls.mro()) if isinstance(cls, ClassV) else 1 if cls == M.builtin("object") else -len(cls.py.__mro__) if isinstance(cls, Builtin) and isinstance(cls.py, type) else 0
        rest = sorted(self.cases[::-1], key=rank)

        def ask(i):
            cls, f = rest[i]
            if i == len(rest) - 1:
                return it.call(f, list(a), dict(k))
            b = isinst(it, a[0], cls)
            if isinstance(b, Unk):
                return b
            return it.fork_join([(b, lambda: it.call(f, list(a), dict(k))), (G.NOT(b), lambda: ask(i + 1))])
        return ask(0)

    def register(self, it, a, k):
        if isinstance(a[0], FnV):
            p = a[0].node.args.args[0]
            cls = it.ev(p.annotation) if p.annotation is not None else None
            self.cases.append((narrow(cls), a[0]))
            return a[0]
        if len(a) > 1:
            self.cases.append((narrow(a[0]), a[1]))
            return a[1]

        def deco(it2, b, k2):
            self.cases.append((narrow(a[0]), b[0]))
            return b[0]
        return Native("register", deco)


@ext("functools.cached_property")
def x_cached_property(it, args, kwargs):
    return CachedPropV(args[0])


@ext("functools.lru_cache", "functools.cache")
def x_lru_cache(it, args, kwargs):
    def memo(fn):
        store = it.new_dict()

        def callm(it2, a, k):
            # results of equal arguments are shared objects
            kk = tuple(a) + ((("kwargs",) + tuple(sorted(k.items())),) if k else ())
            b = to_bdd(M.contains(it2, store, kk))
            if isinstance(b, Unk):
                return b

            def miss():
                r = it2.call(fn, list(a), k)
                M.setitem(it2, store, kk, r)
                return r
            return it2.fork_join([(b, lambda: M.getitem(it2, store, kk)), (G.NOT(b), miss)])
        return Native("cached " + getattr(fn, "qualname", "?"), callm)
    if args and isinstance(args[0], (FnV, StaticV)):
        return memo(args[0])
    return Native("lru_cache", lambda it2, a, k: memo(a[0]))


@ext("functools.partial")
def x_partial(it, args, kwargs):
    f, pre, kw = args[0], list(args[1:]), dict(kwargs)
    return Native("partial", lambda it2, a, k: it2.call(f, pre + list(a), {**kw, **k}))


@ext("functools.reduce")
def x_reduce(it, args, kwargs):
    items = it.iterate(args[1])
    if not isinstance(items, list):
        return it.unk("reduce of a sequence of unknown length")
    if len(args) > 2:
        acc = args[2]
    else:
        if not items:
            it.raise_exc("TypeError", "reduce of empty sequence")
        acc, items = items[0], items[1:]
    for x in items:
        acc = it.call(args[0], [acc, x], {})
    return acc


for _n, _op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**"), ("matmul", "@"), ("floordiv", "//"), ("mod", "%")):
    EXT_FNS["operator." + _n] = (lambda it, a, k, op=_op: M.binop(it, op, a[0], a[1]))
EXT_FNS["operator.neg"] = lambda it, a, k: M.binop(it, "*", F.const(-1), a[0])
for _n, _op in (("and_", "&"), ("or_", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>"), ("concat", "+")):
    EXT_FNS["operator." + _n] = (lambda it, a, k, op=_op: M.binop(it, op, a[0], a[1]))
for _n, _op in (("iadd", "+"), ("isub", "-"), ("imul", "*"), ("itruediv", "/"), ("ipow", "**"), ("imatmul", "@"), ("ifloordiv", "//"), ("imod", "%"),
                ("iand", "&"), ("ior", "|"), ("ixor", "^"), ("iconcat", "+")):
    EXT_FNS["operator." + _n] = (lambda it, a, k, op=_op: M.inplace(it, op, a[0], a[1]))
for _n, _op in (("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("eq", ast.Eq), ("ne", ast.NotEq), ("is_", ast.Is), ("is_not", ast.IsNot)):
    EXT_FNS["operator." + _n] = (lambda it, a, k, op=_op: M.cmp(it, op(), a[0], a[1]))
for _n, _op in (("less_equal", ast.LtE), ("greater_equal", ast.GtE), ("equal", ast.Eq), ("not_equal", ast.NotEq)):
    def _cmp_run(it, a, k, op=_op):
        xs = [narrow(v) for v in a]
        if any(not is_scalar(x) and M.get_arr(it, x) is None for x in xs):
            xs = [it.call(Ext("numpy.asarray"), [x], {}) for x in xs]
        return M.cmp(it, op(), *xs)
    EXT_FNS["numpy." + _n] = _cmp_run


@ext("operator.contains")
def x_contains(it, args, kwargs):
    return M.cmp(it, ast.In(), args[1], args[0])


@ext("operator.getitem")
def x_getitem(it, args, kwargs):
    return it.getitem(args[0], args[1])


@ext("operator.setitem")
def x_setitem(it, args, kwargs):
    it.setitem(args[0], args[1], args[2])


@ext("operator.call")
def x_opcall(it, args, kwargs):
    return it.call(args[0], list(args[1:]), kwargs)


@ext("operator.methodcaller")
def x_methodcaller(it, args, kwargs):
    name, pre, kw = args[0], list(args[1:]), dict(kwargs)
    return Native("methodcaller", lambda it2, a, k: it2.call(it2.getattr(a[0], name), list(pre), dict(kw)))


@ext("operator.not_")
def x_not(it, args, kwargs):
    c = it.truth(args[0])
    return c if isinstance(c, Unk) else mk_bool(G.NOT(c))


@ext("operator.truth")
def x_truth(it, args, kwargs):
    c = it.truth(args[0])
    return c if isinstance(c, Unk) else mk_bool(c)


EXT_FNS["operator.pos"] = lambda it, a, k: a[0]
EXT_FNS["operator.abs"] = lambda it, a, k: b_abs(it, a, k)
EXT_FNS["operator.index"] = lambda it, a, k: b_int(it, a, k)
EXT_FNS["operator.invert"] = EXT_FNS["operator.inv"] = lambda it, a, k: M.invert(it, a[0])


@ext("operator.itemgetter")
def x_itemgetter(it, args, kwargs):
    ks = list(args)

    def get(it2, a, k):
        r = [it2.getitem(a[0], kk) for kk in ks]
        return r[0] if len(r) == 1 else tuple(r)
    return Native("itemgetter", get)


@ext("operator.attrgetter")
def x_attrgetter(it, args, kwargs):
    ks = list(args)

    def get(it2, a, k):
        r = [it2.getattr(a[0], kk) for kk in ks]
        return r[0] if len(r) == 1 else tuple(r)
    return Native("attrgetter", get)


@ext("copy.copy")
def x_copy(it, args, kwargs):
    return copy_value(it, args[0], False)


@ext("copy.deepcopy")
def x_deepcopy(it, args, kwargs):
    return copy_value(it, args[0], True)


def copy_value(it, v, deep, memo=None):
    v = narrow(v)
    memo = {} if memo is None else memo
    if isinstance(v, tuple):
        return tuple(copy_value(it, x, deep, memo) for x in v) if deep else v
    if isinstance(v, Phi) and not is_scalar(v):
        return it.fork_join([(g, (lambda x=x: copy_value(it, x, deep))) for g, x in v.alts])
    if isinstance(v, Ref):
        if v in memo:
            return memo[v]
        c = it.cell(v)
        rec = (lambda x: copy_value(it, x, True, memo)) if deep else (lambda x: x)
        if isinstance(c, ListC):
            r = it.new_list([Gitem(x.g, rec(x.v)) if isinstance(x, Gitem) else rec(x) if not it.is_part(x) else x for x in c.items])
        elif isinstance(c, DictC):
            r = it.new_dict({k: rec(x) for k, x in c.d.items()}, c.kind)
        elif isinstance(c, (ArrC, ViewC)):
            r = it.new_arr(get_arr(it, v).copy())
        elif isinstance(c, ObjC):
            r = it.alloc(c)
            memo[v] = r
            it.put(r, ObjC(c.cls, {k: rec(x) for k, x in c.attrs.items()}), note=False)
        else:
            r = it.alloc(c)
        memo[v] = r
        return r
    return v


@ext("itertools.count")
def x_count(it, args, kwargs):
    return it.alloc(CounterC(V._num(arg(args, kwargs, 0, "start", F.ZERO)), V._num(arg(args, kwargs, 1, "step", F.ONE))))


@ext("itertools.product")
def x_product(it, args, kwargs):
    cols = [it.iterate(a, lazy=True) for a in args]
    rep = const_int(kwargs.get("repeat", F.ONE))
    u = has_unk(*cols)
    if u:
        return u
    if any(not isinstance(c, list) for c in cols):
        return it.loop_hook.product(it, cols) if it.loop_hook else it.unk("product of unknown sequences")
    cols = cols * rep
    out = [((), True)]
    total = 1
    for c in cols:
        total *= max(len(c), 1)
    if total > 2000000:
        return it.unk("very large product")
    for c in cols:
        new = []
        for t, g in out:
            for x in c:
                if isinstance(x, Gitem):
                    gg = G.AND(g, x.g)
                    if gg is not False:
                        new.append((t + (x.v,), gg))
                else:
                    new.append((t + (x,), g))
        out = new
    return it.alloc(IterC([t if g is True else Gitem(g, t) for t, g in out]))


@ext("itertools.chain")
def x_chain(it, args, kwargs):
    out = []
    for a in args:
        items = it.iterate(a, lazy=True)
        if isinstance(items, Unk):
            return items
        out.extend(items if isinstance(items, list) else items.items)
    return it.alloc(IterC(out))


@ext("itertools.chain.from_iterable")
def x_chain_from(it, args, kwargs):
    items = it.iterate(args[0])
    if not isinstance(items, list):
        return it.unk("chain.from_iterable") if not isinstance(items, Unk) else items
    return x_chain(it, items, {})


@ext("itertools.repeat")
def x_repeat(it, args, kwargs):
    n = const_int(narrow(arg(args, kwargs, 1, "times", None))) if arg(args, kwargs, 1, "times") is not None else None
    if n is None:
        return it.unk("repeat without a count")
    return it.alloc(IterC([args[0]] * n))


@ext("itertools.accumulate")
def x_accumulate(it, args, kwargs):
    items = it.iterate(args[0])
    if not isinstance(items, list):
        return it.unk("accumulate")
    f = arg(args, kwargs, 1, "func")
    out = []
    acc = kwargs.get("initial")
    if acc is not None:
        out.append(acc)
    for x in items:
        acc = x if acc is None else (M.binop(it, "+", acc, x) if f is None else it.call(f, [acc, x], {}))
        out.append(acc)
    return it.alloc(IterC(out))


@ext("itertools.pairwise")
def x_pairwise(it, args, kwargs):
    items = it.iterate(args[0])
    if not isinstance(items, list):
        return it.unk("pairwise")
    return it.alloc(IterC(list(zip(items, items[1:]))))


@ext("itertools.islice")
def x_islice(it, args, kwargs):
    v = narrow(args[0])
    b = [const_int(x) if x is not None else None for x in args[1:]]
    c = it.cell(v) if isinstance(v, Ref) else None
    if isinstance(c, CounterC) and len(b) == 1:
        return it.alloc(IterC([V.arith("+", c.cur, V.arith("*", c.step, F.const(i))) for i in range(b[0])]))
    items = it.iterate(v)
    if not isinstance(items, list):
        return it.unk("islice")
    return it.alloc(IterC(items[slice(*b)]))


@ext("itertools.zip_longest")
def x_zip_longest(it, args, kwargs):
    cols = [it.iterate(a) for a in args]
    if any(not isinstance(c, list) for c in cols):
        return it.unk("zip_longest")
    n = max(len(c) for c in cols)
    fv = kwargs.get("fillvalue")
    return it.alloc(IterC([tuple(c[j] if j < len(c) else fv for c in cols) for j in range(n)]))


@ext("collections.defaultdict")
def x_defaultdict(it, args, kwargs):
    return it.new_dict({}, ("defaultdict", args[0]) if args and args[0] is not None else "dict")


@ext("collections.OrderedDict")
def x_odict(it, args, kwargs):
    return b_dict(it, args, kwargs)


@ext("collections.namedtuple")
def x_namedtuple(it, args, kwargs):
    names = args[1].replace(",", " ").split() if isinstance(args[1], str) else it.iterate(args[1])
    dv = narrow(kwargs.get("defaults"))
    dv = it.iterate(dv) if dv is not None else []
    return pycls.nt_class(it, args[0], names, dict(zip(names[len(names) - len(dv):], dv)))


@ext("typing.NamedTuple")
def x_typed_namedtuple(it, args, kwargs):
    return pycls.nt_class(it, args[0], [it.iterate(r)[0] for r in it.iterate(args[1])], {})


@ext("dataclasses.dataclass")
def x_dataclass(it, args, kwargs):
    if args and args[0] is not None:
        return pycls.dataclass(it, args[0], kwargs)
    return Native("dataclass", lambda it2, a, k: pycls.dataclass(it2, a[0], kwargs))


@ext("dataclasses.field")
def x_field(it, args, kwargs):
    return pycls.FieldV(kwargs)


@ext("dataclasses.replace", "copy.replace")
def x_dc_replace(it, args, kwargs):
    return pycls.replace(it, narrow(args[0]), kwargs)


@ext("dataclasses.asdict")
def x_asdict(it, args, kwargs):
    return it.new_dict({n: it.getattr(args[0], n) for n in pycls.field_names(it, narrow(args[0]))[0]})


@ext("dataclasses.astuple")
def x_astuple(it, args, kwargs):
    return tuple(it.getattr(args[0], n) for n in pycls.field_names(it, narrow(args[0]))[0])


@ext("dataclasses.fields")
def x_fields(it, args, kwargs):
    cls = pycls.nt_class(it, "Field", ("name",), {})
    return tuple(pycls.nt_value(cls, [n]) for n in pycls.field_names(it, narrow(args[0]))[0])


@ext("dataclasses.is_dataclass")
def x_is_dc(it, args, kwargs):
    o = narrow(args[0])
    c = it.cell(o).cls if isinstance(o, Ref) and isinstance(it.cell(o), ObjC) else o
    return isinstance(c, ClassV) and any(getattr(b, "dc_fields", None) is not None for b in c.mro())


@ext("contextlib.contextmanager")
def x_contextmanager(it, args, kwargs):
    from .interp import GenCM
    return Native("context manager", lambda it2, a, k: GenCM(args[0], list(a), dict(k)))


@ext("enum.auto")
def x_auto(it, args, kwargs):
    return pycls.AutoV()


@ext("enum.unique")
def x_enum_unique(it, args, kwargs):
    return args[0]


@ext("collections.deque")
def x_deque(it, args, kwargs):
    items = it.iterate(args[0]) if args else []
    if not isinstance(items, list) or arg(args, kwargs, 1, "maxlen") is not None:
        return it.unk("deque")
    return it.new_list(items)


def _counts(it, ref, items, sign=1):
    for x in items:
        b = to_bdd(M.contains(it, ref, x))
        if b is not True and b is not False:
            return it.unk("Counter of symbolic items")
        M.setitem(it, ref, x, V.arith("+", M.getitem(it, ref, x) if b else F.ZERO, F.const(sign)))
    return None


@ext("collections.Counter")
def x_counter(it, args, kwargs):
    r = it.new_dict({}, ("defaultdict", M.builtin("int")))
    if args:
        c = it.cell(args[0]) if isinstance(args[0], Ref) else None
        if isinstance(c, DictC):
            it.put(r, DictC(dict(c.d), it.cell(r).kind), note=False)
            return r
        items = it.iterate(args[0])
        if not isinstance(items, list):
            return it.unk("Counter")
        u = _counts(it, r, items)
        if u is not None:
            return u
    return r


# ================================================================ list / tuple / dict / set methods

@meth(ListC, "append")
def l_append(it, o, args, kwargs):
    M.list_append(it, o, args[0])


@meth(ListC, "appendleft")
def l_appendleft(it, o, args, kwargs):
    c = it.cell(o)
    it.put(o, ListC((args[0],) + c.items))


@meth(ListC, "extendleft")
def l_extendleft(it, o, args, kwargs):
    c = it.cell(o)
    it.put(o, ListC(tuple(reversed(it.iterate(args[0]))) + c.items))


@meth(ListC, "popleft")
def l_popleft(it, o, args, kwargs):
    return it.call(Method(o, "pop"), [F.ZERO], {})


@meth(ListC, "rotate")
def l_rotate(it, o, args, kwargs):
    c = it.cell(o)
    n = const_int(narrow(args[0])) if args else 1
    if n is None:
        raise Limit("rotation by a symbolic number")
    x = list(c.items)
    n = n % len(x) if x else 0
    it.put(o, ListC(x[len(x) - n:] + x[:len(x) - n]))


@meth(ListC, "tolist", "to_list", "to_numpy")
def l_tolist(it, o, args, kwargs):
    return it.new_list(it.cell(o).items)


@meth(DictC, "most_common")
def d_most_common(it, o, args, kwargs):
    d = it.cell(o).d
    rows = sort_items(it, [(k, v) for k, v in d.items()], Native("count", lambda it, a, k: a[0][1]), True)
    if isinstance(rows, Unk):
        return rows
    n = const_int(narrow(args[0])) if args and args[0] is not None else len(rows)
    return it.new_list(rows[:n])


@meth(DictC, "elements")
def d_elements(it, o, args, kwargs):
    return it.alloc(IterC([k for k, v in it.cell(o).d.items() for _ in range(const_int(v))]))


@meth(ListC, "extend")
def l_extend(it, o, args, kwargs):
    items = it.iterate(args[0], lazy=True)
    if isinstance(items, Unk):
        it.put(o, items)
        return None
    c = it.cell(o)
    it.put(o, ListC(c.items + tuple(items if isinstance(items, list) else items.items)))


@meth(ListC, "insert")
def l_insert(it, o, args, kwargs):
    c = it.cell(o)
    i = const_int(narrow(args[0]))
    if i is None or any(isinstance(x, Gitem) or it.is_part(x) for x in c.items) and i != 0:
        raise Limit("insert at a symbolic position")
    x = list(c.items)
    x.insert(i, args[1])
    it.put(o, ListC(x))


@meth(ListC, "copy")
def l_copy(it, o, args, kwargs):
    return it.new_list(it.cell(o).items)


@meth(ListC, "clear")
def l_clear(it, o, args, kwargs):
    it.put(o, ListC(()))


@meth(ListC, "reverse")
def l_reverse(it, o, args, kwargs):
    c = it.cell(o)
    if any(it.is_part(x) for x in c.items):
        r = it.loop_hook.reversed(it, S.Seq(c.items))
        it.put(o, ListC(it.cell(r).items))
        return
    it.put(o, ListC(c.items[::-1]))


@meth(ListC, "pop")
def l_pop(it, o, args, kwargs):
    c = it.cell(o)
    i = const_int(narrow(args[0])) if args else -1
    if i is None:
        raise Limit("pop at a symbolic position")
    items = c.items
    if any(isinstance(x, Gitem) for x in items):
        f = M.flatten_gitems(it, items)
        if f is None:
            raise Limit("pop from a sequence with guarded items")
        items = tuple(f)
    if any(it.is_part(x) for x in items):
        raise Limit("pop from a sequence of unknown length")
    if not items:
        it.raise_exc("IndexError", "pop from empty list")
    i = M.norm_index(it, i, len(items))
    it.put(o, ListC(items[:i] + items[i + 1:]))
    return items[i]


@meth(ListC, "remove")
def l_remove(it, o, args, kwargs):
    c = it.cell(o)
    x = args[0]
    out = []
    gone = False          # guard: already removed one
    for y in c.items:
        if it.is_part(y):
            raise Limit("remove from a sequence of unknown length")
        g, v = (y.g, y.v) if isinstance(y, Gitem) else (True, y)
        e = to_bdd(M.equals(it, v, x))
        if isinstance(e, Unk):
            raise Limit("remove of an unknown value")
        hit = G.AND(g, e, G.NOT(gone))
        keep = G.AND(g, G.NOT(hit))
        gone = G.OR(gone, hit)
        if keep is False or G.AND(keep, it.st.pc) is False:
            continue
        out.append(v if G.implies(it.st.pc, keep) else Gitem(keep, v))
    it.raise_exc("ValueError", "list.remove(x): x not in list", guard=G.NOT(gone))
    it.put(o, ListC(out))


@meth((ListC, tuple), "index")
def l_index(it, o, args, kwargs):
    items = it.iterate(o)
    if not isinstance(items, list):
        return it.unk("index")
    alts = []
    left = True
    for i, y in enumerate(items):
        e = to_bdd(M.equals(it, y, args[0]))
        if isinstance(e, Unk):
            return e
        alts.append((G.AND(left, e), F.const(i)))
        left = G.AND(left, G.NOT(e))
    it.raise_exc("ValueError", "not in list", guard=left)
    return mk_phi(alts)


@meth((ListC, tuple), "count")
def l_count(it, o, args, kwargs):
    items = it.iterate(o)
    if not isinstance(items, list):
        return it.unk("count")
    n = F.ZERO
    for y in items:
        e = to_bdd(M.equals(it, y, args[0]))
        if isinstance(e, Unk):
            return e
        n = V.arith("+", n, mk_phi([(e, F.ONE), (G.NOT(e), F.ZERO)]))
    return n


@meth(ListC, "sort")
def l_sort(it, o, args, kwargs):
    items = it.iterate(o)
    if isinstance(items, Unk) or not isinstance(items, list):
        raise Limit("sort of an unknown sequence")
    r = sort_items(it, items, kwargs.get("key"), it.truth(kwargs.get("reverse", False)) is True)
    it.put(o, r if isinstance(r, Unk) else ListC(r))


@meth((DictC, TableC), "keys")
def d_keys(it, o, args, kwargs):
    return it.alloc(ListC(it.iterate(o, lazy=True)))


@meth(DictC, "values")
def d_values(it, o, args, kwargs):
    c = it.cell(o)
    out = []
    for v in c.d.values():
        g = M.present(v)
        if G.AND(g, it.st.pc) is False:
            continue
        w = M.drop_undef(v) if g is not True else v
        out.append(w if G.implies(it.st.pc, g) else Gitem(g, w))
    return it.new_list(out)


@meth(DictC, "items")
def d_items(it, o, args, kwargs):
    c = it.cell(o)
    out = []
    for k, v in c.d.items():
        g = M.present(v)
        if G.AND(g, it.st.pc) is False:
            continue
        w = M.drop_undef(v) if g is not True else v
        out.append((k, w) if G.implies(it.st.pc, g) else Gitem(g, (k, w)))
    return it.new_list(out)


@meth(DictC, "get")
def d_get(it, o, args, kwargs):
    default = arg(args, kwargs, 1, "default")
    b = to_bdd(M.contains(it, o, args[0]))
    if isinstance(b, Unk):
        return b
    return it.fork_join([(b, lambda: M.getitem(it, o, args[0])), (G.NOT(b), lambda: default)])


@meth(TableC, "get")
def t_get(it, o, args, kwargs):
    return M.getitem(it, o, args[0])


@meth(DictC, "setdefault")
def d_setdefault(it, o, args, kwargs):
    default = arg(args, kwargs, 1, "default")
    b = to_bdd(M.contains(it, o, args[0]))

    def miss():
        M.setitem(it, o, args[0], default)
        return default
    return it.fork_join([(b, lambda: M.getitem(it, o, args[0])), (G.NOT(b), miss)])


@meth(DictC, "popitem")
def d_popitem(it, o, args, kwargs):
    c = it.cell(o)
    if not c.d:
        it.raise_exc("KeyError", "popitem(): dictionary is empty")
    k = list(c.d)[-1]
    v = c.d[k]
    if M.present(v) is not True:
        return it.unk("popitem of keys under conditions")
    it.put(o, DictC({q: x for q, x in c.d.items() if q != k}, c.kind))
    return (k, v)


@meth(DictC, "update")
def d_update(it, o, args, kwargs):
    d = dict(it.cell(o).d)
    if args:
        r = b_dict(it, [args[0]], {})
        if isinstance(r, Unk):
            it.put(o, r)
            return
        d.update(it.cell(r).d)
    d.update(kwargs)
    it.put(o, DictC(d, it.cell(o).kind))


@meth(DictC, "pop")
def d_pop(it, o, args, kwargs):
    b = to_bdd(M.contains(it, o, args[0]))
    if isinstance(b, Unk):
        raise Limit("pop of an unknown key")

    def hit():
        v = M.getitem(it, o, args[0])
        M.delitem(it, o, args[0])
        return v

    def miss():
        if len(args) > 1:
            return args[1]
        it.raise_exc("KeyError", args[0])
    return it.fork_join([(b, hit), (G.NOT(b), miss)])


@meth(DictC, "copy")
def d_copy(it, o, args, kwargs):
    c = it.cell(o)
    return it.new_dict(c.d, c.kind)


@meth(DictC, "clear")
def d_clear(it, o, args, kwargs):
    it.put(o, DictC({}, it.cell(o).kind))


BUILTIN_FNS["str.maketrans"] = lambda it, a, k: STR.maketrans(it, a)
BUILTIN_FNS["dict.fromkeys"] = lambda it, a, k: it.new_dict({M.key(it, x): (a[1] if len(a) > 1 else None) for x in it.iterate(a[0])})


@meth(SetC, "add")
def s_add(it, o, args, kwargs):
    M.set_add(it, o, args[0])


@meth(SetC, "discard", "remove")
def s_discard(it, o, args, kwargs):
    c = it.cell(o)
    k = M.key(it, args[0])
    it.put(o, SetC({x: g for x, g in c.d.items() if x != k}, c.frozen))


@meth(SetC, "copy")
def s_copy(it, o, args, kwargs):
    return it.alloc(it.cell(o))


def _setop(op):
    def f(it, o, args, kwargs):
        r = o
        for a in args:
            s = b_set(it, [a], {})
            if isinstance(s, Unk):
                return s
            r = M.set_op(it, op, it.cell(r), it.cell(s))
        return r
    return f


METHOD_FNS[(SetC, "union")] = _setop("|")
METHOD_FNS[(SetC, "intersection")] = _setop("&")
METHOD_FNS[(SetC, "difference")] = _setop("-")


@meth(SetC, "issubset")
def s_issubset(it, o, args, kwargs):
    s = b_set(it, [args[0]], {})
    cb = it.cell(s)
    return mk_bool(G.AND(*[G.OR(G.NOT(g), cb.d.get(k, False)) for k, g in it.cell(o).d.items()]))


@meth(SetC, "update")
def s_update(it, o, args, kwargs):
    r = _setop("|")(it, o, args, kwargs)
    it.put(o, it.cell(r))


# scalar methods
METHOD_FNS[(Form, "is_integer")] = lambda it, o, a, k: is_integer(it, o)
METHOD_FNS[(Form, "item")] = lambda it, o, a, k: o
METHOD_FNS[(Form, "conjugate")] = lambda it, o, a, k: o
METHOD_FNS[(Form, "copy")] = lambda it, o, a, k: o
METHOD_FNS[(Form, "tolist")] = lambda it, o, a, k: o
METHOD_FNS[(Form, "astype")] = lambda it, o, a, k: o
METHOD_FNS[(Form, "sum")] = lambda it, o, a, k: o
METHOD_FNS[(Form, "max")] = METHOD_FNS[(Form, "min")] = lambda it, o, a, k: o
METHOD_FNS[(Form, "__float__")] = lambda it, o, a, k: o
METHOD_FNS[(Form, "__abs__")] = lambda it, o, a, k: absv(o)
METHOD_FNS[(Form, "round")] = lambda it, o, a, k: b_round(it, [o] + list(a), k)
METHOD_FNS[(Form, "reshape")] = lambda it, o, a, k: a_reshape_arr(it, to_array(it, o), a)


# ================================================================ numpy

def where1(m, p, q):
    b = to_bdd(m) if not isinstance(m, Form) else G.NOT(G.eq0(m))
    if isinstance(b, Unk):
        return b
    return mk_phi([(b, p), (G.NOT(b), q)])


def np_elem(*names):
    def deco(f):
        import inspect
        try:
            arity = len(inspect.signature(f).parameters)
        except (TypeError, ValueError):
            arity = 9

        def run(it, args, kwargs):
            if len(args) == arity + 1:
                kwargs = {**kwargs, "out": args[-1]}
                args = args[:-1]
            if isinstance(kwargs.get("out"), tuple) and len(kwargs["out"]) == 1:
                kwargs = {**kwargs, "out": kwargs["out"][0]}
            if kwargs.get("out") is not None or kwargs.get("where", True) is not True:
                r = run(it, args, {})
                if isinstance(r, Unk):
                    return r
                out = kwargs.get("out")
                if kwargs.get("where", True) is not True:
                    if out is None:
                        return it.unk("where= of a numpy function")
                    cols = [to_array(it, narrow(v)) for v in (kwargs["where"], r, out)]
                    u = has_unk(*cols)
                    if u:
                        return u
                    r = wrap_arr(it, emap(where1, *cols))
                M.setitem(it, out, Ellipsis, r)
                return out
            xs = [narrow(a) for a in args]
            u = has_unk(*xs)
            if u:
                return u
            if all(is_scalar(x) for x in xs):
                return f(*xs)
            for x in xs:
                if isinstance(x, Opaque) and not is_scalar(x):
                    return it.unk("numpy function of an opaque value")
            arrs = [to_array(it, x) for x in xs]
            u = has_unk(*arrs)
            if u:
                return u
            proto = next((x for x in xs if isinstance(x, Ref) and isinstance(it.cell(x), SeriesC)), None)
            try:
                r = emap(lambda *ys: f(*ys), *arrs)
            except ValueError:
                it.raise_exc("ValueError", "operands could not be broadcast together")
            return like(it, proto, r) if proto is not None else wrap_arr(it, r)
        for n in names:
            EXT_FNS["numpy." + n] = run
            EXT_FNS.setdefault("math." + n, run)
        return f
    return deco


np_elem("cos")(s_cos)
np_elem("sin")(s_sin)
np_elem("tan")(s_tan)
np_elem("sqrt")(s_sqrt)
np_elem("radians", "deg2rad")(s_rad)
np_elem("degrees", "rad2deg")(s_deg)
np_elem("abs", "absolute", "fabs")(absv)
np_elem("square")(s_sq)
np_elem("negative")(lambda x: V.arith("*", F.const(-1), x))
np_elem("reciprocal")(lambda x: V.arith("/", F.ONE, x))
np_elem("add")(lambda x, y: V.arith("+", x, y))
np_elem("subtract")(lambda x, y: V.arith("-", x, y))
np_elem("multiply")(lambda x, y: V.arith("*", x, y))
np_elem("divide", "true_divide")(lambda x, y: V.arith("/", x, y))
np_elem("power", "pow", "float_power")(lambda x, y: V.arith("**", x, y))
np_elem("maximum", "fmax")(lambda x, y: pick2(x, y, ">"))
np_elem("minimum", "fmin")(lambda x, y: pick2(x, y, "<"))
np_elem("less")(lambda x, y: mk_b(clift(lambda p, q: V.compare("<", p, q), x, y)))
np_elem("greater")(lambda x, y: mk_b(clift(lambda p, q: V.compare(">", p, q), x, y)))
np_elem("logical_not")(lambda x: mk_bool(G.NOT(to_bdd(x))))
np_elem("logical_and")(lambda x, y: mk_bool(G.AND(to_bdd(x), to_bdd(y))))
np_elem("logical_or")(lambda x, y: mk_bool(G.OR(to_bdd(x), to_bdd(y))))
np_elem("sign")(lambda x: V.lift(lambda v: mk_phi([(G.lt0(v), F.const(-1)), (G.eq0(v), F.ZERO), (G.gt0(v), F.ONE)]), V._num(x)))
np_elem("isnan")(lambda x: V.lift(lambda v: False if isinstance(v, Form) and v != M.EXT_CONST["numpy.nan"]() else True, V._num(x)))
np_elem("isinf")(lambda x: V.lift(lambda v: isinstance(v, Form) and any(a.kind in ("div0",) or a.args[:1] == ("inf",) for a in v.atoms()), V._num(x)))
np_elem("isfinite")(lambda x: V.lift(lambda v: not any(a.kind in ("div0",) or a.args[:1] == ("inf",) for a in v.atoms()) if isinstance(v, Form) else True, V._num(x)))
EXT_FNS["numpy.float64"] = EXT_FNS["numpy.double"] = b_float
EXT_FNS["numpy.int64"] = EXT_FNS["numpy.int32"] = b_int
FLOATS = {"float", "float64", "f8", "d", "<f8", "double", "longdouble", "object", "O"}
INTS = {"int", "int64", "int32", "int16", "int8", "i8", "i4", "i", "intp", "uint", "uint64", "uint32", "uint8", "l"}
SINGLES = {"float32", "float16", "f4", "f2", "f", "e", "single", "half"}


def single(it, v):
    """a number of reduced precision: small whole numbers are exact"""
    def one(x):
        x = V._opaque_num(V._num(x))
        if not isinstance(x, Form):
            return x
        c = x.const()
        if c is not None and c.denominator <= 1024 and (c.denominator & (c.denominator - 1)) == 0 and abs(c) <= 1024:
            return x
        return F.atom_form(F.Atom("float32", x))
    return V.lift(one, V._num(v)) if is_scalar(v) else v


EXT_FNS["numpy.float32"] = EXT_FNS["numpy.float16"] = lambda it, a, k: single(it, b_float(it, a, k))


def dtype_name(dt):
    if dt is None or isinstance(dt, str):
        return dt
    n = dt.name if isinstance(dt, Builtin) else dt.path if isinstance(dt, Ext) else None
    return n.split(".")[-1] if n else "?"


def cast(it, a, dt):
    """the elements of an array converted to an element type"""
    n = dtype_name(narrow(dt))
    if n is None or isinstance(a, Unk):
        return a
    if n in FLOATS or n in SINGLES:
        a = emap(lambda x: b_float(it, [x], {}) if isinstance(x, (str, StrV)) or x is None and n != "object" else x, a)
        return emap(lambda x: single(it, x), a) if n in SINGLES else a
    if n in INTS:
        return emap(lambda x: to_int(it, x), a)
    if n in ("bool", "bool_"):
        return emap(lambda x: M.truth(it, x), a)
    return it.unk(f"conversion to {n}")


@ext("numpy.array", "numpy.asarray", "numpy.asfarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.matrix")
def np_array(it, args, kwargs):
    v = narrow(args[0])
    a = to_array(it, v)
    if isinstance(a, Unk):
        return a
    dt = narrow(arg(args, kwargs, 1, "dtype"))
    a = cast(it, a, dt)
    if isinstance(a, Unk):
        return a
    if get_arr(it, v) is not None and isinstance(it.cell(v), (ArrC, ViewC)):
        return it.new_arr(a.copy())
    if a.shape == ():
        return it.new_arr(a.copy())
    return it.new_arr(a)


def asarray_alias(it, args, kwargs):
    v = narrow(args[0])
    if isinstance(v, Ref) and isinstance(it.cell(v), (ArrC, ViewC)) and not arg(args, kwargs, 1, "dtype"):
        return v
    return np_array(it, args, kwargs)


for _n in ("asarray", "asanyarray", "ascontiguousarray"):
    EXT_FNS["numpy." + _n] = asarray_alias


def shape_of(it, v):
    v = narrow(v)
    if is_scalar(v):
        n = const_int(v)
        return None if n is None else (n,)
    items = it.iterate(v)
    if not isinstance(items, list):
        return None
    r = tuple(const_int(narrow(x)) if is_scalar(narrow(x)) else None for x in items)
    return None if any(x is None for x in r) else r


def filled(it, shape, val):
    if shape is None:
        return it.unk("array of symbolic shape")
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = val
    return it.new_arr(a)


EXT_FNS["numpy.zeros"] = EXT_FNS["numpy.empty"] = lambda it, a, k: filled(it, shape_of(it, arg(a, k, 0, "shape")), F.ZERO)
EXT_FNS["numpy.ones"] = lambda it, a, k: filled(it, shape_of(it, arg(a, k, 0, "shape")), F.ONE)
EXT_FNS["numpy.full"] = lambda it, a, k: filled(it, shape_of(it, arg(a, k, 0, "shape")), arg(a, k, 1, "fill_value"))


def _like(val):
    def f(it, a, k):
        x = to_array(it, a[0])
        if isinstance(x, Unk):
            return x
        return filled(it, x.shape, val if val is not None else a[1])
    return f


EXT_FNS["numpy.zeros_like"] = EXT_FNS["numpy.empty_like"] = _like(F.ZERO)
EXT_FNS["numpy.ones_like"] = _like(F.ONE)
EXT_FNS["numpy.full_like"] = _like(None)


@ext("numpy.eye", "numpy.identity")
def np_eye(it, args, kwargs):
    n = const_int(narrow(args[0]))
    m = const_int(narrow(args[1])) if len(args) > 1 and args[1] is not None else n
    if n is None or m is None:
        return it.unk("eye of symbolic size")
    a = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            a[i, j] = F.ONE if i == j else F.ZERO
    return it.new_arr(a)


def norm(a):
    if isinstance(a, np.ndarray):
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            x = a[i]
            r[i] = V._num(x) if isinstance(x, (int, float, F.Fraction, np.number)) and not isinstance(x, bool) else x
        return r
    return V._num(a) if isinstance(a, (int, float, np.number)) and not isinstance(a, bool) else a


def py_arg(it, v):
    """argument for a structural numpy function: arrays stay arrays, numbers become python numbers"""
    v = narrow(v)
    if isinstance(v, Unk):
        raise _Unk(v)
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, Form):
        c = v.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return v
    if is_scalar(v):
        return v
    if isinstance(v, SliceV):
        return M.slice_py(v)
    a = get_arr(it, v)
    if a is not None:
        return a
    if isinstance(v, (tuple, Ref)):
        items = it.iterate(v)
        if isinstance(items, Unk):
            raise _Unk(items)
        if not isinstance(items, list):
            raise _Unk(it.unk("numpy function of a sequence of unknown length"))
        return [py_arg(it, x) for x in items]
    if isinstance(v, Phi):
        return to_array(it, v)
    raise _Unk(it.unk(f"numpy argument {v!r}"))


class _Unk(Exception):
    def __init__(self, u):
        self.u = u


def obj(x):
    """python nested lists -> object arrays (numbers to forms)"""
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, list):
        parts = [obj(y) for y in x]
        if all(isinstance(p, np.ndarray) for p in parts):
            if len({p.shape for p in parts}) == 1:
                r = np.empty((len(parts),) + parts[0].shape, dtype=object)
                for i, p in enumerate(parts):
                    r[i] = p
                return r
            return parts
        r = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            r[i] = p
        return r
    if isinstance(x, (int, float, F.Fraction)) and not isinstance(x, bool):
        return F.form(x)
    return x


def structural(names, fn):
    def run(it, args, kwargs):
        try:
            a = [py_arg(it, x) for x in args]
            k = {n: py_arg(it, x) for n, x in kwargs.items() if n != "dtype"}
        except _Unk as e:
            return e.u
        try:
            r = fn(*a, **k)
        except (ValueError, IndexError, np.exceptions.AxisError) as e:
            it.raise_exc("ValueError", str(e))
        except TypeError as e:
            return it.unk(f"numpy call: {e}")
        return out_np(it, r)
    for n in names:
        EXT_FNS["numpy." + n] = run
    return run


def out_np(it, r):
    if isinstance(r, np.ndarray):
        return wrap_arr(it, norm(r)) if r.shape != () else norm(r[()])
    if isinstance(r, tuple):
        return tuple(out_np(it, x) for x in r)
    if isinstance(r, list):
        return it.new_list([out_np(it, x) for x in r])
    return norm(r)


def seqof(x):
    return [np.asarray(obj(y), dtype=object) if not isinstance(obj(y), list) else obj(y) for y in x]


structural(["vstack", "row_stack"], lambda x, **k: np.vstack(seqof(x)))
structural(["hstack"], lambda x, **k: np.hstack(seqof(x)))
structural(["dstack"], lambda x, **k: np.dstack(seqof(x)))
structural(["column_stack"], lambda x, **k: np.column_stack(seqof(x)))
structural(["concatenate"], lambda x, axis=0, **k: np.concatenate(seqof(x), axis=axis))
structural(["stack"], lambda x, axis=0, **k: np.stack(seqof(x), axis=axis))
structural(["reshape"], lambda x, s, **k: np.reshape(obj(x), s))
structural(["ravel"], lambda x: np.ravel(obj(x)).copy())
structural(["transpose"], lambda x, axes=None: np.transpose(obj(x), axes).copy())
structural(["swapaxes"], lambda x, a, b: np.swapaxes(obj(x), a, b).copy())
structural(["moveaxis"], lambda x, a, b: np.moveaxis(obj(x), a, b).copy())
structural(["flip"], lambda x, axis=None: np.flip(obj(x), axis).copy())
structural(["flipud"], lambda x: np.flipud(obj(x)).copy())
structural(["fliplr"], lambda x: np.fliplr(obj(x)).copy())
structural(["roll"], lambda x, s, axis=None: np.roll(obj(x), s, axis))
structural(["tile"], lambda x, r: np.tile(np.asarray(obj(x), dtype=object), r))
structural(["repeat"], lambda x, r, axis=None: np.repeat(np.asarray(obj(x), dtype=object), r, axis=axis))
structural(["squeeze"], lambda x, axis=None: np.squeeze(obj(x), axis))
structural(["expand_dims"], lambda x, axis: np.expand_dims(obj(x), axis))
structural(["atleast_1d"], lambda x: np.atleast_1d(np.asarray(obj(x), dtype=object)))
structural(["atleast_2d"], lambda x: np.atleast_2d(np.asarray(obj(x), dtype=object)))
structural(["diag"], lambda x, k=0: diag_(obj(x), k))
structural(["append"], lambda x, v, axis=None: np.append(obj(x), np.asarray(obj(v), dtype=object), axis))
structural(["insert"], lambda x, i, v, axis=None: np.insert(obj(x), i, obj(v), axis))
structural(["delete"], lambda x, i, axis=None: np.delete(obj(x), i, axis))
structural(["kron"], lambda a, b: kron_(obj(a), obj(b)))
structural(["outer", "multiply.outer"], lambda a, b: np.multiply.outer(np.ravel(obj(a)), np.ravel(obj(b))))
structural(["inner", "vdot"], lambda a, b: np.dot(obj(a), obj(b)) if obj(a).ndim == 1 else np.inner(obj(a), obj(b)))
structural(["trace"], lambda a: np.trace(obj(a)))
structural(["tensordot"], lambda a, b, axes=2: np.tensordot(obj(a), obj(b), axes))
structural(["cumsum"], lambda a, axis=None: np.cumsum(obj(a), axis=axis))
structural(["cumprod"], lambda a, axis=None: np.cumprod(obj(a), axis=axis))
structural(["prod"], lambda a, axis=None: np.prod(obj(a), axis=axis))
structural(["diff"], lambda a, n=1, axis=-1: np.diff(obj(a), n, axis))
structural(["meshgrid"], lambda *a, indexing="xy", **k: [x.copy() for x in np.meshgrid(*[np.asarray(obj(y), dtype=object) for y in a], indexing=indexing)])
structural(["block"], lambda x: np.block([seqof(r) for r in x] if isinstance(x[0], list) else seqof(x)))
structural(["einsum"], lambda s, *a, **k: np.einsum(s, *[np.asarray(obj(y), dtype=object) for y in a]))
structural(["triu"], lambda a, k=0: tri_(obj(a), k, True))
structural(["tril"], lambda a, k=0: tri_(obj(a), k, False))
structural(["broadcast_to"], lambda a, s: np.broadcast_to(np.asarray(obj(a), dtype=object), s).copy())
structural(["copy"], lambda a: obj(a).copy())
structural(["take"], lambda a, i, axis=None: np.take(obj(a), i, axis))
structural(["shape"], lambda a: tuple(np.shape(obj(a))))
structural(["size"], lambda a: int(np.size(obj(a))))
structural(["ndim"], lambda a: int(np.ndim(obj(a))))
structural(["split", "array_split"], lambda a, n, axis=0: [x.copy() for x in np.array_split(obj(a), n, axis)])
structural(["rot90"], lambda a, k=1: np.rot90(obj(a), k).copy())
structural(["cross"], lambda a, b: np.array([obj(a)[1] * obj(b)[2] - obj(a)[2] * obj(b)[1], obj(a)[2] * obj(b)[0] - obj(a)[0] * obj(b)[2], obj(a)[0] * obj(b)[1] - obj(a)[1] * obj(b)[0]], dtype=object))
structural(["polyval"], lambda p, x: polyval_(obj(p), x))
structural(["ix_"], lambda *a: tuple(np.ix_(*[np.array(x, dtype=int) for x in a])))


def polyval_(p, x):
    r = F.ZERO
    for c in p:
        r = r * x + c
    return r


def diag_(x, k):
    if x.ndim == 1:
        n = len(x) + abs(k)
        r = np.empty((n, n), dtype=object)
        r[...] = F.ZERO
        for i, v in enumerate(x):
            r[(i, i + k) if k >= 0 else (i - k, i)] = v
        return r
    return np.diag(x, k).copy()


def tri_(a, k, up):
    r = a.copy()
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if (j - i < k) if up else (j - i > k):
                r[i, j] = F.ZERO
    return r


def kron_(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return np.multiply.outer(a, b).ravel()
    r = np.multiply.outer(a, b)
    return r.transpose(0, 2, 1, 3).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def reduce_axis(it, a, axis, fn):
    if axis is None:
        items = list(a.flat)
        return fn(items)
    ax = axis % a.ndim
    m = np.moveaxis(a, ax, -1)
    r = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = fn(list(m[i]))
    return wrap_arr(it, r)


def red(fn):
    def run(it, args, kwargs):
        v = narrow(args[0])
        if isinstance(v, Unk):
            return v
        if isinstance(v, Ref) and isinstance(it.cell(v), (ListC, IterC)) and any(it.is_part(x) for x in it.cell(v).items):
            return it.unk("reduction over a sequence of unknown length")
        a = to_array(it, v)
        if isinstance(a, Unk):
            return a
        ax = narrow(arg(args, kwargs, 1, "axis"))
        if isinstance(ax, tuple):
            return it.unk("reduction over several axes")
        axis = None if ax is None else const_int(ax)
        if a.size == 0 and fn is not _sum:
            it.raise_exc("ValueError", "zero-size array to reduction operation")
        return reduce_axis(it, a, axis, fn)
    return run


def _sum(items):
    r = F.ZERO
    for x in items:
        r = V.arith("+", r, x)
    return r


def _mean(items):
    return V.arith("/", _sum(items), F.const(len(items)))


EXT_FNS["numpy.sum"] = red(_sum)
EXT_FNS["numpy.nansum"] = red(_sum)
EXT_FNS["numpy.mean"] = red(_mean)
EXT_FNS["numpy.max"] = EXT_FNS["numpy.amax"] = red(maxv)
EXT_FNS["numpy.min"] = EXT_FNS["numpy.amin"] = red(minv)


def _argext(op):
    def f(items):
        best, bi_ = items[0], F.ZERO
        for i, x in enumerate(items[1:], 1):
            b = to_bdd(V.clift(lambda p, q: V.compare(op, p, q), V._num(x), V._num(best)))
            if isinstance(b, Unk):
                return b
            best, bi_ = mk_phi([(b, x), (G.NOT(b), best)]), mk_phi([(b, F.const(i)), (G.NOT(b), bi_)])
        return bi_
    return f


EXT_FNS["numpy.argmax"] = red(_argext(">"))
EXT_FNS["numpy.argmin"] = red(_argext("<"))


@ext("numpy.sort")
def np_sort(it, args, kwargs):
    a = to_array(it, args[0])
    if isinstance(a, Unk):
        return a
    if a.ndim != 1:
        return it.unk("sort of a matrix")
    r = sort_items(it, list(a))
    if isinstance(r, Unk):
        return r
    b = np.empty(len(r), dtype=object)
    b[:] = r
    return it.new_arr(b)


@ext("numpy.argsort")
def np_argsort(it, args, kwargs):
    a = to_array(it, args[0])
    if isinstance(a, Unk) or a.ndim != 1:
        return it.unk("argsort")
    if all(isinstance(x, Form) and x.const() is not None for x in a):
        o = sorted(range(len(a)), key=lambda i: a[i].const())
        b = np.empty(len(o), dtype=object)
        b[:] = [F.const(i) for i in o]
        return it.new_arr(b)
    return argsort_sym(it, list(a))


def argsort_sym(it, items):
    n = len(items)
    if n > 5:
        return it.unk("argsort of many symbolic numbers")
    pairs = [(V._num(x), F.const(i)) for i, x in enumerate(items)]
    for i in range(n):
        for j in range(n - 1 - i):
            p, q = pairs[j], pairs[j + 1]
            b = to_bdd(V.clift(lambda x, y: V.compare(">", x, y), p[0], q[0]))
            if isinstance(b, Unk):
                return b
            pairs[j] = tuple(mk_phi([(b, y), (G.NOT(b), x)]) for x, y in zip(p, q))
            pairs[j + 1] = tuple(mk_phi([(b, x), (G.NOT(b), y)]) for x, y in zip(p, q))
    r = np.empty(n, dtype=object)
    r[:] = [p[1] for p in pairs]
    return it.new_arr(r)


@ext("numpy.where")
def np_where(it, args, kwargs):
    if len(args) != 3:
        return np_nonzero(it, args, kwargs)
    c, x, y = [to_array(it, a) for a in args]
    u = has_unk(c, x, y)
    if u:
        return u
    return wrap_arr(it, emap(where1, c, x, y))


def truths(it, v):
    """the condition under which each element counts as true"""
    a = to_array(it, narrow(v))
    if isinstance(a, Unk):
        return a
    return emap(lambda m: to_bdd(m) if not isinstance(m, Form) else G.NOT(G.eq0(m)), np.asarray(a, dtype=object))


@ext("numpy.nonzero")
def np_nonzero(it, args, kwargs):
    t = truths(it, args[0])
    if isinstance(t, Unk):
        return t
    t = emap(lambda g: g if isinstance(g, Unk) else G.restrict(g, it.st.pc), t)
    if has_unk(*t.ravel()):
        return has_unk(*t.ravel())
    combos = [(it.st.pc, [])]
    for g in t.ravel():
        combos = [(w, b + [val]) for p, b in combos for w, val in ((G.AND(p, g), True), (G.AND(p, G.NOT(g)), False)) if w is not False]
        if len(combos) > 64:
            return it.unk("positions of the elements which are not zero")
    outs = []
    for p, b in combos:
        p = G.restrict(p, it.st.pc)
        idx = np.nonzero(np.array(b, dtype=bool).reshape(t.shape))
        outs.append((p, tuple(wrap_arr(it, emap(lambda v: F.const(int(v)), np.array(i, dtype=object))) for i in idx)))
    if len(outs) == 1:
        return outs[0][1]
    if len({r[0] is not None and len(get_arr(it, r[0])) for _, r in outs}) == 1:     # as many in every case
        return tuple(it.new_arr(emap(lambda *vs: mk_phi([(p, v) for (p, _), v in zip(outs, vs)]), *[get_arr(it, r[k]) for _, r in outs])) for k in range(t.ndim))
    return mk_phi(outs)


@ext("numpy.flatnonzero")
def np_flatnonzero(it, args, kwargs):
    r = np_nonzero(it, [it.call(Ext("numpy.ravel"), [args[0]], {})], {})
    return r if isinstance(r, Unk) else it.fork_join([(g, (lambda v=v: v[0])) for g, v in r.alts]) if isinstance(r, Phi) else r[0]


@ext("numpy.count_nonzero")
def np_count_nonzero(it, args, kwargs):
    t = truths(it, args[0])
    if isinstance(t, Unk):
        return t
    u = has_unk(*t.ravel())
    if u or kwargs or len(args) > 1:
        return u or it.unk("count_nonzero along an axis")
    r = F.ZERO
    for g in t.ravel():
        r = V.arith("+", r, mk_phi([(g, F.ONE), (G.NOT(g), F.ZERO)]))
    return r


@ext("numpy.select")
def np_select(it, args, kwargs):
    conds = [to_array(it, c) for c in it.iterate(args[0])]
    vals = [to_array(it, c) for c in it.iterate(args[1])]
    d = to_array(it, arg(args, kwargs, 2, "default", F.ZERO))
    u = has_unk(d, *conds, *vals)
    if u:
        return u
    r = d
    for c, v in reversed(list(zip(conds, vals))):
        r = emap(lambda m, p, q: mk_phi([(to_bdd(m), p), (G.NOT(to_bdd(m)), q)]), c, v, r)
    return wrap_arr(it, r)


@ext("numpy.clip")
def np_clip(it, args, kwargs):
    v = narrow(args[0])
    lo, hi = narrow(arg(args, kwargs, 1, "a_min")), narrow(arg(args, kwargs, 2, "a_max"))
    lo = kwargs.get("min", lo)
    hi = kwargs.get("max", hi)

    def one(x):
        if lo is not None:
            x = pick2(x, lo, ">")
        if hi is not None:
            x = pick2(x, hi, "<")
        return x
    a = to_array(it, v)
    if isinstance(a, Unk):
        return a
    return like(it, v, emap(one, a)) if a.shape else one(v)


def _close(it, a, b, rtol, atol, symmetric=False):
    """|a - b| <= atol + rtol |b| (or <= max(rtol max(|a|, |b|), atol)), as a guard"""
    a, b = narrow(a), narrow(b)
    if isinstance(a, Phi):
        return G.OR(*[G.AND(g, _close(it, x, b, rtol, atol, symmetric)) for g, x in a.alts])
    if isinstance(b, Phi):
        return G.OR(*[G.AND(g, _close(it, a, x, rtol, atol, symmetric)) for g, x in b.alts])
    x, y = V._num(a), V._num(b)
    if not isinstance(x, Form) or not isinstance(y, Form):
        return to_bdd(M.equals(it, a, b))
    d = x - y
    if d.const() == 0 or F.same(x, y):
        return True

    def within(bound):
        return G.AND(G.le0(d - bound), G.le0(F.const(-1) * d - bound))

    def rel(v):
        r = rtol * v
        return G.OR(G.AND(G.NOT(G.lt0(v)), within(r if symmetric else r + atol)), G.AND(G.lt0(v), within(F.const(-1) * r if symmetric else atol - r)))
    return G.OR(rel(x), rel(y), within(atol)) if symmetric else rel(y)


def _tol(args, kwargs, i, name, default):
    v = narrow(arg(args, kwargs, i, name, F.const(default)))
    return v if isinstance(v, Form) else None


@ext("numpy.isclose")
def np_isclose(it, args, kwargs):
    rtol, atol = _tol(args, kwargs, 2, "rtol", Fraction("1e-5")), _tol(args, kwargs, 3, "atol", Fraction("1e-8"))
    x, y = to_array(it, args[0]), to_array(it, args[1])
    u = has_unk(x, y)
    if u or rtol is None or atol is None:
        return u or it.unk("tolerance")
    r = emap(lambda p, q: mk_bool(_close(it, p, q, rtol, atol)), x, y)
    return wrap_arr(it, r) if isinstance(r, np.ndarray) and r.shape else r.reshape(-1)[0] if isinstance(r, np.ndarray) else r


@ext("numpy.allclose")
def np_allclose(it, args, kwargs):
    rtol, atol = _tol(args, kwargs, 2, "rtol", Fraction("1e-5")), _tol(args, kwargs, 3, "atol", Fraction("1e-8"))
    x, y = to_array(it, args[0]), to_array(it, args[1])
    u = has_unk(x, y)
    if u or rtol is None or atol is None:
        return u or it.unk("tolerance")
    r = True
    b = np.broadcast_arrays(x, y)
    for i in np.ndindex(*b[0].shape):
        e = _close(it, b[0][i], b[1][i], rtol, atol)
        if isinstance(e, Unk):
            return e
        r = G.AND(r, e)
    return mk_bool(r)


@ext("math.isclose")
def math_isclose(it, args, kwargs):
    rtol, atol = _tol(args, kwargs, 9, "rel_tol", Fraction("1e-9")), _tol(args, kwargs, 9, "abs_tol", 0)
    if rtol is None or atol is None:
        return it.unk("tolerance")
    r = _close(it, args[0], args[1], rtol, atol, True)
    return r if isinstance(r, Unk) else mk_bool(r)


@ext("numpy.array_equal")
def np_array_equal(it, args, kwargs):
    x, y = to_array(it, args[0]), to_array(it, args[1])
    u = has_unk(x, y)
    if u:
        return u
    if x.shape != y.shape:
        return False
    r = True
    for i in np.ndindex(*x.shape):
        e = to_bdd(M.equals(it, x[i], y[i]))
        if isinstance(e, Unk):
            return e
        r = G.AND(r, e)
    return mk_bool(r)


@ext("numpy.linspace")
def np_linspace(it, args, kwargs):
    lo, hi = V._num(narrow(args[0])), V._num(narrow(args[1]))
    n = narrow(arg(args, kwargs, 2, "num", F.const(50)))
    k = const_int(n) if is_scalar(n) else None
    if k is None:
        if it.loop_hook is not None and isinstance(n, Form):
            return it.loop_hook.linspace(it, lo, hi, n)
        return it.unk("linspace with a symbolic number of points")
    ep = it.truth(kwargs.get("endpoint", True))
    den = k - 1 if ep is True else k
    a = np.empty(k, dtype=object)
    for i in range(k):
        step = F.const(F.Fraction(i, den)) if den > 0 else F.ZERO
        a[i] = V.arith("+", lo, V.arith("*", V.arith("-", hi, lo), step))
    return it.new_arr(a)


@ext("numpy.matmul")
def np_matmul(it, args, kwargs):
    x, y = to_array(it, args[0]), to_array(it, args[1])
    u = has_unk(x, y)
    if u:
        return u
    if x.ndim == 0 or y.ndim == 0:
        return M.binop(it, "*", args[0], args[1])
    return M.matmul(it, x, y)


@ext("numpy.dot")
def np_dot(it, args, kwargs):
    x, y = to_array(it, args[0]), to_array(it, args[1])
    u = has_unk(x, y)
    if u:
        return u
    if y.ndim > 2:
        return it.call(Ext("numpy.tensordot"), [args[0], args[1]], {"axes": (F.const(x.ndim - 1), F.const(y.ndim - 2))})
    return np_matmul(it, args, kwargs)


@ext("numpy.linalg.multi_dot")
def np_multi_dot(it, args, kwargs):
    items = it.iterate(args[0])
    r = items[0]
    for x in items[1:]:
        r = np_dot(it, [r, x], {})
    return r


def det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return V.arith("-", V.arith("*", a[0, 0], a[1, 1]), V.arith("*", a[0, 1], a[1, 0]))
    r = F.ZERO
    for j in range(n):
        if isinstance(a[0, j], Form) and not a[0, j].t:
            continue
        m = np.delete(np.delete(a, 0, 0), j, 1)
        t = V.arith("*", a[0, j], det(m))
        r = V.arith("+" if j % 2 == 0 else "-", r, t)
    return r


@ext("numpy.linalg.det")
def np_det(it, args, kwargs):
    a = to_array(it, args[0])
    if isinstance(a, Unk):
        return a
    if a.shape[0] > 3:
        return it.unk("determinant of a large matrix")
    return det(a)


class MatKey:
    """matrix inside an atom"""
    __slots__ = ("a", "k")

    def __init__(self, a):
        self.a = a
        self.k = V.canon(a)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, MatKey) and self.k == o.k

    def form_atoms(self):
        s = set()
        for x in self.a.flat:
            if isinstance(x, Form):
                s |= x.atoms()
        return s

    def form_subst(self, mp):
        return MatKey(V.subst_value(self.a, mp))

    def fingerprint(self, k):
        return V.canon(self.a, k)

    def __repr__(self):
        return f"matrix{self.a.shape}"


_inv_memo = {}


def inv_mod(rows):
    n = len(rows)
    P = F.PRIME
    a = [list(r) + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(rows)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c] % P), None)
        if p is None:
            return None
        a[c], a[p] = a[p], a[c]
        iv = pow(a[c][c], P - 2, P)
        a[c] = [x * iv % P for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [(x - f * y) % P for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def _fp_minv(atom, k):
    m, i, j = atom.args
    key = (m, k)
    if key not in _inv_memo:
        n = m.a.shape[0]
        _inv_memo[key] = inv_mod([[F.fp(m.a[p, q], k) for q in range(n)] for p in range(n)])
    r = _inv_memo[key]
    if r is None:
        return F._h("singular", k, m.fingerprint(k), i, j)
    return r[i][j]


F.FP_SPECIAL["minv"] = _fp_minv


def inverse(it, a):
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        it.raise_exc("numpy.linalg.LinAlgError" if False else "ValueError", "matrix must be square")
    a = norm(a)
    if any(isinstance(x, Unk) for x in a.flat):
        return next(x for x in a.flat if isinstance(x, Unk))
    if any(isinstance(x, Phi) for x in a.flat):
        # alternatives of the whole matrix
        gs = [(True, {})]
        flat = list(np.ndindex(*a.shape))
        combos = [(it.st.pc, a.copy())]
        for ix in flat:
            if isinstance(a[ix], Phi):
                new = []
                for g, m in combos:
                    for h, v in a[ix].alts:
                        gh = G.AND(g, h)
                        if gh is not False:
                            m2 = m.copy()
                            m2[ix] = v
                            new.append((gh, m2))
                combos = new
                if len(combos) > 32:
                    return it.unk("inverse of a matrix with many alternatives")
        outs = [(g, inverse(it, m)) for g, m in combos]
        r = np.empty(a.shape, dtype=object)
        for ix in flat:
            r[ix] = mk_phi([(g, o[ix]) for g, o in outs])
        return r
    zero = [[not x.t or (F.fp(x, 0) == 0 and F.fp(x, 1) == 0) for x in row] for row in a]
    comps, left = [], set(range(n))
    while left:
        todo = [min(left)]
        comp = set()
        while todo:
            i = todo.pop()
            if i in comp:
                continue
            comp.add(i)
            todo += [j for j in range(n) if not (zero[i][j] and zero[j][i])]
        comps.append(sorted(comp))
        left -= comp
    if len(comps) > 1:
        r = np.empty((n, n), dtype=object)
        r.fill(F.ZERO)
        for comp in comps:
            b = inverse(it, a[np.ix_(comp, comp)])
            if isinstance(b, Unk):
                return b
            r[np.ix_(comp, comp)] = b
        return r
    size = sum(len(x.t) for x in a.flat)
    if n <= 3 and size <= 48:
        d = det(a)
        if isinstance(d, Form) and (len(d.t) == 1 or n < 3 or size <= 20):
            if not d.t:
                it.raise_exc("ValueError", "singular matrix")      # numpy.linalg.LinAlgError is a ValueError
            r = np.empty((n, n), dtype=object)
            if n == 1:
                r[0, 0] = V.arith("/", F.ONE, a[0, 0])
                return r
            for i in range(n):
                for j in range(n):
                    m = np.delete(np.delete(a, j, 0), i, 1)
                    c = det(m)
                    if (i + j) % 2:
                        c = -c
                    r[i, j] = V.arith("/", c, d)
            return r
    mk = MatKey(a)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            r[i, j] = F.atom_form(F.Atom("minv", mk, i, j))
    return r


@ext("numpy.linalg.pinv", "scipy.linalg.pinv")
def np_pinv(it, args, kwargs):
    """the inverse, unless small singular values are explicitly cut off"""
    a = to_array(it, args[0])
    if isinstance(a, Unk):
        return a
    cut = [narrow(x) for x in list(args[1:2]) + [v for k, v in kwargs.items() if k in ("rcond", "rtol", "cond", "tol", "atol")]]
    for c in cut:
        v = c.const() if isinstance(c, Form) else None
        if c is None or v is not None and v <= Fraction(1, 10 ** 14):
            continue
        if a.ndim != 2:
            return it.unk("pinv of a stack with a cut-off")
        key = MatKey(emap(lambda x: V._num(x), a))
        r = np.empty(a.shape[::-1], dtype=object)
        for ix in np.ndindex(*r.shape):
            r[ix] = F.atom_form(F.Atom("pinv", key, *ix))
        return it.new_arr(r)
    return np_inv(it, [args[0]], {})


@ext("numpy.linalg.inv", "scipy.linalg.inv")
def np_inv(it, args, kwargs):
    a = to_array(it, args[0])
    if isinstance(a, Unk):
        return a
    if a.ndim == 3:
        r = np.empty(a.shape, dtype=object)
        for i in range(a.shape[0]):
            x = inverse(it, a[i])
            if isinstance(x, Unk):
                return x
            r[i] = x
        return it.new_arr(r)
    r = inverse(it, a)
    return r if isinstance(r, Unk) else it.new_arr(r)


@ext("numpy.linalg.solve", "scipy.linalg.solve")
def np_solve(it, args, kwargs):
    a, b = to_array(it, args[0]), to_array(it, args[1])
    u = has_unk(a, b)
    if u:
        return u
    r = inverse(it, a)
    return r if isinstance(r, Unk) else M.matmul(it, r, b)


@ext("numpy.random.default_rng")
def np_rng(it, args, kwargs):
    seed = narrow(arg(args, kwargs, 0, "seed"))
    if seed is None:
        _Event(it, "nondeterminism", ["numpy.random.default_rng without a seed"], {})
    elif not is_scalar(seed):
        _Event(it, "nondeterminism", ["numpy.random.default_rng with an unknown seed"], {})
    return Opaque("rng", seed if seed is not None else F.const(it.next_addr))


OPAQUE_METHODS.update({"random", "standard_normal", "uniform", "normal", "integers"})


def rng_draw(it, o, args, kwargs):
    if not (isinstance(o, Opaque) and o.tag == "rng"):
        return None
    sh = shape_of(it, args[0]) if args else ()
    if sh is None:
        return it.unk("random numbers of symbolic shape")
    a = np.empty(sh, dtype=object)
    for n, i in enumerate(np.ndindex(*sh)):
        a[i] = F.atom_form(F.Atom("rand", V.OpaqueKey(o), n))
    return wrap_arr(it, a)


for _n in ("random", "standard_normal", "uniform", "normal", "integers"):
    OPAQUE_CALLS[_n] = rng_draw

for _n in ("rand", "randn", "random", "normal", "uniform", "seed", "randint", "choice", "shuffle", "permutation", "random_sample", "standard_normal"):
    def _glob(it, args, kwargs, _n=_n):
        _Event(it, "nondeterminism" if _n != "seed" else "numpy.random.seed", [f"numpy.random.{_n}"], {})
        sh = tuple(const_int(a) or 0 for a in args) if _n in ("rand", "randn") else (shape_of(it, args[0]) if args and _n != "seed" else ())
        if _n == "seed" or sh is None:
            return None
        a = np.empty(sh, dtype=object)
        for q, i in enumerate(np.ndindex(*sh)):
            a[i] = F.atom_form(F.Atom("rand", "global", len(it.events), q))
        return wrap_arr(it, a)
    EXT_FNS["numpy.random." + _n] = _glob
for _n in ("random", "uniform", "gauss", "randint", "choice", "shuffle", "seed"):
    EXT_FNS["random." + _n] = (lambda it, a, k, _n=_n: (_Event(it, "nondeterminism", [f"random.{_n}"], {}), Opaque("rand", F.const(len(it.events))))[1])

for _n in ("seterr", "set_printoptions", "seterrcall", "setbufsize", "set_string_function"):
    EXT_FNS["numpy." + _n] = (lambda it, a, k, _n=_n: (_Event(it, "numpy." + _n, a, k), None)[1])
EXT_FNS["numpy.errstate"] = lambda it, a, k: Opaque("errstate")
EXT_FNS["numpy.isscalar"] = lambda it, a, k: is_scalar(narrow(a[0])) or isinstance(narrow(a[0]), str)
EXT_FNS["numpy.iterable"] = lambda it, a, k: not (is_scalar(narrow(a[0])) or a[0] is None)


@ext("numpy.vectorize")
def np_vectorize(it, args, kwargs):
    f = args[0]

    def run(it2, a, k):
        arrs = [to_array(it2, x) for x in a]
        u = has_unk(*arrs)
        if u:
            return u
        b = np.broadcast_arrays(*arrs)
        r = np.empty(b[0].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = it2.call(f, [x[i] for x in b], {})
        return wrap_arr(it2, r)
    return Native("vectorize", run)


@ext("numpy.fromiter")
def np_fromiter(it, args, kwargs):
    return np_array(it, [b_list(it, [args[0]], {})], {})


@ext("numpy.nan_to_num")
def np_nan_to_num(it, args, kwargs):
    return it.unk("nan_to_num")


@ext("numpy.linalg.norm")
def np_norm(it, args, kwargs):
    a = to_array(it, args[0])
    o = narrow(arg(args, kwargs, 1, "ord"))
    if isinstance(a, Unk):
        return a
    if o == M.INF and a.ndim == 1:
        return maxv([absv(x) for x in a])
    if o is None:
        return s_sqrt(_sum([V.arith("*", x, x) for x in a.flat]))
    return it.unk("norm")


# ---------------------------------------------------------------- array methods
ARR = (ArrC, SeriesC)


def a_reshape_arr(it, a, args):
    sh = [narrow(x) for x in args]
    if len(sh) == 1 and not is_scalar(sh[0]):
        s = shape_of(it, sh[0])
    else:
        s = tuple(const_int(x) for x in sh)
    if s is None or any(x is None for x in s):
        return it.unk("reshape to a symbolic shape")
    try:
        return it.new_arr(a.reshape(s))
    except ValueError:
        it.raise_exc("ValueError", "cannot reshape array")


@meth(ArrC, "reshape")
def a_reshape(it, o, args, kwargs):
    c = it.cell(o)
    sh = [narrow(x) for x in args]
    if len(sh) == 1 and not is_scalar(sh[0]):
        s = shape_of(it, sh[0])
    else:
        s = tuple(const_int(x) for x in sh)
    if s is None or any(x is None for x in s):
        return it.unk("reshape to a symbolic shape")
    order = kwargs.get("order", "C")
    base, idx = (c.base, c.idx) if isinstance(c, ViewC) else (o.a, np.arange(c.a.size).reshape(c.a.shape))
    try:
        return it.alloc(ViewC(base, idx.reshape(s, order=order if isinstance(order, str) else "C")))
    except ValueError:
        it.raise_exc("ValueError", "cannot reshape array")


METHOD_FNS[(ArrC, "copy")] = lambda it, o, a, k: it.new_arr(get_arr(it, o).copy())
METHOD_FNS[(ArrC, "tolist")] = lambda it, o, a, k: _tolist(it, get_arr(it, o))
METHOD_FNS[(ArrC, "flatten")] = lambda it, o, a, k: it.new_arr(get_arr(it, o).flatten(*( [a[0]] if a else [])))
METHOD_FNS[(ArrC, "ravel")] = lambda it, o, a, k: a_reshape(it, o, [F.const(-1)], {})
METHOD_FNS[(ArrC, "dot")] = lambda it, o, a, k: np_dot(it, [o] + list(a), k)
METHOD_FNS[(ArrC, "astype")] = lambda it, o, a, k: np_array(it, [o, a[0]], {})
METHOD_FNS[(ArrC, "transpose")] = lambda it, o, a, k: it.models.getattr(it, o, "T") if not a else EXT_FNS["numpy.transpose"](it, [o, tuple(a) if len(a) > 1 else a[0]], {})
METHOD_FNS[(ArrC, "item")] = lambda it, o, a, k: get_arr(it, o).reshape(-1)[const_int(a[0]) if a else 0]
METHOD_FNS[(ArrC, "fill")] = lambda it, o, a, k: M.write_arr(it, o, emap(lambda x: a[0], get_arr(it, o)))
METHOD_FNS[(ArrC, "toarray")] = METHOD_FNS[(ArrC, "todense")] = METHOD_FNS[(ArrC, "tocsr")] = METHOD_FNS[(ArrC, "tocsc")] = METHOD_FNS[(ArrC, "copy")]
METHOD_FNS[(ArrC, "sort")] = lambda it, o, a, k: M.write_arr(it, o, get_arr(it, np_sort(it, [o], {})))
METHOD_FNS[(ArrC, "conj")] = lambda it, o, a, k: o
METHOD_FNS[(ArrC, "squeeze")] = lambda it, o, a, k: EXT_FNS["numpy.squeeze"](it, [o] + list(a), k)
METHOD_FNS[(ArrC, "diagonal")] = lambda it, o, a, k: it.new_arr(np.diagonal(get_arr(it, o)).copy())
METHOD_FNS[(ArrC, "round")] = METHOD_FNS[(SeriesC, "round")] = lambda it, o, a, k: b_round(it, [o] + list(a), {})
METHOD_FNS[(ArrC, "clip")] = METHOD_FNS[(SeriesC, "clip")] = lambda it, o, a, k: np_clip(it, [o] + list(a), {{"lower": "a_min", "upper": "a_max"}.get(n, n): v for n, v in k.items()})
METHOD_FNS[(ArrC, "repeat")] = lambda it, o, a, k: EXT_FNS["numpy.repeat"](it, [o] + list(a), k)
METHOD_FNS[(ArrC, "swapaxes")] = lambda it, o, a, k: EXT_FNS["numpy.swapaxes"](it, [o] + list(a), k)
METHOD_FNS[(ArrC, "setflags")] = lambda it, o, a, k: None
METHOD_FNS[(ArrC, "argsort")] = lambda it, o, a, k: np_argsort(it, [o], {})
METHOD_FNS[(ArrC, "trace")] = lambda it, o, a, k: _sum(list(np.diagonal(get_arr(it, o))))
for _n in ("sum", "mean", "max", "min", "argmin", "argmax", "any", "all", "cumsum", "prod"):
    METHOD_FNS[(ArrC, _n)] = (lambda it, o, a, k, _n=_n: EXT_FNS["numpy." + _n](it, [o] + list(a), k))
for _n in ("sum", "mean", "max", "min", "any", "all"):
    METHOD_FNS[(SeriesC, _n)] = (lambda it, o, a, k, _n=_n: EXT_FNS["numpy." + _n](it, [o], {}))


def _tolist(it, a):
    if a.ndim == 0:
        return a[()]
    if a.ndim == 1:
        return it.new_list(list(a))
    return it.new_list([_tolist(it, x) for x in a])


# ================================================================ pandas

@ext("pandas.DataFrame")
def pd_frame(it, args, kwargs):
    data = narrow(arg(args, kwargs, 0, "data"))
    columns = narrow(kwargs.get("columns", args[2] if len(args) > 2 else None))
    cols = it.iterate(columns) if columns is not None else None
    if isinstance(data, Unk):
        return data
    if data is None:
        ix = it.iterate(kwargs["index"]) if kwargs.get("index") is not None else []
        return it.alloc(FrameDFC({c: pandas_.arr1([F.sym("nan")] * len(ix)) for c in (cols or [])}, tuple(ix) if ix and not cols else pandas_.norm_labels(ix)))
    index = kwargs.get("index", args[1] if len(args) > 1 else None)
    if index is not None:
        kw = {k: v for k, v in kwargs.items() if k != "index"}
        r = pd_frame(it, [data] + ([None, columns] if columns is not None else []), {k: v for k, v in kw.items() if k not in ("data", "columns")})
        ix = it.iterate(index)
        if isinstance(r, Unk) or not isinstance(ix, list):
            return r if isinstance(r, Unk) else it.unk("row labels")
        fc = it.cell(r)
        if len(ix) != pandas_.nrows(fc):
            if isinstance(data, Ref) and isinstance(it.cell(data), DictC) and all(is_scalar(narrow(v)) or isinstance(narrow(v), (str, StrV)) for v in it.cell(data).d.values()):
                fc = FrameDFC({k: pandas_.arr1([x[0]] * len(ix)) for k, x in fc.cols.items()})
            else:
                it.raise_exc("ValueError", "Length of values does not match length of index")
        if isinstance(data, Ref) and (isinstance(it.cell(data), FrameDFC) or isinstance(it.cell(data), DictC) and any(
                isinstance(narrow(v), Ref) and isinstance(it.cell(narrow(v)), SeriesC) for v in it.cell(data).d.values())) and pandas_.norm_labels(ix) is not None:
            return it.unk("table aligned by labels")
        return it.alloc(FrameDFC(fc.cols, pandas_.norm_labels(ix)))
    if isinstance(data, Phi):
        return it.fork_join([(g, (lambda x=x: pd_frame(it, [x], kwargs))) for g, x in data.alts])
    c = it.cell(data) if isinstance(data, Ref) else None
    if isinstance(c, FrameDFC):
        return it.alloc(FrameDFC({k: c.cols[k].copy() for k in (cols if cols is not None else c.cols)}, c.index))
    if isinstance(c, SeriesC):
        return it.alloc(FrameDFC({(cols[0] if cols else c.name if c.name is not None else F.ZERO): c.a.copy()}, c.index))
    if isinstance(c, DictC):
        sers = [it.cell(narrow(v)) for v in c.d.values() if isinstance(narrow(v), Ref) and isinstance(it.cell(narrow(v)), SeriesC)]
        if any(not pandas_.same_index(sers[0], x) for x in sers[1:]):
            return it.unk("table aligned by labels")
        if sers and sers[0].index is not None:
            return it.alloc(FrameDFC(it.cell(pd_frame(it, [it.new_dict({k: (it.new_arr(it.cell(narrow(v)).a) if isinstance(narrow(v), Ref) and isinstance(it.cell(narrow(v)), SeriesC) else v)
                                                                        for k, v in c.d.items()})], {k: v for k, v in kwargs.items() if k != "data"})).cols, sers[0].index))
        out = {}
        n = 0
        for k, v in c.d.items():
            if is_scalar(narrow(v)) or isinstance(narrow(v), str):
                continue
            if isinstance(v, Ref) and isinstance(it.cell(v), ListC) and any(it.is_part(x) for x in it.cell(v).items):
                return pd_generic(it, c, cols)
            out[k] = M.column(it, v)
            if isinstance(out[k], Unk):
                return out[k]
            n = max(n, len(out[k]))
        res = {}
        for k, v in c.d.items():
            if k in out:
                res[k] = out[k]
            else:
                r = np.empty(n, dtype=object)
                r[:] = [v] * n
                res[k] = r
        if len({len(v) for v in res.values()}) > 1:
            it.raise_exc("ValueError", "All arrays must be of the same length")
        if cols is not None:
            res = {k: res[k] for k in cols}
        return it.alloc(FrameDFC(res))
    rows = it.iterate(data)
    if not isinstance(rows, list):
        return it.unk("data frame of a sequence of unknown length")
    if not rows:
        return it.alloc(FrameDFC({c: np.empty(0, dtype=object) for c in (cols or [])}))
    if all(isinstance(r, Ref) and isinstance(it.cell(r), SeriesC) for r in rows):
        cs = [it.cell(r) for r in rows]
        if any(not pandas_.same_index(cs[0], x) for x in cs):
            return it.unk("rows of different labels")
        ls = pandas_.labels(cs[0])
        return it.alloc(FrameDFC({l: pandas_.arr1([x.a[j] for x in cs]) for j, l in enumerate(ls)},
                                 pandas_.norm_labels([x.name if x.name is not None else F.const(i) for i, x in enumerate(cs)])))
    if any(is_scalar(narrow(r)) or isinstance(narrow(r), (str, StrV)) for r in rows):
        return it.alloc(FrameDFC({(cols[0] if cols else F.ZERO): pandas_.arr1(rows)}))
    if all(hasattr(r, "_fields") for r in rows) and cols is None:
        cols = list(rows[0]._fields)
    if all(isinstance(r, Ref) and isinstance(it.cell(r), DictC) for r in rows):
        names = []
        for r in rows:
            for k in it.cell(r).d:
                if k not in names:
                    names.append(k)
        if cols is not None:
            names = cols
        res = {}
        for k in names:
            a = np.empty(len(rows), dtype=object)
            for i, r in enumerate(rows):
                d = it.cell(r).d
                a[i] = d[k] if k in d else F.sym("nan")
            res[k] = a
        return it.alloc(FrameDFC(res))
    mat = []
    for r in rows:
        x = it.iterate(r)
        if not isinstance(x, list):
            return it.unk("data frame row")
        mat.append(x)
    w = len(mat[0])
    if any(len(r) != w for r in mat):
        return it.unk("ragged data frame")
    if cols is None:
        cols = [F.const(i) for i in range(w)]
    res = {}
    for j, k in enumerate(cols):
        a = np.empty(len(mat), dtype=object)
        for i, r in enumerate(mat):
            a[i] = r[j]
        res[k] = a
    return it.alloc(FrameDFC(res))


def pd_generic(it, c, cols):
    return it.unk("data frame of unknown length")


@ext("pandas.Series")
def pd_series(it, args, kwargs):
    v = narrow(arg(args, kwargs, 0, "data"))
    index = arg(args, kwargs, 1, "index")
    ix = it.iterate(index) if index is not None else None
    if isinstance(v, Ref) and isinstance(it.cell(v), DictC):
        d = it.cell(v).d
        keys = ix if ix is not None else list(d)
        return it.alloc(SeriesC(pandas_.arr1([d[k] if k in d else F.sym("nan") for k in keys]), kwargs.get("name"), pandas_.norm_labels(keys)))
    if isinstance(v, Ref) and isinstance(it.cell(v), SeriesC):
        if ix is not None:
            return it.unk("series aligned by labels")
        c = it.cell(v)
        return it.alloc(SeriesC(c.a.copy(), kwargs.get("name", c.name), c.index))
    a = M.column(it, v)
    if isinstance(a, Unk):
        return a
    if ix is not None and len(ix) != len(a):
        if is_scalar(v):
            a = pandas_.arr1([v] * len(ix))
        else:
            it.raise_exc("ValueError", "Length of values does not match length of index")
    return it.alloc(SeriesC(a, kwargs.get("name"), pandas_.norm_labels(ix) if ix is not None else None))


for _n in ("set_option", "reset_option", "options"):
    EXT_FNS["pandas." + _n] = (lambda it, a, k, _n=_n: (_Event(it, "pandas." + _n, [S.freeze(it, x) for x in a], k), None)[1])
EXT_FNS["pandas.option_context"] = lambda it, a, k: Opaque("option_context")


@ext("pandas.concat")
def pd_concat(it, args, kwargs):
    items = it.iterate(args[0])
    if not isinstance(items, list):
        return it.unk("concat")
    axis = const_int(narrow(kwargs.get("axis", F.ZERO))) if not isinstance(kwargs.get("axis"), str) else {"columns": 1, "index": 0}[kwargs["axis"]]
    cells = [it.cell(x) if isinstance(x, Ref) else None for x in items]
    fresh = narrow(kwargs.get("ignore_index", False)) is True
    if axis == 1:
        res = {}
        for c in cells:
            if not isinstance(c, (FrameDFC, SeriesC)) or not pandas_.same_index(c, cells[0]) or pandas_.nrows(c) != pandas_.nrows(cells[0]):
                return it.unk("concat")
            if isinstance(c, FrameDFC):
                if any(k in res for k in c.cols):
                    return it.unk("repeated column names")
                res.update(c.cols)
            else:
                res[c.name] = c.a
        return it.alloc(FrameDFC(res, cells[0].index))
    if cells and all(isinstance(c, (FrameDFC, SeriesC)) for c in cells):
        ls = []
        for c in cells:
            ls.extend(pandas_.labels(c))
        index = None if fresh else pandas_.norm_labels(ls)
        if all(isinstance(c, SeriesC) for c in cells):
            return it.alloc(SeriesC(np.concatenate([c.a for c in cells]), cells[0].name if all(c.name == cells[0].name for c in cells) else None, index))
        if all(isinstance(c, FrameDFC) for c in cells):
            cells_ = [c for c in cells if pandas_.nrows(c)] or cells[:1]
            res = {}
            for k in cells_[0].cols:
                if any(k not in c.cols for c in cells_):
                    return it.unk("concat of different columns")
                res[k] = np.concatenate([c.cols[k] for c in cells_])
            return it.alloc(FrameDFC(res, index))
    return it.unk("concat")


def ser(it, o, a):
    return it.alloc(SeriesC(a, it.cell(o).name, it.cell(o).index))


def bcol(it, v, n):
    """operand as a column of length n"""
    v = narrow(v)
    a = get_arr(it, v)
    if a is not None and a.ndim == 1:
        return a
    r = np.empty(n, dtype=object)
    if isinstance(v, Ref) and isinstance(it.cell(v), ListC):
        r[:] = it.iterate(v)
        return r
    for i in range(n):
        r[i] = v
    return r


def _mask(neg):
    def f(it, o, args, kwargs):
        c = it.cell(o)
        cond = narrow(arg(args, kwargs, 0, "cond"))
        if isinstance(cond, (FnV, Native, Bound)):
            cond = it.call(cond, [o], {})
        other = narrow(arg(args, kwargs, 1, "other", F.sym("nan")))
        m, x = bcol(it, cond, len(c.a)), bcol(it, other, len(c.a))
        r = np.empty(len(c.a), dtype=object)
        for i in range(len(c.a)):
            b = to_bdd(m[i])
            if isinstance(b, Unk):
                r[i] = b
                continue
            if neg:
                b = G.NOT(b)
            r[i] = mk_phi([(b, c.a[i]), (G.NOT(b), x[i])])
        return ser(it, o, r)
    return f


METHOD_FNS[(SeriesC, "where")] = _mask(False)
METHOD_FNS[(SeriesC, "mask")] = _mask(True)
METHOD_FNS[(SeriesC, "abs")] = lambda it, o, a, k: ser(it, o, emap(absv, it.cell(o).a))
METHOD_FNS[(SeriesC, "copy")] = lambda it, o, a, k: ser(it, o, it.cell(o).a.copy())
METHOD_FNS[(SeriesC, "tolist")] = METHOD_FNS[(SeriesC, "to_list")] = lambda it, o, a, k: it.new_list(list(it.cell(o).a))
METHOD_FNS[(SeriesC, "to_numpy")] = lambda it, o, a, k: it.new_arr(it.cell(o).a.copy())


@meth(SeriesC, "astype")
def ser_astype(it, o, args, kwargs):
    r = cast(it, it.cell(o).a, arg(args, kwargs, 0, "dtype"))
    return r if isinstance(r, Unk) else ser(it, o, r)


METHOD_FNS[(SeriesC, "rename")] = lambda it, o, a, k: it.alloc(SeriesC(it.cell(o).a, a[0] if a else None, it.cell(o).index))
METHOD_FNS[(SeriesC, "fillna")] = lambda it, o, a, k: o
METHOD_FNS[(SeriesC, "apply")] = METHOD_FNS[(SeriesC, "map")] = lambda it, o, a, k: ser(it, o, np.array([it.call(a[0], [x], {}) for x in it.cell(o).a] + [None], dtype=object)[:-1])
METHOD_FNS[(SeriesC, "replace")] = lambda it, o, a, k: it.unk("Series.replace")
for _n, _op, _sw in (("add", "+", 0), ("sub", "-", 0), ("mul", "*", 0), ("div", "/", 0), ("truediv", "/", 0), ("divide", "/", 0), ("subtract", "-", 0), ("multiply", "*", 0),
                     ("radd", "+", 1), ("rsub", "-", 1), ("rmul", "*", 1), ("rdiv", "/", 1), ("rtruediv", "/", 1), ("pow", "**", 0)):
    METHOD_FNS[(SeriesC, _n)] = (lambda it, o, a, k, op=_op, sw=_sw: M.binop(it, op, a[0], o) if sw else M.binop(it, op, o, a[0]))
for _n, _op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
    METHOD_FNS[(SeriesC, _n)] = (lambda it, o, a, k, op=_op: M.order(it, op, o, a[0]))
METHOD_FNS[(SeriesC, "eq")] = lambda it, o, a, k: M.equals(it, o, a[0])


METHOD_FNS[(FrameDFC, "copy")] = lambda it, o, a, k: it.alloc(FrameDFC({n: c.copy() for n, c in it.cell(o).cols.items()}, it.cell(o).index))


@meth(FrameDFC, "astype")
def df_astype(it, o, args, kwargs):
    dt = narrow(arg(args, kwargs, 0, "dtype"))
    per = {}
    if isinstance(dt, Ref) and isinstance(it.cell(dt), DictC):
        per = {k: (M.getitem(it, dt, k) if to_bdd(M.contains(it, dt, k)) is True else None) for k in it.cell(o).cols}
        dt = None
    out = {}
    for n, c in it.cell(o).cols.items():
        r = cast(it, c, per.get(n, dt))
        if isinstance(r, Unk):
            return r
        out[n] = r.copy()
    return it.alloc(FrameDFC(out, it.cell(o).index))


@meth(FrameDFC, "round")
def df_round(it, o, args, kwargs):
    return it.alloc(FrameDFC({n: np.array([b_round(it, [x, arg(args, kwargs, 0, "decimals", F.ZERO)], {}) if is_scalar(x) else x for x in c] + [None], dtype=object)[:-1]
                              for n, c in it.cell(o).cols.items()}, it.cell(o).index))


METHOD_FNS[(FrameDFC, "to_numpy")] = lambda it, o, a, k: it.new_arr(to_array(it, o))
METHOD_FNS[(FrameDFC, "head")] = lambda it, o, a, k: frame_rows(it, o, const_int(arg(a, k, 0, "n", F.const(5))))


def frame_rows(it, o, n):
    if n is None:
        return it.unk("head of unknown size")
    f = it.cell(o)
    return it.alloc(FrameDFC({k: c[:n].copy() for k, c in f.cols.items()}, None if f.index is None else f.index[:n]))




@meth(FrameDFC, "abs")
def f_abs(it, o, args, kwargs):
    return it.alloc(FrameDFC({k: emap(absv, v) for k, v in it.cell(o).cols.items()}, it.cell(o).index))


@meth(FrameDFC, "assign")
def f_assign(it, o, args, kwargs):
    r = it.alloc(FrameDFC(dict(it.cell(o).cols), it.cell(o).index))
    for k, v in kwargs.items():
        if isinstance(v, (FnV, Bound, Native)):
            v = it.call(v, [r], {})
        M.setitem(it, r, k, v)
    return r


@meth(FrameDFC, "rename")
def f_rename(it, o, args, kwargs):
    m = kwargs.get("columns")
    if m is None:
        return it.unk("rename")
    if isinstance(m, (FnV, Bound, Native, Builtin, Method, Ext)):
        d = {k: it.call(m, [k], {}) for k in it.cell(o).cols}
    else:
        d = it.cell(m).d
    r = FrameDFC({d.get(k, k): v for k, v in it.cell(o).cols.items()}, it.cell(o).index)
    if narrow(kwargs.get("inplace")) is True:
        it.put(o, r)
        return None
    return it.alloc(r)


@meth(FrameDFC, "drop")
def f_drop(it, o, args, kwargs):
    cols = kwargs.get("columns")
    if cols is None:
        return it.unk("drop of rows")
    names = [cols] if isinstance(cols, str) else it.iterate(cols)
    for n in names:
        if n not in it.cell(o).cols:
            it.raise_exc("KeyError", str(n))
    r = FrameDFC({k: v for k, v in it.cell(o).cols.items() if k not in names}, it.cell(o).index)
    if narrow(kwargs.get("inplace")) is True:
        it.put(o, r)
        return None
    return it.alloc(r)


@meth(FrameDFC, "insert")
def f_insert(it, o, args, kwargs):
    i = const_int(args[0])
    c = it.cell(o)
    items = list(c.cols.items())
    items.insert(i, (args[1], M.column(it, args[2], c)))
    it.put(o, FrameDFC(dict(items), c.index))


@meth(FrameDFC, "join")
def f_join(it, o, args, kwargs):
    return pd_concat(it, [it.new_list([o, args[0]])], {"axis": F.ONE})


pandas_.install(minv, maxv, absv, None)


# ================================================================ scipy

@ext("scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.csr_array", "scipy.sparse.csc_array", "scipy.sparse.coo_matrix")
def sp_csr(it, args, kwargs):
    a = to_array(it, args[0])
    return a if isinstance(a, Unk) else it.new_arr(a.copy())


@ext("scipy.sparse.linalg.eigsh")
def sp_eigsh(it, args, kwargs):
    names = ["A", "k", "M", "sigma", "which", "v0", "ncv", "maxiter", "tol", "return_eigenvectors", "Minv", "OPinv", "mode", "rng"]
    d = dict(zip(names, args))
    d.update(kwargs)
    a = to_array(it, d["A"])
    m = to_array(it, d["M"]) if d.get("M") is not None else None
    u = has_unk(a, m) if m is not None else has_unk(a)
    if u:
        return u
    k = narrow(d.get("k", F.const(6)))
    v0 = narrow(d.get("v0"))
    sel = tuple((n, S.freeze(it, d[n])) for n in ("sigma", "which", "mode") if n in d)
    rec = {n: S.freeze(it, v) for n, v in d.items()}
    e = _Event(it, "scipy.sparse.linalg.eigsh", [a.copy(), None if m is None else m.copy()], rec)
    if v0 is None and not any(x in d for x in ("rng",)):
        _Event(it, "nondeterminism", ["scipy.sparse.linalg.eigsh without a start vector"], {})
    keyo = V.OpaqueKey(Opaque("pencil", MatOpaque(a), MatOpaque(m) if m is not None else None, sel))
    e.state = keyo
    it.raise_ext(Ext("scipy.sparse.linalg.ArpackError"), guard=G.pred("ARPACK fails", keyo.k))
    if isinstance(k, Phi):
        ks = [(g, const_int(x)) for g, x in k.alts]
        if any(x is None for _, x in ks):
            return it.unk("symbolic number of eigenvalues")
        return it.fork_join([(g, (lambda x=x: eig_out(it, keyo, x, a.shape[0]))) for g, x in ks])
    n = const_int(k)
    if n is None:
        return it.unk("symbolic number of eigenvalues")
    return eig_out(it, keyo, n, a.shape[0])


class MatOpaque(Opaque):
    def __init__(self, a):
        Opaque.__init__(self, "mat", a)


def eig_out(it, keyo, n, size):
    n = max(n, 0)
    vals = np.empty(n, dtype=object)
    vecs = np.empty((size, n), dtype=object)
    for j in range(n):
        vals[j] = F.atom_form(F.Atom("eigval", keyo, j))
        for i in range(size):
            vecs[i, j] = F.atom_form(F.Atom("eigvec", keyo, i, j))
    return (it.new_arr(vals), it.new_arr(vecs))


@ext("scipy.optimize.NonlinearConstraint")
def sp_nlc(it, args, kwargs):
    return Opaque("NLC", arg(args, kwargs, 0, "fun"), S.freeze(it, arg(args, kwargs, 1, "lb")), S.freeze(it, arg(args, kwargs, 2, "ub")),
                  tuple(sorted((k, S.freeze(it, v)) for k, v in kwargs.items() if k not in ("fun", "lb", "ub"))))


@ext("scipy.optimize.LinearConstraint")
def sp_lc(it, args, kwargs):
    return Opaque("LC", S.freeze(it, arg(args, kwargs, 0, "A")), S.freeze(it, arg(args, kwargs, 1, "lb", -M.INF)), S.freeze(it, arg(args, kwargs, 2, "ub", M.INF)))


@ext("scipy.optimize.Bounds")
def sp_bounds(it, args, kwargs):
    return Opaque("Bounds", S.freeze(it, arg(args, kwargs, 0, "lb", -M.INF)), S.freeze(it, arg(args, kwargs, 1, "ub", M.INF)))


@ext("scipy.optimize.minimize")
def sp_minimize(it, args, kwargs):
    names = ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options"]
    d = dict(zip(names, args))
    d.update(kwargs)
    e = _Event(it, "scipy.optimize.minimize", [], d)
    e.state = it.st.clone()
    x0 = M.to_array(it, d["x0"]) if isinstance(d.get("x0"), (Ref, tuple, np.ndarray)) else d.get("x0")
    return Opaque("result", F.const(len(it.events)), F.const(x0.size) if isinstance(x0, np.ndarray) else None)


# type placeholders used as values
for _n in ("numpy.ndarray",):
    EXT_FNS[_n] = lambda it, a, k: it.unk("ndarray constructor")


@ext("textwrap.dedent", "inspect.cleandoc")
def x_dedent(it, args, kwargs):
    import textwrap
    s = narrow(args[0])
    return textwrap.dedent(s) if isinstance(s, str) else it.unk("dedent")


def _constants(it, x):
    a = to_array(it, x)
    if isinstance(a, Unk) or not all(isinstance(narrow(e), Form) and narrow(e).const() is not None for e in a.flat):
        return None
    return a


@ext("numpy.unique")
def x_unique(it, args, kwargs):
    a = _constants(it, args[0])
    if a is None or kwargs or len(args) > 1:
        return it.unk("numpy.unique")
    return it.new_arr(np.array([F.const(c) for c in sorted({narrow(e).const() for e in a.flat})], dtype=object))


@ext("numpy.searchsorted")
def x_searchsorted(it, args, kwargs):
    import bisect
    a, v = _constants(it, args[0]), narrow(args[1])
    if a is None or not isinstance(v, Form) or v.const() is None:
        return it.unk("numpy.searchsorted")
    f = bisect.bisect_right if arg(args, kwargs, 2, "side", "left") == "right" else bisect.bisect_left
    return F.const(f([narrow(e).const() for e in a.flat], v.const()))


@meth((ArrC, ViewC), "view")
def a_view(it, o, args, kwargs):
    return M.getitem(it, o, SliceV(None, None, None)) if not args and not kwargs else it.unk("view of another type")


@meth((ArrC, ViewC), "nonzero")
def a_nonzero(it, o, args, kwargs):
    return it.call(Ext("numpy.nonzero"), [o], {})
