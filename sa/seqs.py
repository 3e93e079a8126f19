"""Sequences: freezing of heap values, pointwise application, and (loops.py) sequences of unknown length."""
import numpy as np
from . import forms as F
from . import guards as G
from . import values as V
from .values import *   # noqa
from .forms import Form


class Seq:
    """a sequence with summarised parts"""
    def __init__(self, items):
        self.items = tuple(items)


class GenPart:
    """count items block[var := 0..count-1], in order"""
    is_part = True

    def __init__(self, var, count, block):
        self.var, self.count, self.block = var, count, tuple(block)

    def __repr__(self):
        return f"<{self.block!r} for {F.show_atom(self.var)} < {F.show(self.count)}>"


class HoleStr:
    """text that repeats a block an unknown number of times"""
    def __init__(self, parts):
        self.parts = tuple(parts)


class GArrC:
    """array of unknown length: elem[var := i] for i < count"""
    def __init__(self, var, count, elem):
        self.var, self.count, self.elem = var, count, elem


def length(items):
    n = F.ZERO
    for x in items:
        if getattr(x, "is_part", False):
            n = n + x.count * len(x.block)
        elif isinstance(x, Gitem):
            n = V.arith("+", n, mk_phi([(x.g, F.ONE), (G.NOT(x.g), F.ZERO)]))
        else:
            n = V.arith("+", n, F.ONE)
    return n


def contains(it, seq, x):
    return it.unk("membership in a sequence of unknown length")


def seq_equal(it, x, y):
    return it.unk("equality of sequences of unknown length")


def repeat_str(it, s, n):
    return it.unk("string repeated an unknown number of times")


def repeat_list(it, c, n):
    return it.unk("list repeated an unknown number of times")


def str_getitem(it, o, k):
    if isinstance(o, StrV):
        from .strings import hole_getitem
        return hole_getitem(it, o, k)
    return it.unk("item of a string with holes")


def list_slice(it, o, k):
    return it.unk("slice of a sequence of unknown length")


def list_index(it, o, k):
    return it.unk("item of a sequence of unknown length")


def list_store(it, o, k, v):
    from .interp import Limit
    raise Limit("store into a sequence of unknown length")


def garr_get(it, o, k):
    return it.unk("item of an array of unknown length")


def garr_set(it, o, k, v):
    from .interp import Limit
    raise Limit("store into an array of unknown length")


def garr_attr(it, o, name):
    return None


def concat_hole(it, parts):
    return it.unk("text of unknown length")


def freeze(it, v, depth=0):
    """an immutable picture of a value: what it holds now"""
    if depth > 12:
        return Opaque("deep")
    if isinstance(v, Ref):
        c = it.cell(v)
        m = it.models
        a = m.get_arr(it, v)
        if isinstance(c, SeriesC):
            return Opaque("series", freeze_arr(it, c.a, depth))
        if a is not None:
            return freeze_arr(it, a, depth)
        if isinstance(c, (ListC, IterC)):
            return tuple(freeze(it, x, depth + 1) for x in c.items)
        if isinstance(c, DictC):
            return Opaque("dict", tuple((freeze(it, k, depth + 1), freeze(it, x, depth + 1)) for k, x in c.d.items()))
        if isinstance(c, SetC):
            return Opaque("set", tuple((freeze(it, k, depth + 1), mk_bool(g)) for k, g in c.d.items()))
        if isinstance(c, FrameDFC):
            return Opaque("frame", tuple((k, freeze_arr(it, x, depth) if isinstance(x, np.ndarray) else x) for k, x in c.cols.items()))
        return v
    if isinstance(v, tuple):
        return tuple(freeze(it, x, depth + 1) for x in v)
    if isinstance(v, Gitem):
        return Opaque("item?", mk_bool(v.g), freeze(it, v.v, depth + 1))
    if isinstance(v, Phi):
        return Phi([(g, freeze(it, x, depth + 1)) for g, x in v.alts])
    return v


def freeze_arr(it, a, depth):
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x = a[i]
        r[i] = freeze(it, x, depth + 1) if isinstance(x, Ref) else x
    return r


def pointwise(it, fn, *vals):
    m = it.models
    if all(m.is_scalar(narrow(v)) for v in vals):
        return V.lift(lambda *xs: fn(*[V._num(x) for x in xs]), *vals)
    arrs = [m.to_array(it, v) for v in vals]
    u = m.has_unk(*arrs)
    if u:
        return u
    return m.wrap_arr(it, m.emap(lambda *xs: V.lift(lambda *ys: fn(*[V._num(y) for y in ys]), *xs), *arrs))
