"""Tables: row labels, selection and the reductions of pandas data frames and series."""
import numpy as np
from . import forms as F
from . import guards as G
from . import values as V
from . import models as M
from . import seqs as S
from .values import *   # noqa
from .forms import Form
from . import pycls
from .models import METHOD_FNS, METHODS, EXT_FNS, emap, is_scalar, const_int, get_arr, to_array, has_unk, Limit


def nrows(c):
    if isinstance(c, SeriesC):
        return len(c.a)
    for x in c.cols.values():
        return len(x)
    return len(c.index) if c.index is not None else 0


def labels(c):
    return list(c.index) if c.index is not None else [F.const(i) for i in range(nrows(c))]


def take_index(c, rows):
    """labels of the chosen rows: counted from zero only when they are"""
    ls = labels(c)
    if c.index is None and list(rows) == list(range(len(rows))):
        return None
    return tuple(ls[i] for i in rows)


def norm_labels(ls):
    ls = tuple(ls)
    if all(isinstance(x, Form) and x.const() == i for i, x in enumerate(ls)):
        return None
    return ls


def same_index(a, b):
    return (a.index is None) == (b.index is None) and (a.index is None or len(a.index) == len(b.index) and all(identical(x, y) for x, y in zip(a.index, b.index)))


def arr1(xs):
    r = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        r[i] = x
    return r


def label_pos(it, ls, k):
    """positions of a label"""
    k = narrow(k)
    out = []
    for i, x in enumerate(ls):
        b = to_bdd(M.equals(it, x, k))
        if isinstance(b, Unk):
            return b
        if b is True:
            out.append(i)
        elif b is not False:
            return it.unk("symbolic row label")
    return out


def select(it, ls, sel, by_pos):
    """('one', i) / ('many', rows) / ('mask', guards) / Unk"""
    n = len(ls)
    sel = narrow(sel)
    if isinstance(sel, Unk):
        return sel
    if isinstance(sel, (FnV, Native, Bound)):
        return it.unk("selection by a function")
    if isinstance(sel, SliceV):
        if sel.lo is None and sel.hi is None and sel.step is None:
            return "many", list(range(n))
        if by_pos:
            sl = M.slice_py(sel)
            return it.unk("slice of rows") if sl is None else ("many", list(range(n))[sl])
        bound = []
        for v, d in ((sel.lo, 0), (sel.hi, n - 1)):
            if v is None:
                bound.append(d)
                continue
            p = label_pos(it, ls, v)
            if isinstance(p, Unk):
                return p
            if not p:
                return it.unk("slice by labels")
            bound.append(p[0] if d == 0 else p[-1])
        return "many", list(range(bound[0], bound[1] + 1))
    a = get_arr(it, sel)
    items = list(a) if a is not None and a.ndim == 1 else None
    if items is None and isinstance(sel, Ref) and isinstance(it.cell(sel), (ListC, IterC)):
        items = it.iterate(sel)
        if not isinstance(items, list):
            return it.unk("rows of unknown number")
    if items is not None:
        items = [narrow(x) for x in items]
        if items and all(isinstance(x, (bool, Cond)) or isinstance(x, Phi) and all(isinstance(y, (bool, Cond)) for _, y in x.alts) for x in items):
            if len(items) != n:
                it.raise_exc("IndexError", "Boolean index has wrong length")
            gs = [G.restrict(to_bdd(x), it.st.pc) for x in items]
            if all(g is True or g is False for g in gs):
                return "many", [i for i, g in enumerate(gs) if g]
            return "mask", gs
        out = []
        for x in items:
            if by_pos:
                i = const_int(x)
                if i is None:
                    return it.unk("symbolic row number")
                out.append(M.norm_index(it, i, n))
            else:
                p = label_pos(it, ls, x)
                if isinstance(p, Unk):
                    return p
                if not p:
                    it.raise_exc("KeyError", "label")
                out.extend(p)
        return "many", out
    if by_pos:
        i = const_int(sel) if is_scalar(sel) else None
        if i is None:
            return it.unk("symbolic row number")
        return "one", M.norm_index(it, i, n)
    p = label_pos(it, ls, sel)
    if isinstance(p, Unk):
        return p
    if not p:
        it.raise_exc("KeyError", "label")
    return ("one", p[0]) if len(p) == 1 else ("many", p)


def row_series(it, c, i):
    names = list(c.cols)
    return it.alloc(SeriesC(arr1([c.cols[k][i] for k in names]), labels(c)[i], norm_labels(names)))


def indexer_get(it, o, how, k):
    c = it.cell(o)
    by_pos = how in ("iloc", "iat")
    if isinstance(c, SeriesC):
        r = select(it, labels(c), k, by_pos)
        if isinstance(r, Unk):
            return r
        if r[0] == "one":
            return c.a[r[1]]
        if r[0] == "many":
            return it.alloc(SeriesC(c.a[r[1]].copy(), c.name, take_index(c, r[1])))
        return it.unk("rows chosen under conditions")
    rk, ck = k if isinstance(k, tuple) and len(k) == 2 else (k, None)
    r = select(it, labels(c), rk, by_pos)
    if isinstance(r, Unk):
        return r
    names = list(c.cols)
    if ck is not None:
        q = select(it, names, ck, by_pos)
        if isinstance(q, Unk):
            return q
        if q[0] == "mask":
            return it.unk("columns chosen under conditions")
        if q[0] == "one":
            col = c.cols[names[q[1]]]
            if r[0] == "one":
                return col[r[1]]
            if r[0] == "many":
                return it.alloc(SeriesC(col[r[1]].copy(), names[q[1]], take_index(c, r[1])))
            return it.unk("rows chosen under conditions")
        names = [names[j] for j in q[1]]
    sub = FrameDFC({n: c.cols[n] for n in names}, c.index)
    if r[0] == "one":
        return row_series(it, sub, r[1])
    if r[0] == "many":
        return it.alloc(FrameDFC({n: x[r[1]].copy() for n, x in sub.cols.items()}, take_index(c, r[1])))
    return it.unk("rows chosen under conditions")


def indexer_set(it, o, how, k, v):
    c = it.cell(o)
    by_pos = how in ("iloc", "iat")
    ser = isinstance(c, SeriesC)
    rk, ck = k if not ser and isinstance(k, tuple) and len(k) == 2 else (k, None)
    ls = labels(c)
    if not ser and not by_pos and is_scalar(narrow(rk)) and label_pos(it, ls, rk) == []:
        raise Limit("a row is added")
    r = select(it, ls, rk, by_pos)
    if isinstance(r, Unk):
        raise Limit(r.reason)
    cols = {"": c.a} if ser else dict(c.cols)
    names = list(cols)
    if ck is not None:
        if not by_pos and isinstance(ck, str) and ck not in names:
            cols[ck] = arr1([F.sym("nan")] * len(ls))
            names = list(cols)
        q = select(it, names, ck, by_pos)
        if isinstance(q, Unk) or q[0] == "mask":
            raise Limit("store into chosen columns")
        names = [names[q[1]]] if q[0] == "one" else [names[j] for j in q[1]]
    rows = [(r[1], True)] if r[0] == "one" else [(i, True) for i in r[1]] if r[0] == "many" else [(i, g) for i, g in enumerate(r[1]) if g is not False]
    v = narrow(v)
    a = get_arr(it, v)
    if a is None and isinstance(v, Ref) and isinstance(it.cell(v), (ListC, FrameDFC, DictC)) or isinstance(v, tuple):
        if isinstance(v, Ref) and isinstance(it.cell(v), DictC):
            raise Limit("store of a dictionary into rows")
        a = to_array(it, v)
    if isinstance(a, Unk):
        raise Limit(a.reason)
    if isinstance(v, Ref) and isinstance(it.cell(v), SeriesC) and (len(names) > 1 or r[0] == "one"):
        raise Limit("store aligned by labels")
    whole = r[0] == "mask" or a is not None and a.ndim >= 1 and len(a) == len(ls) and isinstance(v, Ref) and isinstance(it.cell(v), SeriesC)
    for j, nm in enumerate(names):
        col = cols[nm].copy()
        for t, (i, g) in enumerate(rows):
            if a is None or a.ndim == 0:
                x = v if a is None else a[()]
            elif r[0] == "one":
                x = a[j]
            elif a.ndim == 1:
                x = a[i] if whole else a[t] if len(names) == 1 else a[j]
            else:
                x = a[i, j] if whole else a[t, j]
            col[i] = x if g is True else mk_phi([(g, x), (G.NOT(g), col[i])])
        cols[nm] = col
    it.put(o, SeriesC(cols[""], c.name, c.index) if ser else FrameDFC(cols, c.index))


def series_key(it, o, k):
    """s[k]"""
    c = it.cell(o)
    k = narrow(k)
    if isinstance(k, SliceV):
        return indexer_get(it, o, "iloc", k)
    if is_scalar(k) and c.index is None or isinstance(k, str) or is_scalar(k) and not any(isinstance(x, str) for x in c.index):
        return indexer_get(it, o, "loc", k)
    if is_scalar(k):
        it.raise_exc("KeyError", "label")
    return indexer_get(it, o, "loc", k)


def frame_key(it, o, k):
    """df[k] where k is not a column name"""
    c = it.cell(o)
    k = narrow(k)
    if isinstance(k, SliceV):
        return indexer_get(it, o, "iloc", k)
    a = get_arr(it, k)
    if a is not None or isinstance(k, Ref) and isinstance(it.cell(k), SeriesC):
        r = select(it, labels(c), k, False)
        if isinstance(r, Unk):
            return r
        if r[0] == "many":
            return indexer_get(it, o, "iloc", it.new_list([F.const(i) for i in r[1]]))
        return it.unk("rows chosen under conditions")
    return it.unk("data frame selection")


# ---------------------------------------------------------------- methods

def meth(t, *names):
    def deco(f):
        for n in names:
            METHOD_FNS[(t, n)] = f
        return f
    return deco


def arg(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


def axis_of(args, kwargs, i=0):
    ax = narrow(arg(args, kwargs, i, "axis", F.ZERO))
    if ax in ("columns",):
        return 1
    if ax in ("index", "rows") or ax is None:
        return 0
    return const_int(ax) if is_scalar(ax) else None


def reduced(it, o, args, kwargs, fn):
    c = it.cell(o)
    ax = axis_of(args, kwargs)
    if ax is None:
        return it.unk("axis")
    if ax == 1:
        n = nrows(c)
        return it.alloc(SeriesC(arr1([fn([col[i] for col in c.cols.values()]) for i in range(n)]), None, c.index))
    return it.alloc(SeriesC(arr1([fn(list(col)) for col in c.cols.values()]), None, norm_labels(c.cols)))


def any_text(c):
    return any(isinstance(x, (str, StrV)) for col in c.cols.values() for x in col)


def _red(name, fn):
    def f(it, o, args, kwargs):
        c = it.cell(o)
        if any_text(c):
            return it.unk(f"{name} of a table with text")
        return reduced(it, o, args, kwargs, fn)
    METHOD_FNS[(FrameDFC, name)] = f


def _sum(xs):
    r = F.ZERO
    for x in xs:
        r = V.arith("+", r, V._num(x))
    return r


def _prod(xs):
    r = F.ONE
    for x in xs:
        r = V.arith("*", r, V._num(x))
    return r


def install(minv, maxv, absv, lib):
    _red("sum", _sum)
    _red("prod", _prod)
    _red("mean", lambda xs: V.arith("/", _sum(xs), F.const(len(xs))))
    _red("min", lambda xs: minv([V._num(x) for x in xs]))
    _red("max", lambda xs: maxv([V._num(x) for x in xs]))
    _red("all", lambda xs: mk_bool(G.AND(*[to_bdd(x) for x in xs])))
    _red("any", lambda xs: mk_bool(G.OR(*[to_bdd(x) for x in xs])))


def extreme_label(xs, ls, op):
    best, nm = V._num(xs[0]), ls[0]
    for x, k in zip(xs[1:], ls[1:]):
        x = V._num(x)
        b = to_bdd(V.clift(lambda p, q: V.compare(op, p, q), x, best))
        if isinstance(b, Unk):
            return b
        best, nm = mk_phi([(b, x), (G.NOT(b), best)]), mk_phi([(b, k), (G.NOT(b), nm)])
    return nm


def _idx(op):
    def frame(it, o, args, kwargs):
        c = it.cell(o)
        ax = axis_of(args, kwargs)
        if ax is None:
            return it.unk("axis")
        if ax == 1:
            names = list(c.cols)
            return it.alloc(SeriesC(arr1([extreme_label([c.cols[k][i] for k in names], names, op) for i in range(nrows(c))]), None, c.index))
        return it.alloc(SeriesC(arr1([extreme_label(list(col), labels(c), op) for col in c.cols.values()]), None, norm_labels(c.cols)))

    def series(it, o, args, kwargs):
        c = it.cell(o)
        if not len(c.a):
            it.raise_exc("ValueError", "attempt to get argmin of an empty sequence")
        return extreme_label(list(c.a), labels(c), op)
    return frame, series


for _n, _op in (("idxmin", "<"), ("idxmax", ">")):
    METHOD_FNS[(FrameDFC, _n)], METHOD_FNS[(SeriesC, _n)] = _idx(_op)


@meth(FrameDFC, "iterrows")
def iterrows(it, o, args, kwargs):
    c = it.cell(o)
    return it.alloc(IterC([(l, row_series(it, c, i)) for i, l in enumerate(labels(c))]))


@meth(FrameDFC, "itertuples")
def itertuples(it, o, args, kwargs):
    c = it.cell(o)
    with_index = narrow(arg(args, kwargs, 0, "index", True))
    names = list(c.cols)
    if not all(isinstance(n, str) for n in names):
        return it.unk("itertuples")
    fields = (["Index"] if with_index is True else []) + names

    def row(vals):
        r = pycls.NTuple(vals)
        r._fields = tuple(fields)
        return r
    return it.alloc(IterC([row(([l] if with_index is True else []) + [c.cols[n][i] for n in names]) for i, l in enumerate(labels(c))]))


@meth(FrameDFC, "items")
def items(it, o, args, kwargs):
    c = it.cell(o)
    return it.alloc(IterC([(k, it.alloc(SeriesC(x, k, c.index))) for k, x in c.cols.items()]))


@meth(SeriesC, "items")
def s_items(it, o, args, kwargs):
    c = it.cell(o)
    return it.alloc(IterC(list(zip(labels(c), c.a))))


METHOD_FNS[(FrameDFC, "keys")] = lambda it, o, a, k: it.new_list(list(it.cell(o).cols))
METHOD_FNS[(SeriesC, "keys")] = lambda it, o, a, k: it.new_list(labels(it.cell(o)))


@meth(SeriesC, "to_dict")
def s_to_dict(it, o, args, kwargs):
    c = it.cell(o)
    return it.new_dict(dict(zip(labels(c), c.a)))


@meth(FrameDFC, "to_dict")
def to_dict(it, o, args, kwargs):
    c = it.cell(o)
    how = arg(args, kwargs, 0, "orient", "dict")
    if how == "records":
        return it.new_list([it.new_dict({k: x[i] for k, x in c.cols.items()}) for i in range(nrows(c))])
    if how == "list":
        return it.new_dict({k: it.new_list(list(x)) for k, x in c.cols.items()})
    if how == "dict":
        return it.new_dict({k: it.new_dict(dict(zip(labels(c), x))) for k, x in c.cols.items()})
    if how == "series":
        return it.new_dict({k: it.alloc(SeriesC(x, k, c.index)) for k, x in c.cols.items()})
    return it.unk("to_dict")


@meth(FrameDFC, "to_records")
def to_records(it, o, args, kwargs):
    return it.unk("to_records")


def transposed(it, o):
    c = it.cell(o)
    names = list(c.cols)
    return it.alloc(FrameDFC({l: arr1([c.cols[n][i] for n in names]) for i, l in enumerate(labels(c))}, norm_labels(names)))


METHOD_FNS[(FrameDFC, "transpose")] = lambda it, o, a, k: transposed(it, o)


@meth(FrameDFC, "apply")
def apply(it, o, args, kwargs):
    c = it.cell(o)
    ax = axis_of(args, kwargs, 1)
    if ax is None:
        return it.unk("axis")
    extra = list(it.iterate(kwargs["args"])) if "args" in kwargs else []
    parts = [row_series(it, c, i) for i in range(nrows(c))] if ax == 1 else [it.alloc(SeriesC(x, k, c.index)) for k, x in c.cols.items()]
    out = [narrow(it.call(args[0], [p] + extra, {})) for p in parts]
    u = has_unk(*out)
    if u:
        return u
    where = labels(c) if ax == 1 else list(c.cols)
    if all(isinstance(x, Ref) and isinstance(it.cell(x), SeriesC) for x in out) and out:
        cells = [it.cell(x) for x in out]
        if any(not same_index(cells[0], y) for y in cells):
            return it.unk("rows of different labels")
        if ax == 1:
            return it.alloc(FrameDFC({l: arr1([y.a[j] for y in cells]) for j, l in enumerate(labels(cells[0]))}, c.index))
        return it.alloc(FrameDFC({l: y.a for l, y in zip(where, cells)}, cells[0].index))
    if any(isinstance(x, (Ref, tuple)) for x in out):
        if kwargs.get("result_type") == "expand" and ax == 1:
            rows = [it.iterate(x) for x in out]
            return it.alloc(FrameDFC({F.const(j): arr1([r[j] for r in rows]) for j in range(len(rows[0]))}, c.index))
        if any(isinstance(x, Ref) for x in out):
            return it.unk("DataFrame.apply")
    return it.alloc(SeriesC(arr1(out), None, c.index if ax == 1 else norm_labels(where)))


@meth(FrameDFC, "map", "applymap")
def fmap(it, o, args, kwargs):
    c = it.cell(o)
    return it.alloc(FrameDFC({k: arr1([it.call(args[0], [x], {}) for x in col]) for k, col in c.cols.items()}, c.index))


def _fmask(neg):
    def f(it, o, args, kwargs):
        c = it.cell(o)
        cond = narrow(arg(args, kwargs, 0, "cond"))
        if isinstance(cond, (FnV, Native, Bound)):
            cond = it.call(cond, [o], {})
        other = narrow(arg(args, kwargs, 1, "other", F.sym("nan")))
        m, x = to_array(it, cond), to_array(it, other)
        u = has_unk(m, x)
        if u:
            return u
        n, w = nrows(c), len(c.cols)
        if m.ndim == 1 or x.ndim == 1:
            return it.unk("where along an axis")
        m, x = np.broadcast_to(m, (n, w)), np.broadcast_to(x, (n, w))
        out = {}
        for j, (k, col) in enumerate(c.cols.items()):
            r = np.empty(n, dtype=object)
            for i in range(n):
                b = to_bdd(m[i, j])
                if isinstance(b, Unk):
                    r[i] = b
                    continue
                if neg:
                    b = G.NOT(b)
                r[i] = mk_phi([(b, col[i]), (G.NOT(b), x[i, j])])
            out[k] = r
        return it.alloc(FrameDFC(out, c.index))
    return f


METHOD_FNS[(FrameDFC, "where")] = _fmask(False)
METHOD_FNS[(FrameDFC, "mask")] = _fmask(True)


@meth(FrameDFC, "clip")
def f_clip(it, o, args, kwargs):
    c = it.cell(o)
    out = {}
    for k, col in c.cols.items():
        r = it.call(it.getattr(it.alloc(SeriesC(col, k, c.index)), "clip"), list(args), dict(kwargs))
        if isinstance(r, Unk):
            return r
        out[k] = it.cell(r).a
    return it.alloc(FrameDFC(out, c.index))


@meth(FrameDFC, "set_index")
def set_index(it, o, args, kwargs):
    c = it.cell(o)
    k = narrow(arg(args, kwargs, 0, "keys"))
    if isinstance(k, str):
        if k not in c.cols:
            it.raise_exc("KeyError", k)
        drop = narrow(kwargs.get("drop", True)) is True
        r = FrameDFC({n: x for n, x in c.cols.items() if not drop or n != k}, norm_labels(c.cols[k]))
    else:
        xs = it.iterate(k)
        if not isinstance(xs, list) or any(isinstance(x, str) and x in c.cols for x in xs):
            return it.unk("set_index")
        r = FrameDFC(dict(c.cols), norm_labels(xs))
    if narrow(kwargs.get("inplace")) is True:
        it.put(o, r)
        return None
    return it.alloc(r)


@meth(FrameDFC, "reset_index")
def reset_index(it, o, args, kwargs):
    c = it.cell(o)
    drop = narrow(kwargs.get("drop", False))
    if drop is True:
        r = FrameDFC(dict(c.cols), None)
    elif drop is False:
        r = FrameDFC({"index": arr1(labels(c)), **c.cols}, None)
    else:
        return it.unk("reset_index")
    if narrow(kwargs.get("inplace")) is True:
        it.put(o, r)
        return None
    return it.alloc(r)


@meth(SeriesC, "reset_index")
def s_reset_index(it, o, args, kwargs):
    c = it.cell(o)
    if narrow(kwargs.get("drop")) is True:
        return it.alloc(SeriesC(c.a, c.name, None))
    return it.alloc(FrameDFC({"index": arr1(labels(c)), c.name if c.name is not None else F.ZERO: c.a}, None))


@meth(FrameDFC, "pop")
def f_pop(it, o, args, kwargs):
    c = it.cell(o)
    k = args[0]
    if k not in c.cols:
        it.raise_exc("KeyError", str(k))
    r = it.alloc(SeriesC(c.cols[k], k, c.index))
    it.put(o, FrameDFC({n: x for n, x in c.cols.items() if n != k}, c.index))
    return r


@meth(FrameDFC, "get")
def f_get(it, o, args, kwargs):
    c = it.cell(o)
    if isinstance(args[0], str):
        if args[0] in c.cols:
            return it.alloc(SeriesC(c.cols[args[0]], args[0], c.index))
        return args[1] if len(args) > 1 else None
    return it.unk("get of a table")


@meth(FrameDFC, "tail")
def f_tail(it, o, args, kwargs):
    c = it.cell(o)
    k = const_int(arg(args, kwargs, 0, "n", F.const(5)))
    n = nrows(c)
    rows = list(range(max(n - k, 0), n))
    return it.alloc(FrameDFC({m: x[rows].copy() for m, x in c.cols.items()}, take_index(c, rows)))


def s_cut(name):
    def go(it, o, args, kwargs):
        c = it.cell(o)
        n = const_int(arg(args, kwargs, 0, "n", F.const(5)))
        if n is None:
            return it.unk(f"{name} of a symbolic number of rows")
        rows = list(range(len(c.a)))
        rows = rows[:n] if name == "head" else rows[-n:] if n else []
        return it.alloc(SeriesC(c.a[rows], c.name, take_index(c, rows)))
    return go


meth(SeriesC, "head")(s_cut("head"))
meth(SeriesC, "tail")(s_cut("tail"))


def _order_rows(it, vals, reverse):
    from . import lib
    rows = lib.sort_items(it, [(x, F.const(i)) for i, x in enumerate(vals)], Native("key", lambda it2, a, k: a[0][0]), reverse)
    if isinstance(rows, Unk):
        return rows
    out = [const_int(narrow(r[1])) if isinstance(r, tuple) else None for r in rows]
    return it.unk("order of rows by symbolic numbers") if any(i is None for i in out) else out


@meth(SeriesC, "sort_values")
def s_sort(it, o, args, kwargs):
    c = it.cell(o)
    rows = _order_rows(it, list(c.a), it.truth(kwargs.get("ascending", True)) is False)
    if isinstance(rows, Unk) or it.truth(kwargs.get("inplace", False)) is not False:
        return rows if isinstance(rows, Unk) else it.unk("sort in place")
    ig = it.truth(kwargs.get("ignore_index", False)) is True
    return it.alloc(SeriesC(c.a[rows], c.name, None if ig else take_index(c, rows)))


@meth(FrameDFC, "sort_values")
def f_sort(it, o, args, kwargs):
    c = it.cell(o)
    by = narrow(arg(args, kwargs, 0, "by"))
    by = [by] if isinstance(by, str) else it.iterate(by)
    asc = arg(args, kwargs, 99, "ascending", True)
    if not isinstance(by, list) or any(b not in c.cols for b in by) or isinstance(narrow(asc), Ref):
        return it.unk("sort_values")
    vals = [tuple(c.cols[b][i] for b in by) for i in range(nrows(c))]
    rows = _order_rows(it, vals if len(by) > 1 else [v[0] for v in vals], it.truth(asc) is False)
    if isinstance(rows, Unk):
        return rows
    ig = it.truth(kwargs.get("ignore_index", False)) is True
    new = FrameDFC({k: x[rows] for k, x in c.cols.items()}, None if ig else take_index(c, rows))
    if it.truth(kwargs.get("inplace", False)) is True:
        it.put(o, new)
        return None
    return it.alloc(new)


@meth(FrameDFC, "sort_index")
def f_sort_index(it, o, args, kwargs):
    c = it.cell(o)
    rows = _order_rows(it, labels(c), it.truth(kwargs.get("ascending", True)) is False)
    if isinstance(rows, Unk):
        return rows
    return it.alloc(FrameDFC({k: x[rows] for k, x in c.cols.items()}, take_index(c, rows)))


@meth(FrameDFC, "reindex")
def f_reindex(it, o, args, kwargs):
    c = it.cell(o)
    cols = kwargs.get("columns")
    if cols is None or len(kwargs) > 1 or args:
        return it.unk("reindex")
    names = it.iterate(cols)
    if any(n not in c.cols for n in names):
        return it.unk("reindex with new columns")
    return it.alloc(FrameDFC({n: c.cols[n] for n in names}, c.index))


def from_dict(it, args, kwargs):
    k = dict(kwargs)
    how = k.pop("orient", "columns")
    if how == "index":
        d = it.cell(narrow(arg(args, k, 0, "data")))
        rows = [it.iterate(x) for x in d.d.values()]
        return it.call(Ext("pandas.DataFrame"), [it.new_list([it.new_list(r) for r in rows])], {"columns": k.get("columns"), "index": it.new_list(list(d.d))})
    return it.call(Ext("pandas.DataFrame"), list(args), k)


EXT_FNS["pandas.DataFrame.from_dict"] = from_dict
EXT_FNS["pandas.DataFrame.from_records"] = lambda it, a, k: it.call(Ext("pandas.DataFrame"), a, k)
for _n, _op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("truediv", "/"), ("multiply", "*"), ("divide", "/"), ("subtract", "-"), ("pow", "**")):
    METHOD_FNS[(FrameDFC, _n)] = (lambda it, o, a, k, op=_op: M.binop(it, op, o, a[0]) if is_scalar(narrow(a[0])) or isinstance(narrow(a[0]), Ref) and isinstance(it.cell(narrow(a[0])), FrameDFC)
                                  else it.unk("arithmetic of a table along an axis"))


def frame_binop(it, op, a, b, fn):
    """table with number, table, or row of the same labels"""
    ca, cb = M.cellof(it, a), M.cellof(it, b)
    fa, fb = isinstance(ca, FrameDFC), isinstance(cb, FrameDFC)
    c = ca if fa else cb
    if fa and fb:
        if list(ca.cols) != list(cb.cols) or not same_index(ca, cb) or nrows(ca) != nrows(cb):
            return it.unk("tables of different labels")
        return it.alloc(FrameDFC({k: emap(fn, x, cb.cols[k]) for k, x in ca.cols.items()}, ca.index))
    o = b if fa else a
    if is_scalar(o):
        return it.alloc(FrameDFC({k: emap((lambda p: fn(p, o)) if fa else (lambda p: fn(o, p)), x) for k, x in c.cols.items()}, c.index))
    oc = M.cellof(it, o)
    arr = to_array(it, o)
    if isinstance(arr, Unk):
        return arr
    if isinstance(oc, SeriesC):
        if [x for x in labels(oc)] != list(c.cols):
            return it.unk("row of other labels")
    try:
        arr = np.broadcast_to(arr, (nrows(c), len(c.cols)))
    except ValueError:
        it.raise_exc("ValueError", "Unable to coerce")
    return it.alloc(FrameDFC({k: emap(fn, *((x, arr[:, j]) if fa else (arr[:, j], x))) for j, (k, x) in enumerate(c.cols.items())}, c.index))
