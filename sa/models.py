"""Transfer functions for Python builtins and the numeric libraries the repository uses."""
import ast
import math
import numpy as np
from . import forms as F
from . import guards as G
from . import values as V
from .values import *   # noqa
from .forms import Form
from . import seqs as S

from .values import INF  # noqa

EXT_EXC_BASES = {
    "scipy.sparse.linalg.ArpackError": ("RuntimeError", "Exception"),
    "scipy.sparse.linalg.ArpackNoConvergence": ("RuntimeError", "Exception", "scipy.sparse.linalg.ArpackError"),
    "numpy.linalg.LinAlgError": ("ValueError", "Exception"),
    "dataclasses.FrozenInstanceError": ("AttributeError", "Exception"),
}


def _Event(it, name, args, kwargs):
    from .interp import Event
    e = Event(name, tuple(args), dict(kwargs), it.st.pc, it.where(), it.cur_fn())
    it.events.append(e)
    return e


def Limit(msg):
    from .interp import Limit as L
    return L(msg)


# ================================================================ helpers

def cellof(it, v):
    return it.cell(v) if isinstance(v, Ref) else None


def is_scalar(v):
    if isinstance(v, (Form, bool, Cond)):
        return True
    if isinstance(v, Opaque):
        return v.tag in SCALAR_OPAQUE or v.tag not in NONSCALAR_OPAQUE
    if isinstance(v, Phi):
        return all(is_scalar(x) for _, x in v.alts)
    return False


SCALAR_OPAQUE = {"time"}
NONSCALAR_OPAQUE = {"dofs", "ext"}


def has_unk(*vs):
    for v in vs:
        if isinstance(v, Unk):
            return v
    return None


def key(it, v):
    """hashable dictionary key"""
    v = narrow(v)
    if isinstance(v, (Form, str, tuple, Ext, Builtin)) or v is None or isinstance(v, bool):
        if isinstance(v, bool):
            return F.ONE if v else F.ZERO
        if isinstance(v, tuple):
            return tuple(key(it, x) for x in v)
        return v
    if isinstance(v, Ref):
        c = it.cell(v)
        if isinstance(c, (ListC, DictC, ArrC, ViewC)) or isinstance(c, SetC) and not c.frozen:
            it.raise_exc("TypeError", "unhashable type")
        if isinstance(c, ObjC) and user_eq(it, c) and not user_hash(it, c):
            it.raise_exc("TypeError", "unhashable type")
    return v


def user_eq(it, c):
    return it.class_lookup(c.cls, "__eq__") is not None


def user_hash(it, c):
    """the class that says how instances are equal also says how they are hashed"""
    for k in c.cls.mro():
        if isinstance(k, ClassV):
            d = it.st.heap[k.ns]
            if "__hash__" in d:
                return d["__hash__"] is not None
            if "__eq__" in d:
                return False
    return True


def _complex_key(it, k):
    """keys whose equality is more than being the same"""
    if isinstance(k, Form):
        return k.const() is None
    if isinstance(k, tuple):
        return any(_complex_key(it, x) for x in k)
    if isinstance(k, Ref):
        c = it.cell(k)
        return isinstance(c, ObjC) and user_eq(it, c)
    return isinstance(k, (StrV, Cond, Opaque))


def _maybe_equal(it, q, k):
    """may the two keys be equal at all"""
    if isinstance(q, tuple) or isinstance(k, tuple):
        return isinstance(q, tuple) and isinstance(k, tuple) and len(q) == len(k) and all(_maybe_equal(it, x, y) for x, y in zip(q, k))
    if _complex_key(it, q) or _complex_key(it, k):
        for t in ((Form, bool, Cond), (str, StrV), (Ref,)):
            if isinstance(q, t) or isinstance(k, t):
                return isinstance(q, t) and isinstance(k, t)
        return True
    return q == k


def find_keys(it, d, kk):
    """[(key of d, guard under which it is the one)], guard under which there is none"""
    if kk in d:
        return [(kk, True)], False
    out, rest = [], True
    for q in d:
        if not _maybe_equal(it, q, kk):
            continue
        g = to_bdd(equals(it, q, kk))
        if isinstance(g, Unk):
            return g, None
        g = G.AND(rest, g)
        if g is not False and G.AND(it.st.pc, g) is not False:
            out.append((q, g))
            rest = G.AND(rest, G.NOT(g))
        if rest is False:
            break
    return out, rest


def const_int(v):
    v = V._num(v) if not isinstance(v, Form) else v
    if isinstance(v, Form):
        c = v.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def list_items(it, ref):
    c = it.cell(ref)
    return c.items


def get_arr(it, v, copy=False):
    """numpy object array of scalars for an array value, or None"""
    if isinstance(v, Ref):
        c = it.cell(v)
        if isinstance(c, ArrC):
            return c.a
        if isinstance(c, ViewC):
            b = get_arr(it, Ref(c.base))
            if b is None:
                return None
            return b.reshape(-1)[c.idx]
        if isinstance(c, SeriesC):
            return c.a
    return None


def to_array(it, v):
    """as np.array(v): array of scalars, or an Unk"""
    v = narrow(v)
    a = get_arr(it, v)
    if a is not None:
        return a
    if is_scalar(v):
        r = np.empty((), dtype=object)
        r[()] = v if not isinstance(v, (bool,)) else v
        return r
    if isinstance(v, Ref):
        c = it.cell(v)
        if isinstance(c, FrameDFC):
            cols = list(c.cols.values())
            r = np.empty((len(cols[0]) if cols else 0, len(cols)), dtype=object)
            for j, col in enumerate(cols):
                r[:, j] = col
            return r
        if isinstance(c, Unk):
            return c
    if isinstance(v, Ref) or isinstance(v, tuple):
        items = it.iterate(v)
        if isinstance(items, Unk):
            return items
        if not isinstance(items, list):
            return it.unk("array of a sequence of unknown length")
        subs = [to_array(it, x) for x in items]
        u = has_unk(*subs)
        if u:
            return u
        if not subs:
            return np.empty((0,), dtype=object)
        if any(s.shape != subs[0].shape for s in subs):
            return it.unk("ragged array")
        r = np.empty((len(subs),) + subs[0].shape, dtype=object)
        for i, s in enumerate(subs):
            r[i] = s if s.shape else s[()]
        return r
    if isinstance(v, Unk):
        return v
    if isinstance(v, str) or v is None or isinstance(v, StrV):
        r = np.empty((), dtype=object)
        r[()] = v
        return r
    if isinstance(v, Phi):
        # guarded arrays of one shape: merge elementwise
        subs = [(g, to_array(it, x)) for g, x in v.alts]
        u = has_unk(*[s for _, s in subs])
        if u:
            return u
        if any(s.shape != subs[0][1].shape for _, s in subs):
            return it.unk("guarded arrays of different shapes")
        r = np.empty(subs[0][1].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = mk_phi([(g, s[i]) for g, s in subs])
        return r
    return it.unk(f"array of {v!r}")


def wrap_arr(it, a):
    """result of an array operation: 0-d becomes a scalar"""
    if isinstance(a, Unk):
        return a
    if not isinstance(a, np.ndarray):
        return a
    if a.shape == ():
        return a[()]
    return it.new_arr(a)


def emap(fn, *arrs):
    """elementwise with broadcasting"""
    b = np.broadcast_arrays(*arrs)
    r = np.empty(b[0].shape, dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = fn(*[x[i] for x in b])
    return r


def is_arraylike(it, v):
    return get_arr(it, v) is not None


# ================================================================ truth / iteration / equality

def truth(it, v):
    v = narrow(v)
    if v is True or v is False:
        return v
    if v is None:
        return False
    if isinstance(v, Cond):
        return v.b
    if isinstance(v, Unk):
        return v
    if isinstance(v, Form):
        return G.NOT(G.eq0(v))
    if isinstance(v, str):
        return len(v) > 0
    if isinstance(v, StrV):
        return True
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, Phi):
        r = False
        for g, x in v.alts:
            b = truth(it, x)
            if isinstance(b, Unk):
                return b
            r = G.OR(r, G.AND(g, b))
        return r
    if isinstance(v, Ref):
        c = it.cell(v)
        if isinstance(c, ListC):
            if any(it.is_part(x) for x in c.items):
                return G.gt0(S.length(c.items))
            return G.OR(*[x.g if isinstance(x, Gitem) else True for x in c.items])
        if isinstance(c, DictC):
            r = False
            for x in c.d.values():
                r = G.OR(r, present(x))
            return r
        if isinstance(c, SetC):
            return G.OR(*c.d.values()) if c.d else False
        if isinstance(c, TableC):
            return True
        if isinstance(c, ObjC):
            m = it.class_lookup(c.cls, "__bool__")
            if m is not None:
                return truth(it, it.call(m, [v], {}))
            m = it.class_lookup(c.cls, "__len__")
            if m is not None:
                return truth(it, it.call(m, [v], {}))
            return True
        a = get_arr(it, v)
        if a is not None:
            if a.size == 1:
                return truth(it, a.reshape(-1)[0])
            it.raise_exc("ValueError", "truth value of an array is ambiguous")
        if isinstance(c, Unk):
            return c
        return True
    if isinstance(v, Opaque):
        return True if v.tag in ("re.match", "re.pattern") else G.pred("truth", V.OpaqueKey(v))
    return True


def present(x):
    """guard under which a dictionary value is there"""
    if isinstance(x, Undef):
        return False
    if isinstance(x, Phi):
        r = False
        for g, y in x.alts:
            if not isinstance(y, Undef):
                r = G.OR(r, g)
        return r if any(isinstance(y, Undef) for _, y in x.alts) else True
    return True


def drop_undef(x):
    if isinstance(x, Phi):
        al = [(g, y) for g, y in x.alts if not isinstance(y, Undef)]
        return al[0][1] if len(al) == 1 else Phi(al)
    return x


def iterate(it, v, lazy=False):
    v = narrow(v)
    if isinstance(v, ClassV) and hasattr(v, "enum"):
        return [r for r, _ in v.enum.values()]
    if isinstance(v, list):
        return v
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Unk):
        return v
    if isinstance(v, str):
        return list(v)
    if isinstance(v, S.Seq):
        return v
    if isinstance(v, Ref):
        c = it.cell(v)
        if isinstance(c, (ListC, IterC)):
            items = c.items
            if isinstance(c, IterC):
                it.put(v, IterC(()), note=False)
            if any(it.is_part(x) for x in items):
                return S.Seq(items)
            if any(isinstance(x, Gitem) for x in items) and not lazy:
                items2 = flatten_gitems(it, items)
                if items2 is None:
                    return it.unk("sequence with items under guards")
                return items2
            return list(items)
        if isinstance(c, DictC):
            out = []
            for k, x in c.d.items():
                g = present(x)
                if G.AND(g, it.st.pc) is False:
                    continue
                out.append(k if G.implies(it.st.pc, g) else Gitem(g, k))
            if any(isinstance(x, Gitem) for x in out) and not lazy:
                return it.unk("dict with keys under guards")
            return out
        if isinstance(c, TableC):
            return list(c.d)
        if isinstance(c, SetC):
            out = []
            for k, g in c.d.items():
                out.append(k if G.implies(it.st.pc, g) else Gitem(g, k))
            if len(out) > 1 and any(isinstance(x.v if isinstance(x, Gitem) else x, (str, StrV, tuple)) for x in out):
                it.sets_of_text += 1
                if it.reverse_sets:
                    out = out[::-1]
            if any(isinstance(x, Gitem) for x in out) and not lazy:
                return it.unk("set with items under guards")
            return out
        if isinstance(c, SeriesC):
            return list(c.a)
        if isinstance(c, FrameDFC):
            return list(c.cols)
        if isinstance(c, CounterC):
            return it.unk("iteration over itertools.count")
        a = get_arr(it, v)
        if a is not None:
            if a.ndim == 0:
                it.raise_exc("TypeError", "iteration over a 0-d array")
            if a.ndim == 1:
                return list(a)
            return [view(it, v, (i,)) for i in range(a.shape[0])]
        if isinstance(c, ObjC):
            nx = it.class_lookup(c.cls, "__next__")
            if nx is not None:
                return _drain(it, v, nx)
            m = it.class_lookup(c.cls, "__iter__")
            if m is not None:
                return iterate(it, it.call(m, [v], {}), lazy)
            m = it.class_lookup(c.cls, "__getitem__")
            if m is not None:
                ln = it.class_lookup(c.cls, "__len__")
                n = const_int(it.call(ln, [v], {})) if ln else None
                if n is not None:
                    return [it.call(m, [v, F.const(i)], {}) for i in range(n)]
            it.raise_exc("TypeError", "object is not iterable")
        if isinstance(c, Unk):
            return c
    if isinstance(v, Phi):
        rows = []
        for g, x in v.alts:
            r = iterate(it, x, lazy)
            if not isinstance(r, list):
                return it.unk("iteration over guarded sequences")
            rows.append((g, r))
        if len({len(r) for _, r in rows}) == 1:
            return [mk_phi([(g, r[i]) for g, r in rows]) for i in range(len(rows[0][1]))]
        if lazy:
            from .interp import _lcs_merge
            acc = [(rows[0][0], x) for x in rows[0][1]]
            for g, r in rows[1:]:
                acc = _lcs_merge(acc, [(g, x) for x in r])
            return [x if G.implies(it.st.pc, g) else Gitem(g, x) for g, x in acc]
        return it.unk("iteration over guarded sequences of different lengths")
    if v is None or isinstance(v, (Form, bool, Cond)):
        it.raise_exc("TypeError", "object is not iterable")
    if isinstance(v, Opaque):
        return it.unk(f"iteration over {v!r}")
    return it.unk(f"iteration over {v!r}")


def _drain(it, v, nx):
    """the items of an iterator object"""
    out = []
    while len(out) < 10000:
        frame = it.st.frame
        x, alive, exc = it.run(lambda: it.call(nx, [v], {}))
        stop = [s for s, e in exc if isinstance(e.cls, Builtin) and e.cls.name == "StopIteration"]
        other = [(s, e) for s, e in exc if not (isinstance(e.cls, Builtin) and e.cls.name == "StopIteration")]
        it.exc_sinks[-1].extend(other)
        if not alive:
            if not stop:
                from .interp import Dead
                raise Dead()
            if len(stop) > 1:
                it.join([(s, None) for s in stop])
            else:
                it.st = stop[0]
            it.st.frame = frame
            return out
        if stop:
            return it.unk("iterator that ends under conditions")
        out.append(x)
    return it.unk("endless iterator")


def flatten_gitems(it, items):
    """positions of a sequence with guarded items, when its length does not depend on the guards"""
    combos = [(it.st.pc, ())]
    for x in items:
        if isinstance(x, Gitem):
            new = []
            for g, t in combos:
                a, b = G.AND(g, x.g), G.AND(g, G.NOT(x.g))
                if a is not False:
                    new.append((a, t + (x.v,)))
                if b is not False:
                    new.append((b, t))
            combos = new
        else:
            combos = [(g, t + (x,)) for g, t in combos]
        if len(combos) > 600:
            return None
    if len({len(t) for _, t in combos}) != 1:
        return None
    n = len(combos[0][1])
    return [mk_phi([(g, t[i]) for g, t in combos]) for i in range(n)]


NUMCHARS = set("0123456789.+-eE_ ")


def is_tok(ch):
    return "\ue000" <= ch <= "\uf8ff"


def has_tok(s):
    return any(is_tok(c) for c in s)


def str_eq(it, a, b):
    if a == b:
        return True
    if has_tok(a) or has_tok(b):
        ka, kb = _skel(a), _skel(b)
        if ka == kb and has_tok(a) and has_tok(b):
            return mk_bool(G.pred("same text", a, b))
        other = b if has_tok(a) else a
        if other and all(c in NUMCHARS or is_tok(c) for c in other):
            return mk_bool(G.pred("same text", a, b))
    return False


def _skel(s):
    return "".join("#" if is_tok(c) else c for c in s)


def equals(it, a, b):
    a, b = narrow(a), narrow(b)
    u = has_unk(a, b)
    if u:
        return u
    if isinstance(a, Phi) or isinstance(b, Phi):
        if is_scalar(a) and is_scalar(b):
            return mk_b(clift(lambda x, y: compare("==", x, y), a, b))
        if isinstance(a, Phi):
            alts = [(g, (lambda x=x: equals(it, x, b))) for g, x in a.alts]
        else:
            alts = [(g, (lambda x=x: equals(it, a, x))) for g, x in b.alts]
        r = it.tidy_bool(it.fork_join(alts))
        return r
    if isinstance(a, str) and isinstance(b, str):
        return str_eq(it, a, b)
    if isinstance(a, StrV) or isinstance(b, StrV):
        if isinstance(a, StrV) and isinstance(b, StrV) and identical(a, b):
            return True
        if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return mk_bool(G.pred("same text", canon(a), canon(b)))
        return False
    if a is None or b is None:
        if a is None and b is None:
            return True
        x = b if a is None else a
        if isinstance(x, Opaque) and x.tag not in ("re.match", "re.pattern"):
            return mk_bool(G.pred("is None", V.OpaqueKey(x)))
        return False
    aa, ba = get_arr(it, a), get_arr(it, b)
    if aa is not None or ba is not None:
        x, y = to_array(it, a), to_array(it, b)
        u = has_unk(x, y)
        if u:
            return u
        try:
            return wrap_arr(it, emap(lambda p, q: equals(it, p, q), x, y))
        except ValueError:
            return False
    if isinstance(a, (Form, bool, Cond)) and isinstance(b, (Form, bool, Cond)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return mk_b(clift(lambda x, y: compare("==", x, y), a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return seq_eq(it, list(a), list(b))
    if isinstance(a, Ref) and isinstance(b, Ref):
        ca, cb = it.cell(a), it.cell(b)
        if isinstance(ca, ObjC) or isinstance(cb, ObjC):
            return obj_eq(it, a, b)
        if type(ca) is not type(cb):
            return False
        if isinstance(ca, ListC):
            x, y = iterate(it, a), iterate(it, b)
            if isinstance(x, list) and isinstance(y, list):
                return seq_eq(it, x, y)
            if a.a == b.a:
                return True
            return S.seq_equal(it, x, y)
        if isinstance(ca, DictC):
            keys = list(ca.d) + [k for k in cb.d if k not in ca.d]
            acc = True
            for k in keys:
                if k not in ca.d or k not in cb.d:
                    return False
                r = to_bdd(equals(it, ca.d[k], cb.d[k]))
                if isinstance(r, Unk):
                    return r
                acc = G.AND(acc, r)
            return mk_bool(acc)
        if isinstance(ca, SetC):
            return mk_bool(set(ca.d) == set(cb.d))
        return mk_bool(a.a == b.a)
    if isinstance(a, Ref) and isinstance(it.cell(a), ObjC) or isinstance(b, Ref) and isinstance(it.cell(b), ObjC):
        return obj_eq(it, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if identical(a, b):
            return True
        if is_scalar(a) and is_scalar(b):
            return mk_b(compare("==", a, b))
        if isinstance(a, Opaque) and a.tag == "dofs" and isinstance(b, (str, Form, tuple)) or \
           isinstance(b, Opaque) and b.tag == "dofs" and isinstance(a, (str, Form, tuple)):
            return False
        return mk_bool(G.pred("equal", canon(a), canon(b)))
    if type(a) is type(b):
        return identical(a, b)
    return False


def mk_b(b):
    return b if isinstance(b, Unk) else mk_bool(b)


def seq_eq(it, x, y):
    if len(x) != len(y):
        return False
    acc = True
    for p, q in zip(x, y):
        if isinstance(p, Ref) and isinstance(q, Ref) and p.a == q.a:
            continue            # identity implies equality for containers
        b = to_bdd(equals(it, p, q))
        if isinstance(b, Unk):
            return b
        acc = G.AND(acc, b)
        if acc is False:
            return False
    return mk_bool(acc)


def obj_eq(it, a, b):
    """the answer of the first operand, else that of the second, else identity"""
    NI = Builtin("NotImplemented")

    def ask(pairs):
        for n, (x, y) in enumerate(pairs):
            if isinstance(x, Ref) and isinstance(it.cell(x), ObjC):
                m = it.class_lookup(it.cell(x).cls, "__eq__")
                if m is not None:
                    r = narrow(it.call(m, [x, y], {}))
                    if isinstance(r, Phi) and any(v == NI for _, v in r.alts):
                        return it.tidy_bool(it.fork_join([(g, (lambda v=v: ask(pairs[n + 1:]) if v == NI else v)) for g, v in r.alts]))
                    if r != NI:
                        return r
        return is_(it, a, b)
    return ask([(a, b), (b, a)])


def is_(it, a, b):
    a, b = narrow(a), narrow(b)
    u = has_unk(a, b)
    if u:
        return u
    if isinstance(a, Phi):
        r = False
        for g, x in a.alts:
            c = to_bdd(is_(it, x, b))
            if isinstance(c, Unk):
                return c
            r = G.OR(r, G.AND(g, c))
        return mk_bool(r)
    if isinstance(b, Phi):
        return is_(it, b, a)
    if a is None or b is None:
        x = b if a is None else a
        if x is None:
            return True
        if isinstance(x, Opaque) and x.tag == "maybe":
            return mk_bool(G.pred("is None", V.OpaqueKey(x)))
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        x, y = (a, b) if isinstance(a, bool) else (b, a)
        if isinstance(y, Cond):
            return mk_bool(y.b if x else G.NOT(y.b))
        return x is y
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.a == b.a
    if type(a) is not type(b):
        return False
    if isinstance(a, (Form, str)):
        if a == b:
            return True
        return False if isinstance(a, str) else mk_b(compare("==", a, b))
    return identical(a, b)


def cmp(it, op, a, b):
    if isinstance(op, ast.Eq):
        return equals(it, a, b)
    if isinstance(op, ast.NotEq):
        for x in (a,):
            if isinstance(x, Ref) and isinstance(it.cell(x), ObjC):
                m = it.class_lookup(it.cell(x).cls, "__ne__")
                if m is not None:
                    return it.call(m, [a, b], {})
        r = equals(it, a, b)
        return negate(it, r)
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_(it, a, b)
        return negate(it, r) if isinstance(op, ast.IsNot) else r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(it, b, a)
        return negate(it, r) if isinstance(op, ast.NotIn) else r
    o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
    return order(it, o, a, b)


def negate(it, r):
    if isinstance(r, Unk):
        return r
    if isinstance(r, Ref):
        return invert(it, r)
    b = to_bdd(r)
    return b if isinstance(b, Unk) else mk_bool(G.NOT(b))


def order(it, o, a, b):
    a, b = narrow(a), narrow(b)
    u = has_unk(a, b)
    if u:
        return u
    aa, ba = get_arr(it, a), get_arr(it, b)
    if isinstance(cellof(it, a), FrameDFC) or isinstance(cellof(it, b), FrameDFC):
        return pandas_.frame_binop(it, o, a, b, lambda p, q: mk_b(clift(lambda s, t: compare(o, s, t), p, q)))
    if aa is not None or ba is not None:
        x, y = to_array(it, a), to_array(it, b)
        u = has_unk(x, y)
        if u:
            return u
        r = emap(lambda p, q: mk_b(clift(lambda s, t: compare(o, s, t), p, q)), x, y)
        return like(it, a if aa is not None else b, r)
    if is_scalar(a) and is_scalar(b):
        return mk_b(clift(lambda x, y: compare(o, x, y), a, b))
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
    if isinstance(a, tuple) and isinstance(b, tuple):
        # lexicographic
        strict = o in ("<", ">")

        def go(i):
            if i == len(a) or i == len(b):
                if len(a) == len(b):
                    return not strict
                shorter = i == len(a)
                return shorter if o in ("<", "<=") else not shorter
            e = to_bdd(equals(it, a[i], b[i]))
            s = to_bdd(order(it, o[0], a[i], b[i])) if e is not True else False
            if isinstance(e, Unk) or isinstance(s, Unk):
                return it.unk("tuple order")
            r = go(i + 1) if e is not False else False
            if isinstance(r, Unk):
                return r
            return G.OR(s, G.AND(e, to_bdd(r)))
        r = go(0)
        return r if isinstance(r, Unk) else mk_bool(r)
    if isinstance(a, Phi) or isinstance(b, Phi):
        alts = [(g, (lambda x=x: order(it, o, x, b))) for g, x in a.alts] if isinstance(a, Phi) else \
            [(g, (lambda x=x: order(it, o, a, x))) for g, x in b.alts]
        return it.tidy_bool(it.fork_join(alts))
    nm = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[o]
    if isinstance(a, Ref) and isinstance(it.cell(a), ObjC):
        m = it.class_lookup(it.cell(a).cls, nm)
        if m is not None:
            return it.call(m, [a, b], {})
    if isinstance(a, Ref) and isinstance(it.cell(a), SetC) and o in ("<=", "<"):
        cb = cellof(it, b)
        if isinstance(cb, SetC):
            return mk_bool(G.AND(*[G.OR(G.NOT(g), cb.d.get(k, False)) for k, g in it.cell(a).d.items()]))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        it.raise_exc("TypeError", "unorderable types")
    return it.unk(f"comparison of {a!r} and {b!r}")


def contains(it, box, x):
    box, x = narrow(box), narrow(x)
    u = has_unk(box, x)
    if u:
        return u
    if isinstance(box, Phi):
        return it.tidy_bool(it.fork_join([(g, (lambda b=b: contains(it, b, x))) for g, b in box.alts]))
    if isinstance(x, Phi) and not is_scalar(x):
        return it.tidy_bool(it.fork_join([(g, (lambda b=b: contains(it, box, b))) for g, b in x.alts]))
    if isinstance(box, str):
        if isinstance(x, str):
            return x in box
        if isinstance(x, StrV):
            return mk_bool(G.pred("substring", canon(x), box))
        it.raise_exc("TypeError", "in <string>")
    if isinstance(box, StrV):
        return mk_bool(G.pred("substring", canon(x), canon(box)))
    if isinstance(box, Opaque) and box.tag == "dofs":
        return mk_bool(G.pred("in", canon(x), box.args[0]))
    if isinstance(box, Ref):
        c = it.cell(box)
        if isinstance(c, (DictC,)):
            k = key(it, x)
            if isinstance(k, Phi):
                r = False
                for g, y in k.alts:
                    r = G.OR(r, G.AND(g, present(c.d[y]) if y in c.d else False))
                return mk_bool(r)
            if isinstance(k, tuple) and any(isinstance(y, Phi) for y in k):
                i = next(i for i, y in enumerate(k) if isinstance(y, Phi))
                return it.tidy_bool(it.fork_join([(g, (lambda y=y: contains(it, box, k[:i] + (y,) + k[i + 1:]))) for g, y in k[i].alts]))
            ks, rest = find_keys(it, c.d, k)
            if isinstance(ks, Unk):
                return ks
            r = False
            for q, g in ks:
                r = G.OR(r, G.AND(g, present(c.d[q])))
            return mk_bool(r)
        if isinstance(c, TableC):
            return key(it, x) in c.d
        if isinstance(c, SetC):
            k = key(it, x)
            if k in c.d:
                return mk_bool(c.d[k])
            r = False
            for kk, g in c.d.items():
                b = to_bdd(equals(it, kk, x))
                if isinstance(b, Unk):
                    return b
                r = G.OR(r, G.AND(g, b))
            return mk_bool(r)
        if isinstance(c, FrameDFC):
            return x in c.cols
        if isinstance(c, ObjC):
            m = it.class_lookup(c.cls, "__contains__")
            if m is not None:
                return it.call(m, [box, x], {})
    items = iterate(it, box, lazy=True)
    if isinstance(items, Unk):
        return items
    if not isinstance(items, list):
        return S.contains(it, items, x)
    r = False
    for y in items:
        g = True
        if isinstance(y, Gitem):
            g, y = y.g, y.v
        b = to_bdd(equals(it, y, x))
        if isinstance(b, Unk):
            return b
        r = G.OR(r, G.AND(g, b))
        if r is True:
            break
    return mk_bool(r)


# ================================================================ arithmetic

DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "**": "pow", "//": "floordiv", "%": "mod", "@": "matmul",
          "&": "and", "|": "or", "^": "xor"}


def like(it, proto, a):
    """wrap a like the operand proto (Series stay Series)"""
    if isinstance(a, Unk):
        return a
    if isinstance(proto, Ref) and isinstance(it.cell(proto), SeriesC) and a.ndim == 1:
        return it.alloc(SeriesC(a, it.cell(proto).name, it.cell(proto).index if len(a) == len(it.cell(proto).a) else None))
    return wrap_arr(it, a)


def binop(it, op, a, b):
    a, b = narrow(a), narrow(b)
    u = has_unk(a, b)
    if u:
        return u
    if op in ("+", "%") and (istext(a) or istext(b)):
        return Opaque("text", "made with " + op, frz(it, a), frz(it, b))
    if is_scalar(a) and is_scalar(b):
        if op in ("&", "|", "^"):
            x, y = to_bdd(a) if isinstance(a, (bool, Cond)) else None, to_bdd(b) if isinstance(b, (bool, Cond)) else None
            if x is not None and y is not None:
                return mk_bool({"&": lambda: G.AND(x, y), "|": lambda: G.OR(x, y),
                                "^": lambda: G.OR(G.AND(x, G.NOT(y)), G.AND(y, G.NOT(x)))}[op]())
            xc, yc = const_int(a), const_int(b)
            if xc is not None and yc is not None:
                return F.const({"&": xc & yc, "|": xc | yc, "^": xc ^ yc}[op])
            if op == "&" and yc == 1 and isinstance(a, Form):
                return arith("%", a, F.const(2))
            return it.unk("bitwise operation")
        if op in ("<<", ">>"):
            yc = const_int(b)
            if yc is not None:
                return arith("*" if op == "<<" else "//", a, F.const(2 ** yc))
            return it.unk("shift")
        return arith(op, a, b)
    if isinstance(a, Phi) and not is_scalar(a):
        return it.fork_join([(g, (lambda x=x: binop(it, op, x, b))) for g, x in a.alts])
    if isinstance(b, Phi) and not is_scalar(b):
        return it.fork_join([(g, (lambda x=x: binop(it, op, a, x))) for g, x in b.alts])
    # objects with operator methods
    for x, y, nm in ((a, b, f"__{DUNDER.get(op)}__"), (b, a, f"__r{DUNDER.get(op)}__")):
        if isinstance(x, Ref) and isinstance(it.cell(x), ObjC):
            m = it.class_lookup(it.cell(x).cls, nm)
            if m is not None:
                return it.call(m, [x, y], {})
    # strings
    if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
        if op == "+" and isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return concat_str(it, [a, b])
        if op == "*":
            s, n = (a, b) if isinstance(a, (str, StrV)) else (b, a)
            k = const_int(n)
            if k is not None:
                return concat_str(it, [s] * max(k, 0))
            if isinstance(n, Form):
                return S.repeat_str(it, s, n)
        if op == "%" and isinstance(a, str):
            return str_percent(it, a, b)
        if isinstance(a, Form) or isinstance(b, Form) or a is None or b is None:
            it.raise_exc("TypeError", "unsupported operand types")
        return it.unk(f"string operator {op}")
    # arrays
    aa, ba = get_arr(it, a), get_arr(it, b)
    ca, cb = cellof(it, a), cellof(it, b)
    if isinstance(ca, FrameDFC) or isinstance(cb, FrameDFC):
        if op == "@":
            return binop(it, op, it.new_arr(to_array(it, a)) if isinstance(ca, FrameDFC) else a, it.new_arr(to_array(it, b)) if isinstance(cb, FrameDFC) else b)
        return pandas_.frame_binop(it, op, a, b, (lambda p, q: binop(it, op, p, q)) if op in ("&", "|", "^") else (lambda p, q: arith(op, p, q)))
    if isinstance(ca, SeriesC) and isinstance(cb, SeriesC) and not pandas_.same_index(ca, cb):
        return it.unk("series of different labels")
    if aa is not None or ba is not None:
        x, y = to_array(it, a), to_array(it, b)
        u = has_unk(x, y)
        if u:
            return u
        if op == "@":
            return matmul(it, x, y)
        try:
            if op in ("&", "|", "^"):
                r = emap(lambda p, q: binop(it, op, p, q), x, y)
            else:
                r = emap(lambda p, q: arith(op, p, q), x, y)
        except ValueError:
            it.raise_exc("ValueError", "operands could not be broadcast together")
        return like(it, a if aa is not None and (ba is None or isinstance(ca, SeriesC)) else (b if aa is None or isinstance(cb, SeriesC) else a), r)
    # sequences
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
        return a + b
    if op == "+" and isinstance(ca, ListC) and isinstance(cb, ListC):
        return it.new_list(ca.items + cb.items)
    if op == "*":
        s, n = (a, b) if (isinstance(a, tuple) or isinstance(ca, ListC)) else (b, a)
        cs = cellof(it, s)
        k = const_int(n)
        if isinstance(s, tuple) and k is not None:
            return s * k
        if isinstance(cs, ListC):
            if k is not None:
                return it.new_list(cs.items * max(k, 0))
            if isinstance(n, Form):
                return S.repeat_list(it, cs, n)
    if isinstance(ca, SetC) and isinstance(cb, SetC):
        return set_op(it, op, ca, cb)
    if isinstance(ca, DictC) and isinstance(cb, DictC) and op == "|":
        return it.new_dict({**ca.d, **cb.d})
    for c in (ca, cb):
        if isinstance(c, Unk):
            return c
    if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple) or isinstance(ca, (ListC, DictC)) or isinstance(cb, (ListC, DictC)):
        it.raise_exc("TypeError", f"unsupported operand types for {op}")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("op" + op, a if not isinstance(a, Ref) else S.freeze(it, a), b if not isinstance(b, Ref) else S.freeze(it, b))
    return it.unk(f"operator {op} on {a!r}, {b!r}")


def set_op(it, op, ca, cb):
    if op == "|":
        d = dict(ca.d)
        for k, g in cb.d.items():
            d[k] = G.OR(d.get(k, False), g)
    elif op == "&":
        d = {k: G.AND(g, cb.d[k]) for k, g in ca.d.items() if k in cb.d}
    elif op == "-":
        d = {k: G.AND(g, G.NOT(cb.d.get(k, False))) for k, g in ca.d.items()}
    else:
        return it.unk("set operator")
    return it.alloc(SetC({k: g for k, g in d.items() if g is not False}))


def inplace(it, op, cur, v):
    cur = narrow(cur)
    if isinstance(cur, Phi) and not is_scalar(cur):
        return it.fork_join([(g, (lambda x=x: inplace(it, op, x, v))) for g, x in cur.alts])
    if isinstance(cur, Ref):
        c = it.cell(cur)
        if isinstance(c, ListC):
            if op == "+":
                call(it, Method(cur, "extend"), [v], {})
                return cur
            if op == "*":
                r = binop(it, op, cur, v)
                if isinstance(r, Ref):
                    it.put(cur, it.cell(r))
                    return cur
                return r
        if isinstance(c, (ArrC, ViewC)):
            r = binop(it, op, cur, v)
            a = get_arr(it, r)
            if isinstance(r, Unk):
                it.put(cur, r)
                return r
            x = get_arr(it, cur)
            if a is None or a.shape != x.shape:
                a2 = to_array(it, r)
                if isinstance(a2, Unk) or a2.shape != x.shape:
                    it.raise_exc("ValueError", "in-place operation changes the shape")
                a = a2
            write_arr(it, cur, a)
            return cur
        if isinstance(c, SetC) and op in ("|", "&", "-"):
            r = binop(it, op, cur, v)
            it.put(cur, it.cell(r))
            return cur
        if isinstance(c, DictC) and op == "|":
            call(it, Method(cur, "update"), [v], {})
            return cur
        if isinstance(c, ObjC):
            m = it.class_lookup(c.cls, f"__i{DUNDER.get(op)}__")
            if m is not None:
                return it.call(m, [cur, v], {})
    return binop(it, op, cur, v)


def write_arr(it, ref, a):
    """overwrite all elements of the array or view"""
    c = it.cell(ref)
    if isinstance(c, ViewC):
        root = Ref(c.base)
        b = it.cell(root).a.copy()
        b.reshape(-1)[c.idx] = a
        it.put(root, ArrC(b))
        if ref.a in it.watch:
            it.put(ref, c)
    elif isinstance(c, SeriesC):
        it.put(ref, SeriesC(a, c.name, c.index))
    else:
        it.put(ref, ArrC(a))


def matmul(it, x, y):
    if x.ndim == 0 or y.ndim == 0:
        it.raise_exc("ValueError", "matmul of a scalar")
    try:
        if x.ndim <= 2 and y.ndim <= 2:
            if x.shape[-1] != y.shape[0]:
                it.raise_exc("ValueError", "matmul: shapes do not match")
            xs = x.reshape(1, -1) if x.ndim == 1 else x
            ys = y.reshape(-1, 1) if y.ndim == 1 else y
            r = np.empty((xs.shape[0], ys.shape[1]), dtype=object)
            for i in range(xs.shape[0]):
                for j in range(ys.shape[1]):
                    acc = F.ZERO
                    for k in range(xs.shape[1]):
                        p, q = xs[i, k], ys[k, j]
                        if isinstance(p, Form) and not p.t or isinstance(q, Form) and not q.t:
                            continue
                        acc = arith("+", acc, arith("*", p, q))
                    r[i, j] = acc
            if x.ndim == 1 and y.ndim == 1:
                return r[0, 0]
            if x.ndim == 1:
                r = r[0]
            elif y.ndim == 1:
                r = r[:, 0]
            return it.new_arr(r)
        # stacked matrices
        if x.ndim == 1 or y.ndim == 1:
            if x.shape[-1] != y.shape[-2 if y.ndim > 1 else 0]:
                it.raise_exc("ValueError", "matmul: shapes do not match")
            return it.new_arr(np.squeeze(get_arr(it, matmul(it, x.reshape(1, -1) if x.ndim == 1 else x, y.reshape(-1, 1) if y.ndim == 1 else y)),
                                         axis=-2 if x.ndim == 1 else -1))
        if x.shape[-1] != y.shape[-2]:
            it.raise_exc("ValueError", "matmul: shapes do not match")
        bx = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
        X = np.broadcast_to(x, bx + x.shape[-2:])
        Y = np.broadcast_to(y, bx + y.shape[-2:])
        r = np.empty(bx + (x.shape[-2], y.shape[-1]), dtype=object)
        for i in np.ndindex(*bx):
            r[i] = get_arr(it, matmul(it, X[i], Y[i]))
        return it.new_arr(r)
    except (ValueError, TypeError) as e:
        return it.unk(f"matmul {x.shape} {y.shape}")


def invert(it, v):
    a = get_arr(it, v)
    if a is not None:
        return like(it, v, emap(lambda p: mk_bool(G.NOT(to_bdd(p))) if not isinstance(to_bdd(p), Unk) else p, a))
    if isinstance(v, (bool, Cond)):
        if isinstance(v, Cond):
            return mk_bool(G.NOT(v.b))
        return F.const(~int(v))
    if isinstance(v, Form):
        return F.const(-1) - v
    return it.unk("~")


# ================================================================ strings

def concat_str(it, parts):
    if any(isinstance(p, Unk) for p in parts):
        return next(p for p in parts if isinstance(p, Unk))
    if any(isinstance(p, Phi) for p in parts):
        return lift(lambda *ps: mk_str(ps), *parts)
    if any(isinstance(p, S.HoleStr) for p in parts):
        return S.concat_hole(it, parts)
    return mk_str(parts)


def to_format(it, v, spec):
    v = narrow(v)
    if isinstance(v, Unk):
        return v
    if isinstance(v, Phi):
        return lift(lambda x: to_format(it, x, spec), v)
    if spec == "":
        return to_str(it, v)
    if isinstance(v, str) and not has_tok(v):
        try:
            return format(v, spec)
        except ValueError:
            return it.unk("format")
    k = const_int(v) if isinstance(v, Form) else None
    if k is not None and (spec.endswith("d") or spec.isdigit()):
        return format(k, spec)
    if isinstance(v, Form) and v.const() is not None and isinstance(spec, str) and spec[-1] in "feg%" and not has_tok(spec):
        try:
            return format(float(v.const()), spec)
        except ValueError:
            it.raise_exc("ValueError", "Invalid format specifier")
    return StrV([(frz(it, v), spec)])


def istext(v):
    return isinstance(v, Opaque) and v.tag in ("tabletext", "text")


def frz(it, v):
    return S.freeze(it, v) if isinstance(v, Ref) else v


def np_index_maker(it, name, k):
    """numpy.r_, c_, s_"""
    if name == "s_":
        return k
    if name == "index_exp":
        return k if isinstance(k, tuple) else (k,)
    parts = []
    for x in k if isinstance(k, tuple) else (k,):
        if isinstance(x, str):
            return it.unk(f"numpy.{name} with a directive")
        if isinstance(x, SliceV):
            x = call_ext(it, "numpy.arange", [F.ZERO if x.lo is None else x.lo, x.hi] + ([x.step] if x.step is not None else []), {})
        a = to_array(it, x)
        if isinstance(a, Unk):
            return a
        parts.append(np.atleast_1d(a))
    if name == "c_":
        parts = [a.reshape(-1, 1) if a.ndim == 1 else a for a in parts]
    try:
        return it.new_arr(np.concatenate(parts, axis=-1 if name == "c_" else 0))
    except ValueError as e:
        it.raise_exc("ValueError", str(e))


def to_str(it, v):
    v = narrow(v)
    if isinstance(v, ExcV):
        m = it.class_lookup(v.cls, "__str__") if isinstance(v.cls, ClassV) else None
        if m is not None and hasattr(v, "obj"):
            return it.call(m, [v.obj], {})
        if len(v.args) == 1 and not (isinstance(v.cls, Builtin) and v.cls.name == "KeyError"):
            return to_str(it, v.args[0])
        if not v.args:
            return ""
        return to_repr(it, v.args[0]) if len(v.args) == 1 else StrV([(frz(it, tuple(v.args)), "")])
    if isinstance(v, (str, StrV)):
        return v
    if isinstance(v, S.HoleStr):
        return v
    if v is None or isinstance(v, bool):
        return str(v)
    if isinstance(v, Form):
        k = const_int(v)
        if k is not None and is_int_const(v):
            return str(k)
        return StrV([(v, "")])
    if isinstance(v, Phi):
        return lift(lambda x: to_str(it, x), v)
    if isinstance(v, Ref) and isinstance(it.cell(v), ObjC):
        for nm in ("__str__", "__repr__"):
            m = it.class_lookup(it.cell(v).cls, nm)
            if m is not None:
                return it.call(m, [v], {})
    if isinstance(v, Unk):
        return v
    return StrV([(frz(it, v), "")])


def is_int_const(v):
    return True


def to_repr(it, v):
    v = narrow(v)
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, StrV):
        return mk_str(["'", v, "'"])
    if isinstance(v, Ref) and isinstance(it.cell(v), ObjC):
        m = it.class_lookup(it.cell(v).cls, "__repr__")
        if m is not None:
            return it.call(m, [v], {})
    return to_str(it, v)


def str_percent(it, fmt, args):
    items = list(args) if isinstance(args, tuple) else [args]
    out = []
    i = 0
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            j = i + 1
            while j < len(fmt) and fmt[j] not in "sdrfgei%xX":
                j += 1
            if fmt[j] == "%":
                out.append("%")
            else:
                if not items:
                    it.raise_exc("TypeError", "not enough arguments for format string")
                spec = fmt[i + 1:j] + ("" if fmt[j] in "sd" else fmt[j])
                x = items.pop(0)
                out.append(to_repr(it, x) if fmt[j] == "r" else to_format(it, x, spec))
            i = j + 1
        else:
            out.append(fmt[i])
            i += 1
    return concat_str(it, out)


def str_format(it, fmt, args, kwargs):
    import string
    out = []
    n = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[n]
            n += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            return it.unk("str.format field")
        if conv == "r":
            out.append(to_repr(it, v))
        else:
            out.append(to_format(it, v, spec or ""))
    return concat_str(it, out)


TOKENS = {}      # pseudo character -> Form


def new_token(form_):
    for ch, f in TOKENS.items():
        if f == form_:
            return ch
    ch = chr(0xE000 + len(TOKENS))
    TOKENS[ch] = form_
    return ch


def parse_number(it, s, kind):
    """float(s) / int(s) of a string"""
    t = s.strip()
    if has_tok(t):
        sign = F.ONE
        body = t
        if body and body[0] in "+-":
            if body[0] == "-":
                sign = F.const(-1)
            body = body[1:].strip() if False else body[1:]
        if len(body) == 1 and body in TOKENS:
            return sign * TOKENS[body]
        if all(c in NUMCHARS or is_tok(c) for c in body) and " " not in body:
            return F.atom_form(F.Atom("numeral", _tokname(t)))
        it.raise_exc("ValueError", f"could not convert string to {kind}")
    try:
        return F.form(int(t)) if kind == "int" else F.const(F.Fraction(t) if "/" not in t else _bad())
    except (ValueError, ZeroDivisionError):
        try:
            if kind == "float" and math.isinf(float(t)):
                return INF if float(t) > 0 else -INF
        except ValueError:
            pass
        it.raise_exc("ValueError", f"could not convert string to {kind}")


def _bad():
    raise ValueError


def _tokname(t):
    return "".join(f"<{F.show(TOKENS[c])}>" if is_tok(c) else c for c in t)


# ================================================================ containers: get / set

def norm_index(it, i, n):
    if i < 0:
        i += n
    if i < 0 or i >= n:
        it.raise_exc("IndexError", "index out of range")
    return i


def slice_py(sl):
    out = []
    for x in (sl.lo, sl.hi, sl.step):
        if x is None:
            out.append(None)
            continue
        c = const_int(narrow(x)) if isinstance(narrow(x), (Form, bool)) else None
        if c is None:
            return None
        out.append(c)
    return slice(*out)


def getitem(it, o, k):
    o, k = narrow(o), narrow(k)
    u = has_unk(o, k)
    if u:
        return u
    if isinstance(o, Phi):
        return it.fork_join([(g, (lambda x=x: getitem(it, x, k))) for g, x in o.alts])
    if isinstance(o, Method) and o.name in ("loc", "iloc", "at", "iat"):
        return pandas_.indexer_get(it, o.self, o.name, k)
    if isinstance(o, ClassV) and hasattr(o, "enum"):
        return pycls.enum_item(it, o, k)
    if isinstance(o, Ext) and o.path in ("numpy.r_", "numpy.c_", "numpy.s_", "numpy.index_exp"):
        return np_index_maker(it, o.path[6:], k)
    if isinstance(o, tuple) or isinstance(o, str):
        if isinstance(k, SliceV):
            sl = slice_py(k)
            if sl is None:
                return it.unk("slice with symbolic bounds")
            return o[sl]
        if isinstance(k, Phi):
            return it.fork_join([(g, (lambda x=x: getitem(it, o, x))) for g, x in k.alts])
        c = const_int(k) if is_scalar(k) else None
        if c is None:
            if isinstance(k, Form):
                return pick(it, list(o), k)
            it.raise_exc("TypeError", "index must be an integer")
        return o[norm_index(it, c, len(o))]
    if isinstance(o, (StrV, S.HoleStr)):
        return S.str_getitem(it, o, k)
    if isinstance(o, Opaque):
        return models_opaque_getitem(it, o, k)
    if o is None or isinstance(o, (Form, bool, Cond)):
        it.raise_exc("TypeError", "object is not subscriptable")
    if isinstance(o, (Builtin, ClassV, Ext)):
        return o          # typing subscripts
    if not isinstance(o, Ref):
        return it.unk(f"subscript of {o!r}")
    c = it.cell(o)
    if isinstance(c, ListC):
        if isinstance(k, SliceV):
            sl = slice_py(k)
            if any(it.is_part(x) for x in c.items) or sl is None:
                return S.list_slice(it, o, k)
            items = c.items
            if any(isinstance(x, Gitem) for x in items):
                return slice_guarded(it, items, sl)
            return it.new_list(items[sl])
        if isinstance(k, Phi):
            return it.fork_join([(g, (lambda x=x: getitem(it, o, x))) for g, x in k.alts])
        items = c.items
        if any(isinstance(x, Gitem) for x in items):
            f = flatten_gitems(it, items)
            if f is None:
                return guarded_index(it, items, k)
            items = f
        if any(it.is_part(x) for x in items):
            return S.list_index(it, o, k)
        i = const_int(k) if is_scalar(k) else None
        if i is None:
            if isinstance(k, Form):
                return pick(it, list(items), k)
            it.raise_exc("TypeError", "list indices must be integers")
        return items[norm_index(it, i, len(items))]
    if isinstance(c, DictC):
        return dict_get(it, o, c, k)
    if isinstance(c, TableC):
        return table_get(it, c, k)
    if isinstance(c, (ArrC, ViewC)):
        return arr_get(it, o, k)
    if isinstance(c, SeriesC):
        return pandas_.series_key(it, o, k)
    if isinstance(c, FrameDFC):
        if isinstance(k, str) or is_scalar(k):
            if k not in c.cols:
                it.raise_exc("KeyError", str(k))
            return it.alloc(SeriesC(c.cols[k], k, c.index))
        items = iterate(it, k) if not isinstance(k, SliceV) and get_arr(it, k) is None else None
        if isinstance(items, list) and all(isinstance(x, str) for x in items):
            for x in items:
                if x not in c.cols:
                    it.raise_exc("KeyError", x)
            return it.alloc(FrameDFC({x: c.cols[x] for x in items}, c.index))
        return pandas_.frame_key(it, o, k)
    if isinstance(c, ObjC):
        m = it.class_lookup(c.cls, "__getitem__")
        if m is not None:
            return it.call(m, [o, k], {})
        it.raise_exc("TypeError", "object is not subscriptable")
    if isinstance(c, Unk):
        return c
    if isinstance(c, S.GArrC):
        return S.garr_get(it, o, k)
    return it.unk(f"subscript of {type(c).__name__}")


def pick(it, items, k):
    """items[k] for a symbolic index"""
    n = len(items)
    alts = []
    for i, v in enumerate(items):
        alts.append((G.OR(G.eq0(k - i), G.eq0(k - (i - n))), v))
    ok = G.OR(*[g for g, _ in alts]) if alts else False
    it.raise_exc("IndexError", "index out of range", guard=G.NOT(ok))
    return mk_phi(alts)


def guarded_index(it, items, k):
    i = const_int(k)
    if i is None:
        return it.unk("index into a sequence with guarded items")
    combos = guard_combos(it, items)
    if combos is None:
        return it.unk("too many guarded items")
    bad = G.OR(*[g for g, t in combos if not (-len(t) <= i < len(t))])
    it.raise_exc("IndexError", "index out of range", guard=bad)
    return mk_phi([(g, t[i]) for g, t in combos if -len(t) <= i < len(t)])


def guard_combos(it, items):
    combos = [(it.st.pc, ())]
    for x in items:
        if isinstance(x, Gitem):
            new = []
            for g, t in combos:
                a, b = G.AND(g, x.g), G.AND(g, G.NOT(x.g))
                if a is not False:
                    new.append((a, t + (x.v,)))
                if b is not False:
                    new.append((b, t))
            combos = new
        else:
            combos = [(g, t + (x,)) for g, t in combos]
        if len(combos) > 600:
            return None
    return combos


def slice_guarded(it, items, sl):
    combos = guard_combos(it, items)
    if combos is None:
        return it.unk("too many guarded items")
    cut = [(g, t[sl]) for g, t in combos]
    lens = {len(t) for _, t in cut}
    if len(lens) == 1:
        n = lens.pop()
        return it.new_list([mk_phi([(g, t[i]) for g, t in cut]) for i in range(n)])
    return it.fork_join([(g, (lambda t=t: it.new_list(t))) for g, t in cut])


def dict_get(it, o, c, k):
    kk = key(it, k)
    if isinstance(kk, Phi):
        return it.fork_join([(g, (lambda x=x: dict_get(it, o, it.cell(o), x))) for g, x in kk.alts])
    if isinstance(kk, Unk):
        return kk
    if isinstance(kk, tuple) and any(isinstance(x, Phi) for x in kk):
        i = next(i for i, x in enumerate(kk) if isinstance(x, Phi))
        return it.fork_join([(g, (lambda x=x: dict_get(it, o, it.cell(o), kk[:i] + (x,) + kk[i + 1:]))) for g, x in kk[i].alts])
    if kk in c.d:
        v = c.d[kk]
        g = present(v)
        if g is not True:
            it.raise_exc("KeyError", kk, guard=G.NOT(g))
            v = drop_undef(v)
        return narrow(v)
    if c.kind == "symbolic":
        return it.unk("key of a symbolic mapping")
    ks, rest = find_keys(it, c.d, kk)
    if isinstance(ks, Unk):
        return ks
    if ks and not (isinstance(c.kind, tuple) or c.kind == "defaultdict"):
        ok = False
        for q, g in ks:
            ok = G.OR(ok, G.AND(g, present(c.d[q])))
        it.raise_exc("KeyError", kk, guard=G.NOT(ok))
        return narrow(mk_phi([(g, drop_undef(c.d[q])) for q, g in ks if present(c.d[q]) is not False]))
    if ks:
        return it.unk("symbolic key of a defaultdict")
    if c.kind == "defaultdict":
        v = it.call(c.d_factory, [], {}) if hasattr(c, "d_factory") else it.unk("defaultdict")
        return v
    if isinstance(c.kind, tuple) and c.kind[0] == "defaultdict":
        v = it.call(c.kind[1], [], {})
        c = it.cell(o)
        it.put(o, DictC({**c.d, kk: v}, c.kind))
        return v
    it.raise_exc("KeyError", kk)


def arr_key(it, k, a):
    """translate an index expression to a numpy index, or None"""
    def one(x):
        x = narrow(x)
        if isinstance(x, SliceV):
            return slice_py(x)
        if x is Ellipsis or x is None:
            return x
        if isinstance(x, (Form, bool)):
            return const_int(x)
        if isinstance(x, Ref) or isinstance(x, tuple):
            arr_ = to_array(it, x)
            if isinstance(arr_, Unk):
                return "bad"
            if arr_.size and all(isinstance(y, bool) for y in arr_.flat):
                return arr_.astype(bool)
            try:
                return np.array([const_int(y) for y in arr_.flat], dtype=int).reshape(arr_.shape)
            except TypeError:
                return "bad"
        return "bad"
    if isinstance(k, tuple):
        ks = tuple(one(x) for x in k)
    else:
        ks = (one(k),)
    for kk, raw in zip(ks, k if isinstance(k, tuple) else (k,)):
        if isinstance(kk, str) or (kk is None and raw is not None):
            return None
    return ks


def view(it, ref, ks):
    c = it.cell(ref)
    if isinstance(c, ViewC):
        base, idx = c.base, c.idx
    else:
        base, idx = ref.a, np.arange(c.a.size).reshape(c.a.shape)
    return it.alloc(ViewC(base, idx[ks]))


def arr_get(it, o, k):
    a = get_arr(it, o)
    if isinstance(k, Phi):
        return it.fork_join([(g, (lambda x=x: arr_get(it, o, x))) for g, x in k.alts])
    if isinstance(k, tuple) and any(isinstance(x, Phi) for x in k):
        i = next(i for i, x in enumerate(k) if isinstance(x, Phi))
        return it.fork_join([(g, (lambda x=x: arr_get(it, o, k[:i] + (x,) + k[i + 1:]))) for g, x in k[i].alts])
    ks = arr_key(it, k, a)
    if ks is None:
        if isinstance(k, Form) and a.ndim == 1:
            return pick(it, list(a), k)
        return arr_select(it, o, a, k)
    try:
        r = a[ks]
    except IndexError:
        it.raise_exc("IndexError", "array index out of range")
    if not isinstance(r, np.ndarray):
        return r
    basic = all(not isinstance(x, np.ndarray) for x in ks)
    if basic:
        if r.shape == ():
            return r[()]
        return view(it, o, ks)
    return it.new_arr(r.copy())


def arr_select(it, o, a, k):
    """selection by a mask, or an index array, whose entries depend on conditions"""
    comps = list(k) if isinstance(k, tuple) else [k]
    where = [i for i, x in enumerate(comps) if isinstance(x, Ref)]
    if len(where) != 1 or any(x is None or x is Ellipsis for x in comps):
        return it.unk(f"array index {k!r}")
    ax = where[0]
    b = to_array(it, comps[ax])
    if isinstance(b, Unk):
        return b

    def again(sel):
        ref = it.new_arr(sel)
        return arr_get(it, o, tuple(comps[:ax]) + (ref,) + tuple(comps[ax + 1:]) if isinstance(k, tuple) else ref)
    if b.size and all(isinstance(x, (bool, Cond)) for x in b.flat):
        flat = [to_bdd(x) for x in b.flat]
        combos = [(it.st.pc, [])]
        for g in flat:
            new = []
            for p, t in combos:
                for w, val in ((G.AND(p, g), True), (G.AND(p, G.NOT(g)), False)):
                    if w is not False:
                        new.append((w, t + [val]))
            combos = new
            if len(combos) > 64:
                return it.unk("boolean mask with many undecided entries")
        return it.fork_join([(p, (lambda t=t: again(np.array(t + [None], dtype=object)[:-1].reshape(b.shape)))) for p, t in combos])
    if b.ndim == 1 and all(isinstance(x, Form) and const_int(x) is not None or isinstance(x, Phi) and all(isinstance(y, Form) and const_int(y) is not None for _, y in x.alts) for x in b):
        parts = []
        for x in b:
            alts = x.alts if isinstance(x, Phi) else ((True, x),)
            outs = []
            for g, y in alts:
                i = norm_index(it, const_int(y), a.shape[ax])
                outs.append((g, np.take(a, i, axis=ax)))
            if isinstance(outs[0][1], np.ndarray):
                parts.append(outs[0][1] if len(outs) == 1 else emap(lambda *vs: mk_phi([(g, v) for (g, _), v in zip(outs, vs)]), *[q for _, q in outs]))
            else:
                parts.append(mk_phi(outs))
        if a.ndim == 1:
            r = np.empty(len(parts), dtype=object)
            for i, v in enumerate(parts):
                r[i] = v
        else:
            r = np.stack(parts, axis=ax)
        rest = tuple(comps[:ax]) + (SliceV(None, None, None),) + tuple(comps[ax + 1:])
        ref = it.new_arr(r)
        return ref if len(comps) == 1 else arr_get(it, ref, rest)
    return it.unk(f"array index {k!r}")


def arr_set(it, o, k, v):
    a = get_arr(it, o)
    if isinstance(k, Phi) or isinstance(k, tuple) and any(isinstance(x, Phi) for x in k):
        if isinstance(k, Phi):
            it.fork_join([(g, (lambda x=x: arr_set(it, o, x, v))) for g, x in k.alts])
        else:
            i = next(i for i, x in enumerate(k) if isinstance(x, Phi))
            it.fork_join([(g, (lambda x=x: arr_set(it, o, k[:i] + (x,) + k[i + 1:], v))) for g, x in k[i].alts])
        return
    val = to_array(it, v)
    if isinstance(k, Ref):
        b = to_array(it, k)
        if not isinstance(b, Unk) and b.shape == a.shape and b.size and all(isinstance(x, (bool, Cond)) for x in b.flat):
            if isinstance(val, Unk):
                raise Limit("masked assignment of an unknown value")
            vb = np.broadcast_to(val, a.shape) if val.shape == () else None
            if vb is not None:
                write_arr(it, o, emap(lambda m, x, y: mk_phi([(to_bdd(m), y), (G.NOT(to_bdd(m)), x)]), b, a, vb))
                return
    ks = arr_key(it, k, a)
    if ks is None:
        raise Limit(f"array store at index {k!r}")
    n = a.copy()
    try:
        if isinstance(val, Unk):
            n[ks] = val
        else:
            t = n[ks]
            if isinstance(t, np.ndarray):
                n[ks] = val if val.shape else val[()]
            else:
                if val.size != 1:
                    it.raise_exc("ValueError", "setting an array element with a sequence")
                n[ks] = val.reshape(-1)[0]
    except IndexError:
        it.raise_exc("IndexError", "array index out of range")
    except ValueError:
        it.raise_exc("ValueError", "could not broadcast")
    write_arr(it, o, n)


def setitem(it, o, k, v):
    o, k = narrow(o), narrow(k)
    if isinstance(o, Unk):
        raise Limit(f"store into an unknown value: {o.reason}")
    if isinstance(o, Ref) and o.a in it.readonly:
        raise Limit("store into the dictionary of the variables")
    if isinstance(o, Phi):
        it.fork_join([(g, (lambda x=x: setitem(it, x, k, v))) for g, x in o.alts])
        return
    if isinstance(o, Method) and o.name in ("loc", "iloc", "at", "iat"):
        pandas_.indexer_set(it, o.self, o.name, k, v)
        return
    if isinstance(o, Ref):
        c = it.cell(o)
        if isinstance(c, ListC):
            if any(it.is_part(x) for x in c.items):
                S.list_store(it, o, k, v)
                return
            if isinstance(k, SliceV):
                sl = slice_py(k)
                items = iterate(it, v)
                if sl is None or not isinstance(items, list):
                    raise Limit("slice assignment")
                x = list(c.items)
                x[sl] = items
                it.put(o, ListC(x))
                return
            if isinstance(k, Phi):
                it.fork_join([(g, (lambda x=x: setitem(it, o, x, v))) for g, x in k.alts])
                return
            i = const_int(k) if is_scalar(k) else None
            if i is None or any(isinstance(x, Gitem) for x in c.items):
                if isinstance(k, Form) and not any(isinstance(x, Gitem) for x in c.items):
                    items = list(c.items)
                    n = len(items)
                    ok = False
                    for j in range(n):
                        g = G.OR(G.eq0(k - j), G.eq0(k - (j - n)))
                        ok = G.OR(ok, g)
                        items[j] = mk_phi([(g, v), (G.NOT(g), items[j])])
                    it.raise_exc("IndexError", guard=G.NOT(ok))
                    it.put(o, ListC(items))
                    return
                raise Limit("list store at a symbolic index")
            i = norm_index(it, i, len(c.items))
            it.put(o, ListC(c.items[:i] + (v,) + c.items[i + 1:]))
            return
        if isinstance(c, DictC):
            kk = key(it, k)
            if isinstance(kk, Phi):
                it.fork_join([(g, (lambda x=x: setitem(it, o, x, v))) for g, x in kk.alts])
                return
            if isinstance(kk, Unk):
                raise Limit("store under an unknown key")
            if isinstance(kk, tuple) and any(isinstance(y, Phi) for y in kk):
                i = next(i for i, y in enumerate(kk) if isinstance(y, Phi))
                it.fork_join([(g, (lambda y=y: setitem(it, o, kk[:i] + (y,) + kk[i + 1:], v))) for g, y in kk[i].alts])
                return
            ks, rest = find_keys(it, c.d, kk)
            if isinstance(ks, Unk):
                raise Limit("store under an unknown key")
            d = dict(c.d)
            for q, g in ks:
                d[q] = v if g is True else mk_phi([(g, v), (G.NOT(g), d[q])])
            if rest is not False:
                d[kk] = v if rest is True else mk_phi([(rest, v), (G.NOT(rest), V.UNDEF)])
            it.put(o, DictC(d, c.kind))
            return
        if isinstance(c, (ArrC, ViewC)):
            arr_set(it, o, k, v)
            return
        if isinstance(c, S.GArrC):
            S.garr_set(it, o, k, v)
            return
        if isinstance(c, SeriesC):
            i = const_int(k) if is_scalar(k) and c.index is None else None
            if i is None:
                pandas_.indexer_set(it, o, "loc", k, v)
                return
            n = c.a.copy()
            n[i] = v
            it.put(o, SeriesC(n, c.name, c.index))
            return
        if isinstance(c, FrameDFC):
            if isinstance(k, str):
                if c.index is not None and isinstance(cellof(it, v), SeriesC) and not pandas_.same_index(c, cellof(it, v)):
                    raise Limit("column aligned by labels")
                col = column(it, v, c)
                if isinstance(col, Unk):
                    raise Limit(col.reason)
                n = pandas_.nrows(c)
                if c.cols and len(col) != n:
                    it.raise_exc("ValueError", "Length of values does not match length of index")
                it.put(o, FrameDFC({**c.cols, k: col}, c.index))
                return
            if isinstance(k, SliceV) or get_arr(it, k) is not None:
                pandas_.indexer_set(it, o, "iloc" if isinstance(k, SliceV) else "loc", k, v)
                return
            items = iterate(it, k)
            if isinstance(items, list) and all(isinstance(x, str) for x in items):
                cv = cellof(it, v)
                cols = dict(c.cols)
                if isinstance(cv, FrameDFC):
                    for x, y in zip(items, cv.cols.values()):
                        cols[x] = y
                    it.put(o, FrameDFC(cols, c.index))
                    return
            raise Limit("data frame store")
        if isinstance(c, ObjC):
            m = it.class_lookup(c.cls, "__setitem__")
            if m is not None:
                it.call(m, [o, k, v], {})
                return
        if isinstance(c, Unk):
            raise Limit(f"store into {c.reason}")
    if isinstance(o, Opaque):
        _Event(it, "store", (o, k, v), {})
        return
    if isinstance(o, tuple) or isinstance(o, str) or o is None or isinstance(o, Form):
        it.raise_exc("TypeError", "object does not support item assignment")
    raise Limit(f"store into {o!r}")


def column(it, v, c=None):
    """column contents: 1-d object array (elements may be text)"""
    v = narrow(v)
    n = None
    if c is not None and c.cols:
        n = len(next(iter(c.cols.values())))
    a = get_arr(it, v)
    if a is not None:
        if a.ndim != 1:
            return it.unk("2-d column")
        return a.copy()
    if isinstance(v, (tuple,)) or isinstance(v, Ref):
        items = iterate(it, v)
        if isinstance(items, Unk):
            raise Limit(f"column of {items.reason}")
        if not isinstance(items, list):
            raise Limit("column of unknown length")
        r = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            r[i] = x
        return r
    r = np.empty(n if n is not None else 1, dtype=object)
    for i in range(len(r)):
        r[i] = v
    return r


def delitem(it, o, k):
    o = narrow(o)
    c = cellof(it, o)
    if isinstance(c, ListC):
        if isinstance(k, SliceV):
            sl = slice_py(k)
            x = list(c.items)
            del x[sl]
            it.put(o, ListC(x))
            return
        i = const_int(k)
        if i is not None and not any(isinstance(x, Gitem) or it.is_part(x) for x in c.items):
            i = norm_index(it, i, len(c.items))
            it.put(o, ListC(c.items[:i] + c.items[i + 1:]))
            return
    if isinstance(c, DictC):
        kk = key(it, k)
        if kk in c.d:
            g = present(c.d[kk])
            it.raise_exc("KeyError", kk, guard=G.NOT(g))
            d = dict(it.cell(o).d)
            d.pop(kk)
            it.put(o, DictC(d, c.kind))
            return
        it.raise_exc("KeyError", kk)
    if isinstance(c, FrameDFC) and isinstance(k, str):
        cols = dict(c.cols)
        cols.pop(k, None)
        it.put(o, FrameDFC(cols, c.index))
        return
    raise Limit("del")


def list_append(it, ref, v):
    c = it.cell(ref)
    if isinstance(c, ListC):
        it.put(ref, ListC(c.items + (v,)))
    elif isinstance(c, Unk):
        pass
    else:
        raise Limit("append to a non-list")


def make_set(it, items, frozen=False):
    r = it.alloc(SetC({}, frozen))
    for x in items:
        if isinstance(x, Gitem):
            c = it.cell(r)
            k = key(it, x.v)
            it.put(r, SetC({**c.d, k: G.OR(c.d.get(k, False), x.g)}, frozen))
        else:
            set_add(it, r, x)
    return r


def set_add(it, ref, v):
    c = it.cell(ref)
    k = key(it, v)
    if isinstance(k, Phi):
        d = dict(c.d)
        for g, x in k.alts:
            d[x] = G.OR(d.get(x, False), g)
        it.put(ref, SetC(d, c.frozen))
        return
    if isinstance(k, Unk):
        it.put(ref, k)
        return
    it.put(ref, SetC({**c.d, k: True}, c.frozen))


# ================================================================ tables

def literal_table(it, node):
    """a long literal dictionary of expression texts: summarise it"""
    try:
        d = {}
        for k, v in zip(node.keys, node.values):
            kv = ast.literal_eval(k)
            if not (isinstance(kv, tuple) and len(kv) == 2 and all(isinstance(x, int) for x in kv)):
                return None
            if not (isinstance(v, ast.Constant) and isinstance(v.value, str)):
                return None
            d[(F.const(kv[0]), F.const(kv[1]))] = v.value
    except (ValueError, SyntaxError):
        return None
    if not it.classify_tables:
        return it.new_dict(d)
    from . import tables
    kind = tables.classify({(int(a.const()), int(b.const())): s for (a, b), s in d.items()})
    t = TableC(kind, None, d)
    t.src = it.where(node)
    it.tables = it.__dict__.get("tables", [])
    it.tables.append((it.where(node), kind, it.cur_mod.name))
    if kind is None:
        return it.new_dict(d)
    return it.alloc(t)


def table_get(it, c, k):
    k = key(it, k)
    if isinstance(k, Phi):
        return it.fork_join([(g, (lambda x=x: table_get(it, c, x))) for g, x in k.alts])
    if not (isinstance(k, tuple) and len(k) == 2):
        it.raise_exc("KeyError", k)
    for i in (0, 1):
        if isinstance(k[i], Phi):
            return it.fork_join([(g, (lambda x=x: table_get(it, c, tuple(x if j == i else k[j] for j in (0, 1))))) for g, x in k[i].alts])
        if not isinstance(k[i], Form):
            it.raise_exc("KeyError", k)
    if all(x.const() is not None for x in k) and k not in c.d:
        it.raise_exc("KeyError", k)
    return Opaque("tabletext", c.kind, k[0], k[1])


def int_atom(d1, d2, i, k):
    """integral over (-1,1) of D^d1 f_i * D^d2 f_k"""
    if d1 < d2:
        d1, d2, i, k = d2, d1, k, i
    if d1 == d2:
        # symmetric: order the indices canonically
        a, b = sorted((i, k), key=lambda f: (F.fp(f, 0), F.fp(f, 1)))
        return F.atom_form(F.Atom("I", d1, d2, a, b))
    return F.atom_form(F.Atom("I", d1, d2, i, k))


@F.rebuilder("I")
def _r_I(d1, d2, i, k):
    return int_atom(d1, d2, i, k)


def shape_atom(i, x, d=0):
    return F.atom_form(F.Atom("shape", d, i, x))


def do_eval(it, args, kwargs):
    v = narrow(args[0])
    if isinstance(v, Phi):
        return it.fork_join([(g, (lambda x=x: do_eval(it, [x] + args[1:], kwargs))) for g, x in v.alts])
    if isinstance(v, StrV) and len(v.parts) == 1 and v.parts[0][1] == "" and isinstance(v.parts[0][0], Opaque):
        v = v.parts[0][0]
    if isinstance(v, Opaque) and v.tag == "code":
        v = v.args[0]
    it.eval_sites.append((it.where(), it.cur_fn(), v, it.st.pc))
    if isinstance(v, Opaque) and v.tag == "tabletext":
        kind, i, k = v.args
        if kind[0] == "int":
            return int_atom(kind[1], kind[2], i, k)
        if kind[0] == "shape2":
            env = eval_env(it, args, kwargs)
            x, y = env("xi"), env("eta")
            if kind[1]:
                x, y = y, x
            return S.pointwise(it, lambda p, q: shape_atom(i, p) * shape_atom(k, q), x, y)
        return it.unk("table of unknown contents")
    if isinstance(v, str) and not has_tok(v):
        from . import tables
        i = tables.shape_index(v) if it.classify_tables else None
        if i is not None:
            env = eval_env(it, args, kwargs)
            return S.pointwise(it, lambda p: shape_atom(F.const(i), p), env("xi"))
        try:
            tree = ast.parse(v.strip(), mode="eval")
        except SyntaxError:
            it.raise_exc("SyntaxError", v)
        return eval_tree(it, tree.body, args, kwargs)
    if isinstance(v, Unk):
        return v
    return it.unk(f"eval of {v!r}")


def eval_env(it, args, kwargs):
    ns = []
    for a in list(args[1:]) + [kwargs[k] for k in ("globals", "locals") if k in kwargs]:
        c = cellof(it, narrow(a))
        if isinstance(c, DictC):
            ns.append(c.d)

    def get(name):
        for d in reversed(ns):
            if name in d:
                return d[name]
        if ns:
            it.raise_exc("NameError", name)
        return it.lookup(name)
    return get


def eval_tree(it, node, args, kwargs):
    extra = [a for a in list(args[1:]) + list(kwargs.values()) if a is not None]
    if not extra:
        return it.ev(node)
    env = eval_env(it, args, kwargs)

    def go(n):
        if isinstance(n, ast.Name):
            return env(n.id)
        if isinstance(n, ast.BinOp):
            return binop(it, it.OPS[type(n.op)], go(n.left), go(n.right))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
            x = go(n.operand)
            return binop(it, "*", F.const(-1), x) if isinstance(n.op, ast.USub) else x
        if isinstance(n, ast.Constant):
            return it.e_Constant(n)
        return it.unk("eval expression")
    return go(node)


def result_part(it, o, k):
    """the point and the value the optimiser ends at: unknown numbers"""
    if k == "fun":
        return F.sym(f"optimum value {o.args[0].const()}")
    return it.new_arr(np.array([F.sym(f"optimum {o.args[0].const()}[{i}]") for i in range(int(o.args[1].const()))], dtype=object))


def models_opaque_getitem(it, o, k):
    if o.tag == "re.match":
        return call_method(it, o, "__getitem__", [k], {})
    if o.tag == "dofs":
        return it.unk("element of an input list of labels")
    if o.tag == "result" and k in ("x", "fun") and o.args[1] is not None:
        return result_part(it, o, k)
    return Opaque("item", o, S.freeze(it, k) if isinstance(k, Ref) else (k if not isinstance(k, SliceV) else ("slice", k.lo, k.hi, k.step)))


# ================================================================ attributes of modelled values

ARR_ATTRS = {"T", "shape", "size", "ndim", "flat", "real", "dtype", "imag"}


def getattr(it, o, name):      # noqa: A001
    if isinstance(o, Ref):
        c = it.cell(o)
        if isinstance(c, (ArrC, ViewC)):
            a = get_arr(it, o)
            if name == "T":
                if isinstance(c, ViewC):
                    return it.alloc(ViewC(c.base, c.idx.T))
                return it.alloc(ViewC(o.a, np.arange(a.size).reshape(a.shape).T))
            if name == "shape":
                return tuple(F.const(n) for n in a.shape)
            if name == "size":
                return F.const(a.size)
            if name == "ndim":
                return F.const(a.ndim)
            if name == "real":
                return o
            if name == "flat":
                return it.alloc(IterC(tuple(a.flat)))
            if name == "dtype":
                return Opaque("dtype")
        elif isinstance(c, SeriesC):
            if name in ("values", "array"):
                return it.new_arr(c.a.copy())
            if name == "name":
                return c.name
            if name == "size":
                return F.const(len(c.a))
            if name == "shape":
                return (F.const(len(c.a)),)
            if name in ("iloc", "loc", "iat", "at"):
                return Method(o, name)
            if name == "index":
                return it.new_list(pandas_.labels(c))
            if name == "empty":
                return len(c.a) == 0
            if c.index is not None and not name.startswith("__") and (SeriesC, name) not in METHOD_FNS:
                for l, x in zip(c.index, c.a):
                    if l == name if isinstance(l, str) else False:
                        return x
        elif isinstance(c, FrameDFC):
            if name == "columns":
                return it.new_list(list(c.cols))
            if name == "shape":
                n = len(next(iter(c.cols.values()))) if c.cols else 0
                return (F.const(n), F.const(len(c.cols)))
            if name == "index":
                return it.new_list(pandas_.labels(c))
            if name == "values":
                return it.new_arr(to_array(it, o))
            if name in c.cols:
                return it.alloc(SeriesC(c.cols[name], name, c.index))
            if name in ("iloc", "loc", "iat", "at"):
                return Method(o, name)
            if name == "T":
                return pandas_.transposed(it, o)
            if name == "size":
                return F.const(pandas_.nrows(c) * len(c.cols))
            if name == "empty":
                return pandas_.nrows(c) == 0 or not c.cols
        elif isinstance(c, S.GArrC):
            r = S.garr_attr(it, o, name)
            if r is not None:
                return r
        elif isinstance(c, Unk):
            return c
        known = METHODS.get(type(c))
        if known is not None and name not in known:
            if name.startswith("__") or isinstance(c, (ListC, DictC, SetC, ArrC, ViewC)):
                if isinstance(c, (ArrC, ViewC)) and hasattr(np.ndarray, name) or isinstance(c, ListC) and hasattr(list, name) or \
                        isinstance(c, DictC) and hasattr(dict, name) or isinstance(c, SetC) and hasattr(set, name):
                    return Method(o, name)
                it.raise_exc("AttributeError", name)
        return Method(o, name)
    if isinstance(o, Form) or isinstance(o, (bool, Cond)) or (isinstance(o, Phi) and is_scalar(o)):
        if name in ("real", "T"):
            return o
        if name == "imag":
            return F.ZERO
        if name == "shape":
            return ()
        if hasattr(float, name) or hasattr(int, name) or hasattr(np.float64, name):
            return Method(o, name)
        it.raise_exc("AttributeError", name)
    if isinstance(o, (str, StrV, S.HoleStr)):
        if hasattr(str, name):
            return Method(o, name)
        it.raise_exc("AttributeError", name)
    if isinstance(o, tuple):
        if isinstance(o, pycls.NTuple):
            ok, v = pycls.nt_getattr(it, o, name)
            if ok:
                return v
        if hasattr(tuple, name):
            return Method(o, name)
        it.raise_exc("AttributeError", name)
    if o is None:
        it.raise_exc("AttributeError", f"None has no attribute {name}")
    if isinstance(o, Native) and name in ("register", "dispatch") and hasattr(o, "cases"):
        return Native(name, o.register)
    if isinstance(o, Ext):
        return ext_attr(it, o, name)
    if isinstance(o, Builtin):
        if name == "__name__":
            return o.name
        return Builtin(f"{o.name}.{name}")
    if isinstance(o, Opaque):
        if o.tag == "result" and name in ("x", "fun") and o.args[1] is not None:
            return result_part(it, o, name)
        if o.tag == "dofs":
            return Method(o, name)
        if o.tag in ("re.match", "re.pattern"):
            from . import regex
            v = regex.attr(it, o, name)
            return Method(o, name) if v is None else v
        return Method(o, name) if name in OPAQUE_METHODS else Opaque("attr", o, name)
    return Method(o, name)


OPAQUE_METHODS = set()


def setattr(it, o, name, v):     # noqa: A001
    if isinstance(o, (Opaque, Ext)):
        _Event(it, "set attribute", (o, name, v), {})
        return
    if isinstance(o, Ref):
        c = it.cell(o)
        if isinstance(c, FrameDFC) and name == "columns":
            items = iterate(it, v)
            if isinstance(items, list) and len(items) == len(c.cols):
                it.put(o, FrameDFC(dict(zip(items, c.cols.values()))))
                return
        if isinstance(c, SeriesC) and name == "name":
            it.put(o, SeriesC(c.a, v, c.index))
            return
        if isinstance(c, (ArrC, ViewC)) and name == "shape":
            r = get_arr(it, o).reshape([const_int(x) for x in iterate(it, v)])
            it.put(o, ArrC(r))
            return
    it.raise_exc("AttributeError", name)


METHODS = {}


# ================================================================ calls

ALIASES = {"np": "numpy", "pd": "pandas", "sp": "scipy", "plt": "matplotlib.pyplot"}


def canon_ext(name):
    return name


def ext_attr(it, o, name):
    p = f"{o.path}.{name}"
    v = EXT_CONST.get(p)
    if v is not None:
        return v() if callable(v) else v
    return Ext(p)


EXT_CONST = {
    "numpy.pi": lambda: F.PI, "math.pi": lambda: F.PI, "numpy.newaxis": lambda: None,
    "math.e": lambda: F.sym("e"), "numpy.e": lambda: F.sym("e"),
    "numpy.inf": lambda: INF, "math.inf": lambda: INF, "numpy.Inf": lambda: INF,
    "numpy.nan": lambda: F.sym("nan"), "math.nan": lambda: F.sym("nan"), "numpy.NaN": lambda: F.sym("nan"),
    "scipy.pi": lambda: F.PI, "scipy.constants.pi": lambda: F.PI, "scipy.constants.degree": lambda: F.PI * F.const(F.Fraction(1, 180)),
    "math.tau": lambda: F.PI * 2,
}

BUILTIN_FNS = {}
EXT_FNS = {}
METHOD_FNS = {}


def builtin(name):
    from .interp import PY_EXC, PY_TYPES
    if name in PY_EXC:
        return Builtin(name, PY_EXC[name])
    if name in PY_TYPES:
        return Builtin(name, PY_TYPES[name])
    if name in BUILTIN_FNS or name in ("NotImplemented", "super", "property", "staticmethod", "classmethod"):
        return Builtin(name)
    import builtins
    if hasattr(builtins, name):
        return Builtin(name)
    if name == "Ellipsis":
        return Ellipsis
    return None


def call(it, fn, args, kwargs):
    if isinstance(fn, Builtin):
        f = BUILTIN_FNS.get(fn.name)
        if f is not None:
            return f(it, args, kwargs)
        if fn.py is not None and issubclass(fn.py, BaseException):
            e = ExcV(fn, args)
            e.where, e.fn = it.where(), it.cur_fn()
            return e
        if "." in fn.name:
            t, m = fn.name.split(".", 1)
            if args:
                return call(it, Method(args[0], m), args[1:], kwargs)
        return it.unk(f"call of builtin {fn.name}")
    if isinstance(fn, Ext):
        ov = it.overrides.get(fn.path)
        if ov is not None:
            return ov(it, args, kwargs)
        return call_ext(it, fn.path, args, kwargs)
    if isinstance(fn, Method):
        return call_method(it, fn.self, fn.name, args, kwargs)
    if isinstance(fn, Opaque):
        return call_opaque(it, fn, args, kwargs)
    return it.unk(f"call of {fn!r}")


CLOCKS = ("time.time", "time.perf_counter", "time.process_time", "time.monotonic", "time.thread_time", "time.time_ns", "time.perf_counter_ns", "time.process_time_ns", "time.monotonic_ns",
          "timeit.default_timer")
EFFECT_ROOTS = ("matplotlib", "warnings", "logging", "sys", "os", "time", "builtins", "mpl_toolkits", "random", "gc")


def call_ext(it, path, args, kwargs):
    f = EXT_FNS.get(path)
    if f is not None:
        r = f(it, args, kwargs)
        return r
    d = it.shim.get(path)
    if d is not None:
        return it.call(d, args, kwargs)
    if path.startswith("numpy.") and path.count(".") == 2:
        _, op, how = path.split(".")
        f = {"reduce": {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all", "logical_or": "any"},
             "accumulate": {"add": "cumsum", "multiply": "cumprod"}}.get(how, {}).get(op)
        if f is not None:
            kwargs = dict(kwargs)
            if len(args) < 2:
                kwargs.setdefault("axis", F.ZERO)
            return it.call(Ext("numpy." + f), args, kwargs)
        if how == "outer" and "numpy." + op in EXT_FNS:
            x, y = to_array(it, args[0]), to_array(it, args[1])
            u = has_unk(x, y)
            if u:
                return u
            return it.call(Ext("numpy." + op), [it.new_arr(x.reshape(x.shape + (1,) * y.ndim)), it.new_arr(y)], {})
    root = path.split(".")[0]
    if root in EFFECT_ROOTS:
        e = _Event(it, path, [S.freeze(it, a) for a in args], {k: S.freeze(it, v) for k, v in kwargs.items()})
        if path in CLOCKS:
            return Opaque("time", F.const(len(it.events) + it.clock))
        return Opaque("ext", path, F.const(len(it.events)))
    return it.unk(f"call of unmodelled library function {path}")


def call_opaque(it, o, args, kwargs):
    if o.tag == "attr":
        path = opaque_path(o)
        h = OPAQUE_CALLS.get(o.args[1])
        if h is not None:
            r = h(it, o.args[0], args, kwargs)
            if r is not None:
                return r
        _Event(it, "call " + path, [S.freeze(it, a) for a in args], {k: S.freeze(it, v) for k, v in kwargs.items()})
        return Opaque("ext", "call " + path, F.const(len(it.events)))
    _Event(it, "call " + repr(o), [S.freeze(it, a) for a in args], kwargs)
    return Opaque("ext", "call", F.const(len(it.events)))


OPAQUE_CALLS = {}


def opaque_path(o):
    if isinstance(o, Opaque):
        if o.tag == "attr":
            return f"{opaque_path(o.args[0])}.{o.args[1]}"
        if o.tag == "ext":
            return f"<{o.args[0]}>"
        return o.tag
    return repr(o)


def call_method(it, o, name, args, kwargs):
    o = narrow(o)
    if isinstance(o, Phi) and not is_scalar(o):
        return it.fork_join([(g, (lambda x=x: it.call(it.getattr(x, name), list(args), dict(kwargs)))) for g, x in o.alts])
    if isinstance(o, Ref):
        c = it.cell(o)
        if isinstance(c, Unk):
            return c
        t = type(c)
        if t is ViewC:
            t = ArrC
        f = METHOD_FNS.get((t, name))
        if f is not None:
            return f(it, o, args, kwargs)
        return it.unk(f"method {name} of {t.__name__}")
    t = None
    if isinstance(o, (str, StrV, S.HoleStr)):
        from .strings import str_method
        return str_method(it, o, name, args, kwargs)
    if isinstance(o, Opaque) and o.tag in ("tabletext", "text") and hasattr(str, name):
        if name in ("strip", "lstrip", "rstrip", "__str__") and not args and o.tag == "tabletext":
            return o
        return Opaque("text", "made with ." + name, o, tuple(frz(it, a) for a in args))
    if isinstance(o, tuple):
        t = tuple
    elif isinstance(o, (Form, bool, Cond, Phi)):
        t = Form
    elif isinstance(o, Opaque):
        if o.tag in ("re.match", "re.pattern"):
            from . import regex
            return regex.method(it, o, name, args, kwargs)
        h = OPAQUE_CALLS.get(name)
        if h is not None:
            r = h(it, o, args, kwargs)
            if r is not None:
                return r
        return it.unk(f"method {name} of {o!r}")
    f = METHOD_FNS.get((t, name))
    if f is not None:
        return f(it, o, args, kwargs)
    return it.unk(f"method {name} of {o!r}")


from . import regex      # noqa: E402,F401
from . import lib      # noqa: E402,F401  (registers the library functions)


from . import pandas_      # noqa
from . import pycls        # noqa
