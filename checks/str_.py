"""Strength contexts: laminate, loads and the observed tables."""
from checks.lam import *

STR = "composipy:LaminateStrength"
LOADS = ("Nxx", "Nyy", "Nxy", "Mxx", "Myy", "Mxy")


class Strength:
    def __init__(self, ref, lam, loads):
        self.ref, self.lam, self.loads = ref, lam, loads


def strength(x, lam, tag="", only=None, how="kw", vals=None):
    v = vals or {n: sym(f"{n}{tag}") for n in LOADS}
    if only is not None:
        v = {n: (v[n] if n in only else F.ZERO) for n in LOADS}
    cls = x.get(STR)
    if how == "pos":
        r = x.call(cls, lam.ref, *[v[n] for n in LOADS])
    else:
        r = x.call(cls, lam.ref, **{n: v[n] for n in LOADS if only is None or n in only})
    return Strength(r, lam, [v[n] for n in LOADS])


def contexts(thorough=False):
    out = []

    def add(label, f):
        out.append((label, f))

    def distinct(n):
        def f(x):
            l = laminate(x, th(*[f"{i}" for i in range(n)]), [ortho(x, f"_{i}") for i in range(n)])
            return [strength(x, l, "", None, "pos" if n % 2 else "kw")]
        return f
    for n in (1, 2, 3):
        add(f"{n} plies, all angles and materials distinct, all loads", distinct(n))

    def shared(x):
        p, q = ortho(x, "_p"), iso(x, "_q")
        a, b = th("a", "b")
        l1, l2 = laminate(x, [a, b, a], [p, q, p]), laminate(x, [b, a], [p, p], "tuple", single=True)
        return [strength(x, l1, "1"), strength(x, l2, "2"), strength(x, l1, "3", ("Nxx", "Mxy"))]
    add("several analyses sharing plies and laminates", shared)
    add("literal angles", lambda x: [strength(x, laminate(x, [0, 90, -45], [ortho(x, f"_l{i}") for i in range(3)], "array"))])

    def membrane(x):
        p = ortho(x, "_m")
        return [strength(x, laminate(x, th("m0", "m1", "m2", "m3"), [p] * 4, single=True), "", ("Nxx",))]
    add("four plies of one material, one load", membrane)

    def large(x):
        p, q = ortho(x, "_x"), ortho(x, "_y")
        a, b = th("x0", "x1")
        return [strength(x, laminate(x, [a, b, a, num(0)] * 6, [p, p, q, q, p] * 4 + [q, p, p, q]))]
    add("24 plies of few angles and two materials", large)
    if thorough:
        for n in (4, 5, 6):
            add(f"{n} plies, all angles and materials distinct, all loads", distinct(n))
    return out


def midplane(c, x, label, s):
    """the six mid-plane values the program reports"""
    v, _, _ = c.run(x, f"{label}: mid-plane response", lambda: x.meth(s.ref, "epsilon0"))
    a = x.array(v)
    if not isinstance(a, np.ndarray) or a.shape != (6,):
        c.ob(False, f"{label}: mid-plane response", f"not a vector of six values: {show(a)}", member(x, STR, "epsilon0"),
             undecided=isinstance(a, Unk))
        raise Skip()
    return a


def table(c, x, label, s, method, columns):
    """columns of a result table, as a dict name -> list of values"""
    v, _, _ = c.run(x, f"{label}: {method}", lambda: x.meth(s.ref, method))
    outs = [(True, v)] if not isinstance(v, Phi) else v.alts
    f = x.frame(v)
    if f is None:
        c.ob(False, f"{label}: {method}", f"not a table: {show(v)}", member(x, STR, method), undecided=isinstance(v, Unk) or True)
        raise Skip()
    miss = [k for k in columns if k not in f.cols]
    c.ob(not miss, f"{label}: columns of {method}", f"missing {miss}", member(x, STR, method))
    if miss:
        raise Skip()
    return f.cols


def point_strains(s, e):
    """(ply index, interface, strain vector) bottom to top, two rows a ply"""
    for k in range(s.lam.n):
        for j in (k, k + 1):
            z = s.lam.z[j]
            yield k, j, arr([e[i] + e[3 + i] * z for i in range(3)])


def id_columns(s):
    n = s.lam.n
    return {"ply": [num(k + 1) for k in range(n) for _ in (0, 1)],
            "position": ["bot", "top"] * n,
            "angle": [s.lam.thetas[k] for k in range(n) for _ in (0, 1)]}


def cmp_cols(c, x, cols, want, label, at):
    for k, w in want.items():
        c.eq(x, list(cols[k]), w, f"{label}: column {k}", at)
