"""Plate contexts: edge conditions, function sets and the energy oracle for the stiffness matrices."""
from checks.lam import *
from fractions import Fraction as Q

PLATE = "composipy:PlateStructure"
EDGES = ("x0", "xa", "y0", "yb")
NAMED = {"free": (), "pinned": ("TX", "TY", "TZ"), "simply_supported": ("TX", "TY", "TZ"),
         "fixed": ("TX", "TY", "TZ", "RX", "RY", "RZ"), "clamped": ("TX", "TY", "TZ", "RX", "RY", "RZ")}
FIELD = {"u": ("TX", "RX"), "v": ("TY", "RY"), "w": ("TZ", "RZ")}


def dofs(edge):
    return NAMED[edge.lower()] if isinstance(edge, str) else tuple(edge)


def edges_of(cons):
    if cons is None:
        return {e: NAMED["pinned"] for e in EDGES}
    if isinstance(cons, str):
        return {e: NAMED[cons.lower()] for e in EDGES}
    return {e: dofs(cons[e]) for e in EDGES}


def kept(field, first, last, count):
    """orders of the functions used in one direction: the lowest `count` after the suppressed ones are removed.
    Functions 0 / 2 carry the displacement, 1 / 3 the slope, at the first / last edge."""
    t, r = FIELD[field]
    gone = {i for i, cond in ((0, t in first), (1, r in first), (2, t in last), (3, r in last)) if cond}
    return [i for i in range(count + 4) if i not in gone][:count]


def functions(field, cons, m, n):
    e = edges_of(cons)
    return [(i, j) for i in kept(field, e["x0"], e["xa"], m) for j in kept(field, e["y0"], e["yb"], n)]


def mk_constraints(x, cons):
    if cons is None or isinstance(cons, str):
        return cons
    return x.it.new_dict({e: (v if isinstance(v, str) else x.it.new_list(list(v)) if isinstance(v, list) else tuple(v))
                          for e, v in cons.items()})


class Plate:
    def __init__(self, ref, lam, a, b, cons, loads, m, n):
        self.ref, self.lam, self.a, self.b, self.cons, self.loads, self.m, self.n = ref, lam, a, b, cons, loads, m, n

    def funcs(self, f):
        return functions(f, self.cons, self.m, self.n)


def plate(x, lam, cons, m, n, tag="", loads=("Nxx", "Nyy", "Nxy"), how="kw"):
    a, b = sym(f"a{tag}", "+"), sym(f"b{tag}", "+")
    N = [sym(f"{k}{tag}") if k in loads else F.ZERO for k in ("Nxx", "Nyy", "Nxy")]
    cls = x.get(PLATE)
    if how == "pos":
        r = x.call(cls, lam.ref, a, b, mk_constraints(x, cons), *N, num(m), num(n))
    else:
        kw = {k: v for k, v in zip(("Nxx", "Nyy", "Nxy"), N) if k in loads}
        if cons is not None:
            kw["constraints"] = mk_constraints(x, cons)
        r = x.call(cls, lam.ref, a, b, m=num(m), n=num(n), **kw)
    return Plate(r, lam, a, b, cons, N, m, n)


def I(d1, d2, i, k):
    return M.int_atom(d1, d2, num(i), num(k))


def ints(dx1, dx2, dy1, dy2, p, q):
    """integral over the square of the (dx1, dy1) derivative of function p times the (dx2, dy2) derivative of function q"""
    return I(dx1, dx2, p[0], q[0]) * I(dy1, dy2, p[1], q[1])


# strain components as (coefficient, x derivatives, y derivatives) of a field; derivative factor (2/a)^dx (2/b)^dy
def jac(P, terms):
    return [(num(c) * F.power(F.inv(P.a) * 2, dx) * F.power(F.inv(P.b) * 2, dy), dx, dy) for c, dx, dy in terms]


EPS = {"u": ([(1, 1, 0)], [], [(1, 0, 1)]), "v": ([], [(1, 0, 1)], [(1, 1, 0)]), "w": ([], [], [])}
KAP = {"u": ([], [], []), "v": ([], [], []), "w": ([(-1, 2, 0)], [(-1, 0, 2)], [(-2, 1, 1)])}


def energy(P, S, f, g, p, q):
    """second variation of the strain energy between field f in function p and field g in function q; S is the 6x6 ABD"""
    ef = list(EPS[f]) + list(KAP[f])
    eg = list(EPS[g]) + list(KAP[g])
    r = F.ZERO
    for i in range(6):
        for c1, dx1, dy1 in jac(P, ef[i]):
            for j in range(6):
                for c2, dx2, dy2 in jac(P, eg[j]):
                    r = r + S[i, j] * c1 * c2 * ints(dx1, dx2, dy1, dy2, p, q)
    return r * P.a * P.b * Q(1, 4)


def work(P, p, q):
    """second variation of the work of the membrane loads between deflections p and q"""
    nx, ny, nxy = P.loads
    fx, fy = F.inv(P.a) * 2, F.inv(P.b) * 2
    r = nx * fx * fx * ints(1, 1, 0, 0, p, q) + ny * fy * fy * ints(0, 0, 1, 1, p, q) \
        + nxy * fx * fy * (ints(1, 0, 0, 1, p, q) + ints(0, 1, 1, 0, p, q))
    return r * P.a * P.b * Q(1, 4)


def bending(P):
    fw = P.funcs("w")
    S = np.full((6, 6), F.ZERO, dtype=object)
    S[3:, 3:] = P.D
    return arr([[energy(P, S, "w", "w", p, q) for q in fw] for p in fw])


def geometric(P):
    fw = P.funcs("w")
    return arr([[work(P, p, q) for q in fw] for p in fw])


def full(P):
    fs = [(f, p) for f in "uvw" for p in P.funcs(f)]
    return arr([[energy(P, P.ABD, f, g, p, q) for g, q in fs] for f, p in fs])


def full_geometric(P):
    fs = [(f, p) for f in "uvw" for p in P.funcs(f)]
    return arr([[work(P, p, q) if f == g == "w" else F.ZERO for g, q in fs] for f, p in fs])


MIXED = {"x0": "clamped", "xa": "PINNED", "y0": "free", "yb": ["TX", "TZ", "RY"]}
LISTS = {"x0": ["TZ"], "xa": ["TY", "RZ", "TX"], "y0": [], "yb": ["RX", "TZ", "RZ"]}
NAMES = {"x0": "free", "xa": "clamped", "y0": "simply_supported", "yb": "Fixed"}


def lam2(x, tag=""):
    return laminate(x, th(f"p0{tag}", f"p1{tag}"), [ortho(x, f"_p0{tag}"), ortho(x, f"_p1{tag}")])


def observe_stiffness(c, x, label, P):
    """the property matrices the plate is given, as the program reports them"""
    for name, n in (("ABD", 6), ("D", 3)):
        v, _, _ = c.run(x, f"{label}: {name}", lambda: x.attr(P.lam.ref, name))
        a = x.array(v)
        if not isinstance(a, np.ndarray) or a.shape != (n, n):
            c.ob(False, f"{label}: {name}", show(a), undecided=True)
            raise Skip()
        setattr(P, name, a)


def matrices(c, x, label, P, method, at):
    v, _, _ = c.run(x, f"{label}: {method}", lambda: x.meth(P.ref, method))
    t = x.items(v) if isinstance(v, (tuple, Ref)) else None
    if not isinstance(t, list) or len(t) != 2:
        c.ob(False, f"{label}: {method}", f"not a pair of matrices: {show(v)}", at, undecided=isinstance(v, Unk))
        raise Skip()
    return t


class Large:
    """a plate whose matrices are given (banded, of symbolic entries): what is done with them when they are large"""

    def __init__(self, c, x, label, m, n, cons="PINNED"):
        self.called = 0
        self.P, _, _ = c.run(x, f"{label}: construction", lambda: plate(x, lam2(x), cons, m, n))
        size = m * n
        K, KG = (np.full((size, size), F.ZERO, dtype=object) for _ in range(2))
        for i in range(size):
            K[i, i] = sym(f"K{i}")
            KG[i, i] = sym(f"G{i}")
            if i:
                K[i, i - 1] = K[i - 1, i] = sym(f"K{i}'")
                KG[i, i - 1] = KG[i - 1, i] = sym(f"G{i}'")

        def given(it, args, kwargs):
            if not self.called:
                try:
                    it.call(it.getattr(self.P.ref, "_compute_constraints"), [], {})
                except AttributeError:
                    pass
            self.called += 1
            return (it.new_arr(K.copy()), it.new_arr(KG.copy()))
        x.it.cell(self.P.ref).attrs["calc_K_KG_D"] = V.Native("calc_K_KG_D", given)


LARGE = ((9, 9), (10, 10), (16, 13), (20, 20))


def large(c, sizes, use, seconds=60):
    """`use` with large plates; a program that does not get its matrices from the public method is left to the small ones"""
    for m, n in sizes:
        x = Ctx()
        label = f"{m}x{n} terms, matrices given"
        keep = (c.obs, c.ok, len(c.viol), len(c.undecided))
        L = None
        c.step = seconds
        try:
            L = Large(c, x, label, m, n)
            use(x, label, L.P)
        except Skip:
            pass
        finally:
            c.step = None
        if L is None or not L.called or len(c.undecided) > keep[3]:
            c.obs, c.ok = keep[:2]
            del c.viol[keep[2]:], c.undecided[keep[3]:]
            c.count("large plates not followed")
            break
