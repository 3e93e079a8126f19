"""P12: results scale with the units as dimensional analysis requires."""
from checks.str_ import *
from checks import plate as pl
from checks.p10 import MODES

K, L = "force unit factor", "length factor"
# exponents of the modulus, length and strain units
DIM = {"e1": (1, 0), "e2": (1, 0), "g12": (1, 0), "e": (1, 0), "g": (1, 0), "v12": (0, 0), "v": (0, 0), "thickness": (0, 1),
       **{q: (1, 0, 1) for q in ("t1", "c1", "t2", "c2", "s", "t", "c")}}
ORTHO = ("e1", "e2", "v12", "g12", "thickness", "t1", "c1", "t2", "c2", "s")
ISOP = ("e", "v", "g", "thickness", "t", "c", "s")


class Units:
    """a change of scale: factors of moduli, lengths and strains (loads and allowables go with modulus times strain)"""

    def __init__(self, k, l, f=F.ONE):
        self.k, self.l, self.f = k, l, f

    def __call__(self, v, dim):
        return V.arith("*", v, F.power(self.k, dim[0]) * F.power(self.l, dim[1]) * F.power(self.f, dim[2] if len(dim) > 2 else 0))


def margins(c, x, label, one, two):
    """equal margins; the stresses of both programs, equal but for a positive factor, have the same sign, and are taken not to vanish"""
    saved = x.it.st.pc
    comp = {"t1": "sigma1", "c1": "sigma1", "t2": "sigma2", "c2": "sigma2", "s": "tau12"}
    for q, (vals, dim, where) in one.items():
        if not q.startswith("margin"):
            continue
        st = f"calculate_stress: {comp[q.split('_')[-1]]}"
        if len(vals) != len(two[q][0]):
            c.ob(False, f"{label}: {q}", f"{len(vals)} and {len(two[q][0])} rows", where)
            continue
        for r, v in enumerate(vals):
            x.it.st.pc = saved
            a, b = one[st][0][r], two[st][0][r]
            if isinstance(a, Form) and isinstance(b, Form):
                for f in (a, b):
                    if G.eq0(f) is not True:
                        x.assume(G.NOT(G.eq0(f)))
                p, n = G.lt0(a), G.lt0(b)
                x.assume(G.OR(G.AND(p, n), G.AND(G.NOT(p), G.NOT(n))))
            c.eq(x, two[q][0][r], v, f"{label}: {q}, row {r}", where)
    x.it.st.pc = saved


def check():
    c = Check("P12", "the same laminate and plate are analysed in one program in two systems of units (every modulus and allowable times k, every length times l, loads "
              "accordingly; k only; l only); ply stiffness, A, B, D, lamination parameters, mid-plane response, strains, stresses, margins and plate matrices must differ by "
              "the powers of k and l of their dimension")
    c.min_obs = 500
    k, l = sym("k", "+"), sym("l", "+")
    systems = [("moduli and lengths scaled", Units(k, l)), ("moduli scaled", Units(k, F.ONE)), ("lengths scaled", Units(F.ONE, l)),
               ("moduli scaled, loads and allowables kept", Units(k, F.ONE, F.inv(k))), ("loads and allowables scaled", Units(F.ONE, F.ONE, k)),
               ("from N, mm to N, m", Units(F.const(10 ** 6), F.const(Q(1, 1000))))]

    def material(x, kind, tag, u):
        par = {n: sym(f"{n}{tag}", None if n[0] == "v" else "+") for n in (ORTHO if kind == "o" else ISOP)}
        v = par["v12" if kind == "o" else "v"]
        x.bounded(v, Q(-1, 2), Q(1, 2))
        names = ORTHO if kind == "o" else ISOP
        return x.call(x.get(MAT if kind == "o" else ISO), *[u(par[n], DIM[n]) for n in names])

    def measure(x, label, kinds, angles, u, cons, m, n, out):
        """quantity -> (values, dimension), added to out"""
        mats = [material(x, kd, f"_{i}", u) for i, kd in enumerate(kinds)]
        st = x.it.new_list([num(t) for t in angles])
        lam = x.call(x.get(LAM), st, x.it.new_list(mats))

        def ob(name, v, dim, where):
            a = x.array(v)
            if isinstance(a, Unk):
                c.ob(False, f"{label}: {name}", a.reason, where, undecided=True)
                return
            out[name] = (list(a.reshape(-1)), dim, where)
        for i, mt in enumerate(mats):
            cls = MAT if kinds[i] == "o" else ISO
            ob(f"Q_0 of ply {i + 1}", x.attr(mt, "Q_0"), (1, 0), member(x, cls, "Q_0"))
            ob(f"invariants of ply {i + 1}", x.meth(mt, "Invariants"), (1, 0), member(x, cls, "Invariants"))
        for i, nm in enumerate(("A", "B", "D")):
            ob(nm, x.attr(lam, nm), (1, i + 1), member(x, LAM, nm))
        ob("z_position", x.attr(lam, "z_position"), (0, 1), member(x, LAM, "z_position"))
        for nm in ("xiA", "xiD"):
            ob(nm, x.attr(lam, nm), (0, 0), member(x, LAM, nm))
        vals = {q: u(sym(q), (1, 1, 1) if q[0] == "N" else (1, 2, 1)) for q in LOADS}
        s = x.call(x.get(STR), lam, **vals)
        e = x.array(x.meth(s, "epsilon0"))
        if isinstance(e, np.ndarray) and e.size == 6:
            e = e.reshape(-1)
            ob("mid-plane strains", x.it.new_list(list(e[:3])), (0, 0, 1), member(x, STR, "epsilon0"))
            ob("curvatures", x.it.new_list(list(e[3:])), (0, -1, 1), member(x, STR, "epsilon0"))
        S = Strength(s, None, None)
        for mth, cols, dim in (("calculate_strain", ("epsilonx", "epsilony", "gammaxy", "epsilon1", "epsilon2", "gamma12"), (0, 0, 1)),
                               ("calculate_stress", ("sigmax", "sigmay", "tauxy", "sigma1", "sigma2", "tau12"), (1, 0, 1)),
                               ("calculate_strain", ("z",), (0, 1))):
            t = table(c, x, label, S, mth, cols)
            for q in cols:
                out[f"{mth}: {q}"] = (list(t[q]), dim, member(x, STR, mth))
        # margins: compared where they are finite numbers, by the reserve (margin plus one)
        t = table(c, x, label, S, "calculate_maxstressmargin", MODES)
        for q in MODES:
            out[f"margin: {q}"] = (list(t[q]), (0, 0), member(x, STR, "calculate_maxstressmargin"))
        a, b = u(sym("a", "+"), (0, 1)), u(sym("b", "+"), (0, 1))
        P = x.call(x.get(pl.PLATE), lam, a, b, constraints=pl.mk_constraints(x, cons), m=num(m), n=num(n), **{q: vals[q] for q in LOADS[:3]})
        for mth in ("calc_K_KG_D", "calc_K_KG_ABD"):
            where = member(x, pl.PLATE, mth)
            r = x.items(x.meth(P, mth))
            ob(f"{mth}: K", r[0], (1, 1), where)
            ob(f"{mth}: KG", r[1], (1, 1, 1), where)
    progs = [("2 plies, PINNED", "oo", th("0", "1"), "PINNED", 2, 2), ("isotropic and orthotropic plies, mixed edges", "ioi", [sym("theta0"), sym("theta1"), F.const(90)], pl.MIXED, 1, 2)]
    if THOROUGH:
        progs.append(("4 plies, CLAMPED", "ooio", th(*"0123"), "CLAMPED", 3, 3))
    for name, kinds, angles, cons, m, n in progs:
        for sysname, u in systems:
            x = Ctx()
            label = f"{name}, {sysname}"
            one, two = {}, {}
            try:
                for name_, u_, out_ in (("original", Units(F.ONE, F.ONE), one), ("scaled", u, two)):
                    try:
                        c.run(x, f"{label}: {name_} units", lambda: measure(x, label, kinds, angles, u_, cons, m, n, out_))
                    except Skip:        # reported; what was measured so far is compared
                        pass
                for q, (vals, dim, where) in one.items():
                    if q not in two:
                        c.ob(False, f"{label}: {q}", "not followed", where, undecided=True)
                        continue
                    if not q.startswith("margin"):
                        c.eq(x, two[q][0], [u(v, dim) for v in vals], f"{label}: {q}", where)
                margins(c, x, label, one, two)
            except Skip:
                pass
    return c
