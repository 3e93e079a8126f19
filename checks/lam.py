"""Laminate contexts and the classical lamination theory oracle, written independently of the repository."""
from checks.base import *
from fractions import Fraction as Q

MAT = "composipy:OrthotropicMaterial"
ISO = "composipy:IsotropicMaterial"
LAM = "composipy:LaminateProperty"
DEG = F.PI * F.const(Q(1, 180))


class Ply:
    """a material of the analysed program and what the oracle knows about it"""

    def __init__(self, ref, par, kind):
        self.ref, self.kind = ref, kind
        self.__dict__.update(par)
        if kind == "ortho":
            d = F.inv(F.ONE - self.v12 * (self.v12 * self.e2 / self.e1))
            self.Q11, self.Q22 = self.e1 * d, self.e2 * d
            self.Q12, self.Q66 = self.v12 * self.e2 * d, self.g12
        else:
            d = F.inv(F.ONE - self.v * self.v)
            self.Q11 = self.Q22 = self.e * d
            self.Q12, self.Q66 = self.v * self.e * d, self.g

    def Q0(self):
        return arr([[self.Q11, self.Q12, 0], [self.Q12, self.Q22, 0], [0, 0, self.Q66]])

    def U(self):
        q11, q22, q12, q66 = self.Q11, self.Q22, self.Q12, self.Q66
        e = F.const(Q(1, 8))
        return [e * (q11 * 3 + q22 * 3 + q12 * 2 + q66 * 4), F.const(Q(1, 2)) * (q11 - q22),
                e * (q11 + q22 - q12 * 2 - q66 * 4), e * (q11 + q22 + q12 * 6 - q66 * 4),
                e * (q11 + q22 - q12 * 2 + q66 * 4)]


def ortho(x, tag, how="pos", **fixed):
    p = {n: sym(f"{n}{tag}", "+") for n in ("e1", "e2", "g12", "thickness")}
    p["v12"] = x.bounded(sym(f"v12{tag}"), Q(-1, 2), Q(1, 2))
    p.update({n: sym(f"{n}{tag}", "0+") for n in ("t1", "c1", "t2", "c2", "s")})
    p.update(fixed)
    names = ("e1", "e2", "v12", "g12", "thickness", "t1", "c1", "t2", "c2", "s")
    cls = x.get(MAT)
    if how == "pos":
        r = x.call(cls, *[p[n] for n in names])
    else:
        r = x.call(cls, **{n: p[n] for n in reversed(names)})
    return Ply(r, p, "ortho")


def iso(x, tag, how="pos", **fixed):
    p = {n: sym(f"{n}{tag}", "+") for n in ("e", "g", "thickness")}
    p["v"] = x.bounded(sym(f"v{tag}"), Q(-1, 2), Q(1, 2))
    p.update({n: sym(f"{n}{tag}", "0+") for n in ("t", "c", "s")})
    p.update(fixed)
    names = ("e", "v", "g", "thickness", "t", "c", "s")
    cls = x.get(ISO)
    r = x.call(cls, *[p[n] for n in names]) if how == "pos" else x.call(cls, **{n: p[n] for n in names})
    y = Ply(r, p, "iso")
    y.t1 = y.t2 = y.t
    y.c1 = y.c2 = y.c
    return y


def cs(theta):
    return F.cos(num(theta) * DEG), F.sin(num(theta) * DEG)


def T_stress(theta):
    """stress transformation (and tensor strain): laminate axes -> material axes"""
    c, s = cs(theta)
    return arr([[c * c, s * s, c * s * 2], [s * s, c * c, c * s * -2], [c * s * -1, c * s, c * c - s * s]])


def T_strain(theta):
    """engineering strain transformation: laminate axes -> material axes"""
    c, s = cs(theta)
    return arr([[c * c, s * s, c * s], [s * s, c * c, c * s * -1], [c * s * -2, c * s * 2, c * c - s * s]])


def Q_bar(ply, theta):
    """energy: Qbar = Te^T Q Te with Te the engineering strain transformation"""
    t = T_strain(theta)
    return matmul(matmul(t.T, ply.Q0()), t)


class Lam:
    def __init__(self, ref, thetas, plies):
        self.ref, self.thetas, self.plies = ref, [num(t) for t in thetas], plies
        self.n = len(thetas)
        self.T = sum((p.thickness for p in plies), F.ZERO)
        z = [self.T * Q(-1, 2)]
        for p in plies:
            z.append(z[-1] + p.thickness)
        self.z = z

    def Qb(self):
        return [Q_bar(p, t) for p, t in zip(self.plies, self.thetas)]

    def moment(self, n):
        """integral of Qbar z^n over the thickness"""
        r = arr(np.zeros((3, 3), dtype=int))
        for k, q in enumerate(self.Qb()):
            w = (F.power(self.z[k + 1], n + 1) - F.power(self.z[k], n + 1)) * Q(1, n + 1)
            r = r + q * w
        return r

    def ABD(self):
        a, b, d = self.moment(0), self.moment(1), self.moment(2)
        return np.vstack([np.hstack([a, b]), np.hstack([b, d])])

    def xi(self, n):
        """lamination parameters from the n-th power of the normalised thickness coordinate"""
        out = [F.ZERO] * 4
        for k, t in enumerate(self.thetas):
            w = F.power(self.z[k + 1], n + 1) - F.power(self.z[k], n + 1)
            a2, a4 = t * 2 * DEG, t * 4 * DEG
            for j, f in enumerate((F.cos(a2), F.sin(a2), F.cos(a4), F.sin(a4))):
                out[j] = out[j] + w * f
        # 1/T int dz   |   12/T^3 int z^2 dz
        k = F.inv(self.T) if n == 0 else F.power(self.T, -3) * 4
        return arr([o * k for o in out])


def laminate(x, thetas, plies, form="list", single=False):
    th = [num(t) for t in thetas]
    st = x.it.new_list(th) if form == "list" else tuple(th) if form == "tuple" else x.it.new_arr(arr(th))
    pl = plies[0].ref if single else x.it.new_list([p.ref for p in plies])
    return Lam(x.call(x.get(LAM), st, pl), th, plies)


def th(*tags):
    return [sym(f"theta{t}") for t in tags]


def contexts(thorough=False):
    """(label, builder); a builder returns the laminates of one program history, to be observed in this order"""
    out = []

    def distinct(n, tag=""):
        return lambda x: [laminate(x, th(*[f"{i}{tag}" for i in range(n)]), [ortho(x, f"_{i}{tag}") for i in range(n)])]
    for n in (1, 2, 3, 4):
        out.append((f"{n} plies, all angles and materials distinct", distinct(n)))
    out.append(("same angle in every ply, materials distinct",
                lambda x: [laminate(x, th("a") * 3, [ortho(x, f"_s{i}") for i in range(3)])]))
    out.append(("one material for all plies, angles given as a tuple", lambda x: one(x, "tuple")))
    out.append(("one material for all plies, angles given as an array", lambda x: one(x, "array")))

    def one(x, form):
        p = ortho(x, "_one")
        return [laminate(x, th("b0", "b1", "b2"), [p] * 3, form, single=True)]

    def shared(x):
        p, q = ortho(x, "_p", "kw"), ortho(x, "_q")
        a, b, d = th("c0", "c1", "c2")
        return [laminate(x, [a, b, a], [p, q, p]), laminate(x, [a, b, a], [q, p, p]), laminate(x, [b, d, a, a], [p, p, p, p], single=True)]
    out.append(("several laminates sharing plies and angles, one after the other", shared))
    out.append(("isotropic and orthotropic plies mixed",
                lambda x: [laminate(x, th("d0", "d1", "d2"), [iso(x, "_i0"), ortho(x, "_o1"), iso(x, "_i2", "kw")])]))

    def same_thickness(x):
        h = sym("h", "+")
        ps = [ortho(x, f"_h{i}", thickness=h) for i in range(4)]
        a, b = th("e0", "e1")
        return [laminate(x, [a, b, b, a], [ps[0], ps[1], ps[1], ps[0]]), laminate(x, [a, b, b * -1, a * -1], ps)]
    out.append(("plies of equal thickness, symmetric and antisymmetric", same_thickness))

    def numbers(x):
        ps = [ortho(x, f"_n{i}") for i in range(6)]
        return [laminate(x, [0, 90, 45, -45, 60, 180], ps), laminate(x, [-90, 0, 135, 270, 360, -30], ps)]
    out.append(("literal angles", numbers))

    def one7(x):
        p = ortho(x, "_o7")
        return [laminate(x, th(*[f"f{i}" for i in range(7)]), [p] * 7, single=True)]
    out.append(("7 plies of one material", one7))

    def large(x):
        p, q = ortho(x, "_x"), ortho(x, "_y")
        a, b, d = th("x0", "x1", "x2")
        return [laminate(x, [a, b, d, b, a, num(0), num(90)] * 4, [p] * 28, single=True), laminate(x, [a, b] * 13, [p, q] * 13)]
    out.append(("28 and 26 plies of few angles and materials", large))
    if thorough:
        for n in (5, 6, 9):
            out.append((f"{n} plies, all angles and materials distinct", distinct(n)))

        def many(n):
            def f(x):
                p = ortho(x, "_big")
                return [laminate(x, th(*[f"g{i}" for i in range(n)]), [p] * n, single=True)]
            return f
        for n in (12, 16, 24):
            out.append((f"{n} plies of one material", many(n)))
    return out


def each(c, ctxs, use):
    """run use(x, label, laminates) in every context"""
    for label, build in ctxs:
        x = Ctx()
        try:
            v, _, _ = c.run(x, label + ": construction", lambda: build(x))
            use(x, label, v)
        except Skip:
            pass
        except Limit as e:
            c.ob(False, label, f"analysis limit: {e}", undecided=True)
        c.use(x, label)
