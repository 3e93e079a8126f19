"""P04: lamination parameters of a stacking sequence."""
from checks.lam import *


def check():
    c = Check("P04", "algebraic value flow from angles and thicknesses to xiA and xiD; they must be the thickness averages (1/T int, 12/T^3 int z^2) of "
              "cos 2t, sin 2t, cos 4t, sin 4t over the plies; for plies of one material A and D rebuilt from them and the ply invariants "
              "must equal the laminate's A and D")
    c.min_obs = 150

    def use(x, label, lams):
        for r, i in enumerate(list(range(len(lams))) + [0]):
            l = lams[i]
            for name, n in (("xiD", 2), ("xiA", 0)) if r % 2 else (("xiA", 0), ("xiD", 2)):
                v, _, _ = c.run(x, f"{label}: {name}", lambda: x.attr(l.ref, name))
                c.eq(x, v, l.xi(n), f"{label}: {name} of laminate {i + 1}, read {r + 1}", member(x, LAM, name))
                if len({id(p) for p in l.plies}) == 1 and r < len(lams):
                    u = l.plies[0].U()
                    xi = x.array(v)
                    M_, _, _ = c.run(x, f"{label}: {'AxD'[n]}", lambda: x.attr(l.ref, "AxD"[n]))
                    if isinstance(xi, np.ndarray) and xi.shape == (4,) and all(isinstance(e, Form) for e in xi):
                        k = l.T if n == 0 else F.power(l.T, 3) * Q(1, 12)
                        c.eq(x, M_, from_xi(u, xi, k), f"{label}: {'AxD'[n]} of laminate {i + 1} from its {name}", member(x, LAM, name))
    # lamination parameters need the thickness of each ply, so several materials must be given as a list
    ctx = contexts(THOROUGH)
    each(c, ctx, use)
    return c


def from_xi(u, xi, k):
    u1, u2, u3, u4, u5 = u
    x1, x2, x3, x4 = xi
    m11, m22, m12 = u1 + u2 * x1 + u3 * x3, u1 - u2 * x1 + u3 * x3, u4 - u3 * x3
    m66, m16, m26 = u5 - u3 * x3, u2 * x2 * Q(1, 2) + u3 * x4, u2 * x2 * Q(1, 2) - u3 * x4
    return arr([[m11, m12, m16], [m12, m22, m26], [m16, m26, m66]]) * k
