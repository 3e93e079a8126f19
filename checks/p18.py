"""P18: stiffness matrix of the full-ABD analysis."""
from checks.plate import *
from checks.p16 import each, contexts


def check():
    c = Check("P18", "algebraic value flow to the coupled stiffness matrix in u, v, w; every entry of all nine blocks must be the strain-energy bilinear "
              "form of the full ABD matrix (membrane, coupling, bending) between the two functions, ordered u, v, w, hence symmetric")
    c.min_obs = 1000

    def use(x, label, P):
        at = member(x, PLATE, "calc_K_KG_ABD")
        t = matrices(c, x, label, P, "calc_K_KG_ABD", at)
        c.eq(x, t[0], full(P), f"{label}: K", at)
    each(c, use, [q for q in contexts(False) if q[2] * q[3] <= (9 if THOROUGH else 6)])
    return c
