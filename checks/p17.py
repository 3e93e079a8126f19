"""P17: geometric stiffness matrix of the plate."""
from checks.plate import *
from checks.p16 import each, contexts


def check():
    c = Check("P17", "algebraic value flow from loads, dimensions and edge conditions to the geometric stiffness matrices of both analyses; every "
              "deflection entry must be the work bilinear form of Nxx, Nyy, Nxy on the two functions, every in-plane entry zero")
    c.min_obs = 400

    def use(x, label, P):
        at = member(x, PLATE, "calc_K_KG_D")
        t = matrices(c, x, label, P, "calc_K_KG_D", at)
        c.eq(x, t[1], geometric(P), f"{label}: KG", at)
        if P.m * P.n <= 6:
            at = member(x, PLATE, "calc_K_KG_ABD")
            t = matrices(c, x, label, P, "calc_K_KG_ABD", at)
            c.eq(x, t[1], full_geometric(P), f"{label}: KG of the full analysis", at)
    each(c, use, contexts(THOROUGH))
    return c
