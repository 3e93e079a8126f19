"""P16: bending stiffness matrix of the plate."""
from checks.plate import *
METHOD, WHICH = "calc_K_KG_D", 0


def contexts(thorough=False):
    out = [("default constraints, 2x3 terms", None, 2, 3, "kw"), ("PINNED, 3x2 terms", "PINNED", 3, 2, "pos"),
           ("CLAMPED, 2x2 terms", "CLAMPED", 2, 2, "kw"), ("named and listed edges mixed, 3x3 terms", MIXED, 3, 3, "kw"),
           ("listed edges, 2x4 terms", LISTS, 2, 4, "pos"), ("named edges, 4x3 terms", NAMES, 4, 3, "kw"), ("1x1 term", "PINNED", 1, 1, "kw"),
           ("1x3 terms", MIXED, 1, 3, "kw")]
    if thorough:
        out += [("PINNED, 5x4 terms", "PINNED", 5, 4, "kw"), ("named edges, 6x6 terms", NAMES, 6, 6, "kw"), ("default constraints, 10x10 terms", None, 10, 10, "kw")]
    return out


def each(c, use, ctxs):
    for label, cons, m, n, how in ctxs:
        x = Ctx()
        try:
            Ps, _, _ = c.run(x, f"{label}: construction", lambda: [plate(x, lam2(x), cons, m, n, "", how=how), plate(x, lam2(x, "'"), NAMES, n, m, "'", ("Nxy",))])
            for r, i in enumerate((0, 1, 0)):
                if m * n > 20 and r:
                    break
                observe_stiffness(c, x, label, Ps[i])
                use(x, f"{label}, plate {i + 1}, read {r + 1}", Ps[i])
        except Skip:
            pass


def check():
    c = Check("P16", "algebraic value flow from laminate, dimensions and edge conditions to the bending stiffness matrix, integral table entries kept "
              "as symbols of their meaning; every entry must be the strain-energy bilinear form of the two functions (all six D terms, both "
              "coordinates scaled), rows and columns ordered by the retained functions, hence symmetric")
    c.min_obs = 400

    def use(x, label, P):
        at = member(x, PLATE, METHOD)
        t = matrices(c, x, label, P, METHOD, at)
        c.eq(x, t[0], bending(P), f"{label}: K", at)
    each(c, use, contexts(THOROUGH))
    return c
