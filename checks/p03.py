"""P03: ply interface positions and the A, B, D matrices."""
from checks.lam import *


def check():
    c = Check("P03", "algebraic value flow from plies and angles to interface positions and A, B, D, ABD; positions must run from -T/2 to T/2 "
              "bottom to top in steps of the ply thicknesses, A, B, D must be the thickness integrals of Qbar, Qbar z, Qbar z^2, and ABD "
              "[[A, B], [B, D]], in every laminate context and access order")
    c.min_obs = 800
    orders = (("z_position", "A", "B", "D", "ABD"), ("ABD", "D", "A", "z_position", "B"), ("D", "B", "ABD", "A", "z_position"))

    def use(x, label, lams):
        for r, i in enumerate(list(range(len(lams))) + [0]):
            l = lams[i]
            want = {"z_position": l.z, "A": l.moment(0), "B": l.moment(1), "D": l.moment(2), "ABD": l.ABD()}
            for name in orders[(r + l.n) % 3]:
                v, _, _ = c.run(x, f"{label}: {name}", lambda: x.attr(l.ref, name))
                c.eq(x, v, want[name], f"{label}: {name} of laminate {i + 1}, read {r + 1}", member(x, LAM, name))
    each(c, contexts(THOROUGH), use)
    return c
