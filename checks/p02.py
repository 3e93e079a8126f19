"""P02: the stiffness of each ply in the laminate axes."""
from checks.lam import *


def check():
    c = Check("P02", "algebraic value flow from ply constants and angles to the per-ply stiffness in laminate axes; every matrix must be "
              "Te^T Q Te with Te the engineering strain transformation at the ply's angle in degrees, listed bottom to top, in every "
              "laminate context (ply counts, shared plies, repeated angles, several laminates alive); transformation matrices likewise")
    c.min_obs = 300

    def use(x, label, lams):
        at, at2 = member(x, LAM, "Q_layup"), member(x, LAM, "T_layup")
        for r, i in enumerate(list(range(len(lams))) + [0]):
            l = lams[i]
            q, _, _ = c.run(x, f"{label}: Q_layup", lambda: x.attr(l.ref, "Q_layup"))
            c.eq(x, q, l.Qb(), f"{label}: stiffness of the plies of laminate {i + 1}, read {r + 1}", at)
            t, _, _ = c.run(x, f"{label}: T_layup", lambda: x.attr(l.ref, "T_layup"))
            c.eq(x, t, [(T_stress(a), T_strain(a)) for a in l.thetas], f"{label}: transformation matrices of laminate {i + 1}", at2)
    each(c, contexts(THOROUGH), use)
    return c
