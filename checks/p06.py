"""P06: the mid-plane response satisfies the laminate's constitutive equation."""
from checks.str_ import *


def check():
    c = Check("P06", "algebraic value flow from plies, angles and loads to the mid-plane strains and curvatures; the classical-lamination ABD matrix "
              "(built independently) times the reported vector must give back the applied loads, in every context; omitted loads count as 0")
    c.min_obs = 60

    def use(x, label, ss):
        at = member(x, STR, "epsilon0")
        for r, i in enumerate(list(range(len(ss))) + [0]):
            s = ss[i]
            e = midplane(c, x, label, s)
            if not all(isinstance(q, Form) for q in e):
                N = [sum((V.arith("*", V.lift(lambda z: z, e[j]), m[j]) for j in range(6)), F.ZERO) for m in s.lam.ABD()]
            else:
                N = matmul(s.lam.ABD(), e)
            c.eq(x, arr(list(N)), arr(s.loads), f"{label}: ABD times the mid-plane response, analysis {i + 1}, read {r + 1}", at)
            if r == 0:
                table(c, x, label, s, "calculate_strain", ())     # reading the tables must not change the response
                table(c, x, label, s, "calculate_stress", ())
                e2 = midplane(c, x, label, s)
                c.eq(x, e2, e, f"{label}: mid-plane response after the tables were read", at)
    each(c, contexts(THOROUGH), use)
    return c
