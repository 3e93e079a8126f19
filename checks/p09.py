"""P09: strains and stresses in the material axes of each ply."""
from checks.str_ import *

EPS = ("epsilonx", "epsilony", "gammaxy"), ("epsilon1", "epsilon2", "gamma12")
SIG = ("sigmax", "sigmay", "tauxy"), ("sigma1", "sigma2", "tau12")


def check():
    c = Check("P09", "relational value flow inside each result table: the material-axis columns of a row must be the laminate-axis columns of the same "
              "row rotated by that ply's angle (engineering shear strain), and across the tables sigma_12 = Q_0 eps_12 of the ply")
    c.min_obs = 250

    def use(x, label, ss):
        for r, i in enumerate(list(range(len(ss))) + [0]):
            s = ss[i]
            tabs = []
            for method, (lam, mat), tr in (("calculate_strain", EPS, T_strain), ("calculate_stress", SIG, T_stress)):
                at = member(x, STR, method)
                cols = table(c, x, label, s, method, lam + mat)
                rows = []
                if any(len(cols[k]) != 2 * s.lam.n for k in lam + mat):
                    c.ob(False, f"{label}: rows of {method}", f"{[len(cols[k]) for k in lam + mat]} rows for {s.lam.n} plies", at)
                    raise Skip()
                for q in range(2 * s.lam.n):
                    g = arr([cols[k][q] for k in lam])
                    got = arr([cols[k][q] for k in mat])
                    rows.append(got)
                    if all(isinstance(v, Form) for v in g):
                        w = matmul(tr(s.lam.thetas[q // 2]), g)
                    else:
                        t = tr(s.lam.thetas[q // 2])
                        w = arr([addall([V.arith("*", t[a, b], g[b]) for b in range(3)]) for a in range(3)])
                    c.eq(x, got, w, f"{label}, analysis {i + 1}, read {r + 1}: {method} row {q} in material axes", at)
                tabs.append(rows)
            for q, (e, sg) in enumerate(zip(*tabs)):
                q0 = s.lam.plies[q // 2].Q0()
                w = arr([addall([V.arith("*", q0[a, b], e[b]) for b in range(3)]) for a in range(3)])
                c.eq(x, sg, w, f"{label}, analysis {i + 1}: row {q} stress = stiffness times strain in material axes",
                     member(x, STR, "calculate_stress"))
    each(c, contexts(THOROUGH), use)
    return c


def addall(xs):
    r = F.ZERO
    for v in xs:
        r = V.arith("+", r, v)
    return r
