"""P08: stresses of every ply in the laminate axes."""
from checks.str_ import *

COLS = ("sigmax", "sigmay", "tauxy")


def check():
    c = Check("P08", "algebraic value flow to the stress table: each row must be the ply's stiffness in laminate axes times the strain of that face "
              "(eps0 + z kappa of the reported mid-plane response), rows labelled as in the strain table; read repeatedly and after the "
              "other tables")
    c.min_obs = 250

    def use(x, label, ss):
        at = member(x, STR, "calculate_stress")
        for r, i in enumerate(list(range(len(ss))) + [0]):
            s = ss[i]
            if r % 2:
                table(c, x, label, s, "calculate_strain", ())
                table(c, x, label, s, "calculate_maxstressmargin", ())
            e = midplane(c, x, label, s)
            cols = table(c, x, label, s, "calculate_stress", ("ply", "z", "position", "angle") + COLS)
            want = id_columns(s)
            qb = s.lam.Qb()
            pts = [(k, j, matmul(qb[k], v)) for k, j, v in point_strains(s, e)]
            want["z"] = [s.lam.z[j] for _, j, _ in pts]
            for n, k in enumerate(COLS):
                want[k] = [v[n] for _, _, v in pts]
            cmp_cols(c, x, cols, want, f"{label}, analysis {i + 1}, read {r + 1}", at)
    each(c, contexts(THOROUGH), use)
    return c
