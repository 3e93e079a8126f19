"""P07: strains of every ply in the laminate axes."""
from checks.str_ import *

COLS = ("epsilonx", "epsilony", "gammaxy")


def check():
    c = Check("P07", "algebraic value flow to the strain table: two rows a ply, bottom ply first, bottom face then top face, labelled with ply number, "
              "face, angle and height, holding eps0 + z kappa with z the height of that face, from the mid-plane response reported for the "
              "same analysis; read repeatedly, before and after the stress and margin tables")
    c.min_obs = 250

    def use(x, label, ss):
        at = member(x, STR, "calculate_strain")
        for r, i in enumerate(list(range(len(ss))) + [0]):
            s = ss[i]
            if r % 2:
                table(c, x, label, s, "calculate_stress", ())
            e = midplane(c, x, label, s)
            cols = table(c, x, label, s, "calculate_strain", ("ply", "z", "position", "angle") + COLS)
            want = id_columns(s)
            pts = list(point_strains(s, e))
            want["z"] = [s.lam.z[j] for _, j, _ in pts]
            for n, k in enumerate(COLS):
                want[k] = [v[n] for _, _, v in pts]
            cmp_cols(c, x, cols, want, f"{label}, analysis {i + 1}, read {r + 1}", at)
    each(c, contexts(THOROUGH), use)
    return c
