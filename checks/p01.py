"""P01: the reduced stiffness of a ply in its own axes."""
from checks.lam import *


def check():
    c = Check("P01", "interprocedural algebraic value flow from the constructor arguments to the reduced stiffness matrix, for "
              "orthotropic and isotropic plies with symbolic constants; each entry must be the plane-stress stiffness "
              "(inverse of the ply compliance), on first and repeated reads, with several plies alive")
    c.min_obs = 60
    for kind, mk, cls in (("orthotropic", ortho, MAT), ("isotropic", iso, ISO)):
        for how in ("pos", "kw"):
            x = Ctx()
            label = f"{kind} ply, {'positional' if how == 'pos' else 'keyword'} arguments"
            try:
                ps, _, _ = c.run(x, label, lambda: [mk(x, "_1", how), mk(x, "_2", how)])
                for r, i in enumerate((0, 1, 0)):
                    p = ps[i]
                    at = member(x, cls, "Q_0")
                    q, _, _ = c.run(x, label + ": Q_0", lambda: x.attr(p.ref, "Q_0"))
                    c.eq(x, q, p.Q0(), f"{label}: Q_0 of ply {i + 1}, read {r + 1}", at)
                    # compliance oracle: Q_0 inverts [[1/E1, -v12/E1, 0], [-v12/E1, 1/E2, 0], [0, 0, 1/G]]
                    e1, e2, v, g = (p.e1, p.e2, p.v12, p.g12) if kind == "orthotropic" else (p.e, p.e, p.v, p.g)
                    S = arr([[F.inv(e1), v * F.inv(e1) * -1, 0], [v * F.inv(e1) * -1, F.inv(e2), 0], [0, 0, F.inv(g)]])
                    a = x.array(q)
                    if isinstance(a, np.ndarray) and a.shape == (3, 3) and all(isinstance(e, Form) for e in a.flat):
                        c.eq(x, matmul(a, S), arr(np.eye(3, dtype=int)), f"{label}: Q_0 times the compliance", at)
                    u, _, _ = c.run(x, label + ": Invariants", lambda: x.meth(p.ref, "Invariants"))
                    c.eq(x, u, arr(p.U()), f"{label}: stiffness invariants of ply {i + 1}", member(x, cls, "Invariants"))
                    if kind == "orthotropic":
                        v21, _, _ = c.run(x, label + ": v21", lambda: x.attr(p.ref, "v21"))
                        c.eq(x, v21, p.v12 * p.e2 / p.e1, f"{label}: v21", member(x, cls, "v21"))
            except Skip:
                pass
    # values at the ends of the admissible ranges, and coinciding ones
    h = F.const(Q(1, 2))
    for kind, mk, cls, cases in (("orthotropic", ortho, MAT, ({"g12": F.ZERO}, {"v12": F.ZERO}, {"e2": F.ZERO}, {"v12": h}, {"v12": -h}, {"g12": F.ZERO, "v12": F.ZERO},
                                                               {"e1": F.const(100), "e2": F.const(100), "g12": F.const(40), "v12": F.const(Q(1, 4))})),
                                 ("isotropic", iso, ISO, ({"g": F.ZERO}, {"v": F.ZERO}, {"v": h}, {"v": -h}, {"g": F.ZERO, "v": F.ZERO}, {"t": F.ZERO, "c": F.ZERO, "s": F.ZERO}))):
        for f in cases:
            for how in ("pos", "kw"):
                x = Ctx()
                label = f"{kind} ply with {', '.join(f'{k} = {show(v)}' for k, v in f.items())}, {how}"
                try:
                    p, _, _ = c.run(x, label, lambda: mk(x, "_s", how, **f))
                    q, _, _ = c.run(x, label + ": Q_0", lambda: x.attr(p.ref, "Q_0"))
                    c.eq(x, q, p.Q0(), f"{label}: Q_0", member(x, cls, "Q_0"))
                    u, _, _ = c.run(x, label + ": Invariants", lambda: x.meth(p.ref, "Invariants"))
                    c.eq(x, u, arr(p.U()), f"{label}: stiffness invariants", member(x, cls, "Invariants"))
                except Skip:
                    pass
    return c
