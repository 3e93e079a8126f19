"""P21: the plotted mode shape is the computed mode on the requested grid."""
from checks.plate import *
from checks.p20 import EIG


def surface(e):
    n = e.name.rsplit(".", 1)[-1]
    return n in ("plot_surface", "plot_wireframe")


def check():
    c = Check("P21", "value flow from the stored modes, the retained functions and the plate dimensions to the drawing call, for several grid shapes: the "
              "drawn points must be exactly the grid over the a x b plate, each with the deflection of the chosen mode there, in physical coordinates")
    c.min_obs = 100
    ctx = [("4x3 grid, first mode, analysis on demand", None, 2, 2, None, (("ngridx", 4), ("ngridy", 3)), 0),
           ("3x5 grid, second mode after an analysis", MIXED, 2, 3, 4, (("nth", 1), ("ngridx", 3), ("ngridy", 5)), 1),
           ("default grid, first mode", "CLAMPED", 2, 2, None, (), 0),
           ("2x2 grid, third mode after an analysis", LISTS, 3, 2, 3, (("nth", 2), ("ngridx", 2), ("ngridy", 2)), 2),
           ("5x2 grid by position", NAMES, 2, 2, 2, (1, 5, 2), 1)]
    if THOROUGH:
        ctx += [("7x11 grid, fourth mode", MIXED, 3, 3, 5, (("nth", 3), ("ngridx", 7), ("ngridy", 11)), 3)]
    for label, cons, m, n, first, args, nth in ctx:
        x = Ctx()
        at = member(x, PLATE, "plot_eigenvalue")
        allow = (lambda s, e: "Arpack" in repr(e))
        try:
            P, _, _ = c.run(x, f"{label}: construction", lambda: plate(x, lam2(x), cons, m, n))
            if first is not None:
                c.run(x, f"{label}: analysis", lambda: x.meth(P.ref, "buckling_analysis", num_eigvalues=num(first)), allowed=allow)
            gx, gy = (args[1], args[2]) if args and not isinstance(args[0], tuple) else (dict(args).get("ngridx", 20), dict(args).get("ngridy", 20))
            n0 = len(x.it.events)
            if args and not isinstance(args[0], tuple):
                c.run(x, f"{label}: plot", lambda: x.meth(P.ref, "plot_eigenvalue", *[num(q) for q in args]), allowed=allow)
            else:
                c.run(x, f"{label}: plot", lambda: x.meth(P.ref, "plot_eigenvalue", **{k: num(q) for k, q in args}), allowed=allow)
            ran = [e for e in x.it.events[n0:] if e.name in EIG]
            c.ob(len(ran) == (0 if first is not None else 1), f"{label}: modes computed when needed",
                 f"{len(ran)} analyses run by the plot", at)
            draw = [e for e in x.it.events[n0:] if surface(e)]
            shows = [e for e in x.it.events[n0:] if e.name.endswith(".show")]
            c.ob(len(draw) == 1 and len(draw[0].args) >= 3, f"{label}: one surface is drawn", f"{len(draw)} surfaces drawn", at, undecided=len(draw) > 1)
            c.ob(bool(shows), f"{label}: the figure is shown", "the figure is never shown", at)
            if len(draw) != 1:
                continue
            X, Y, Z = (x.array(v) for v in draw[0].args[:3])
            vec, _, _ = c.run(x, f"{label}: modes", lambda: x.attr(P.ref, "eigenvector"))
            vec = x.array(vec)
            fw = P.funcs("w")
            bad = [s for s in (X, Y, Z, vec) if not isinstance(s, np.ndarray)]
            if bad:
                c.ob(False, f"{label}: drawn arrays", show(bad[0]), at, undecided=True)
                continue
            c.ob(X.shape == Y.shape == Z.shape and sorted(X.shape) == sorted((gx, gy)), f"{label}: grid shape",
                 f"drawn shapes {X.shape}, {Y.shape}, {Z.shape}", f"{draw[0].where} in {draw[0].fn}")
            if not X.shape == Y.shape == Z.shape or sorted(X.shape) != sorted((gx, gy)):
                continue
            # either index order of the mesh draws the same surface
            tr = X.shape != (gy, gx) or (gx == gy and gx > 1 and F.same(X[0, 0], X[0, 1]))
            for i in range(gy):
                for j in range(gx):
                    ix = (j, i) if tr else (i, j)
                    xi, eta = num(Q(-1) + Q(2 * j, gx - 1)), num(Q(-1) + Q(2 * i, gy - 1))
                    w = F.ZERO
                    for k, (p, q) in enumerate(fw):
                        w = w + vec[k, nth] * M.shape_atom(num(p), xi) * M.shape_atom(num(q), eta)
                    lab = f"{label}: point {j},{i}"
                    c.eq(x, X[ix], P.a * (xi + F.ONE) * Q(1, 2), f"{lab}: x", at)
                    c.eq(x, Y[ix], P.b * (eta + F.ONE) * Q(1, 2), f"{lab}: y", at)
                    c.eq(x, Z[ix], w, f"{lab}: deflection", at)
        except Skip:
            pass
        c.use(x, label)
    return c
