"""P34: the picture of the optimisation shows the problem solved and its solution."""
from checks.opt_ import *
from checks.p22 import GENERIC, find_cell, loads_in

NAN = F.sym("nan")
DRAW = ("contour", "contourf", "plot", "scatter", "show", "figure", "plot_surface")


def kind(e):
    return e.name.rsplit(".", 1)[-1]


def coords(x, v):
    """flat list of the coordinates of a drawing argument; None when unknown"""
    if isinstance(v, (Form, int, float)):
        return [num(v)]
    a = x.array(v)
    return None if not isinstance(a, np.ndarray) else list(a.reshape(-1))


def check():
    c = Check("P34", "value flow from the arguments and the optimiser's result to the drawing calls: every point of the grid over the two lamination parameters is "
              "classified by the chosen region, the height drawn there must be the lowest factor of the eigenproblem of the panel with these parameters (compared "
              "entry by entry with the panel built with the public classes) up to one positive factor for the whole picture, the rest left out; the boundaries and the marker "
              "are compared point by point")
    c.min_obs = 60
    ctx = [("triangle, 5 points", GENERIC[0], None, {"points_to_plot": 5}, True, (2, 2)),
           ("parabola, 5 points, mixed edges", GENERIC[3], MIXED, {"points_to_plot": 5, "penalty": False}, False, (2, 2)),
           ("triangle, 4 points, clamped edges, shear only", GENERIC[2], "CLAMPED", {"points_to_plot": 4, "penalty": True}, True, (3, 2))]
    if THOROUGH:
        ctx += [("triangle, 9 points", GENERIC[1], LISTS, {"points_to_plot": 9}, True, (2, 3)),
                ("parabola, 8 points", GENERIC[0], "PINNED", {"points_to_plot": 8, "penalty": False}, False, (2, 2))]
    for label, p, cons, kw, tri, (m, n) in ctx:
        x = Ctx()
        try:
            at = pos(x, x.get(MAXB)) or MAXB
            one(c, x, label, at, p, cons, dict(kw), tri, m, n)
        except Skip:
            pass
        c.use(x, label)
    for fn, label in ((MAXB, "maximisation"), (MINW, "minimisation")):
        x = Ctx()
        try:
            par = panel_par(x)
            p = GENERIC[1]
            N = loads_in(x, p)
            assume_cell(x, N, find_cell(p))
            at = pos(x, x.get(fn)) or fn
            n0 = len(x.it.events)
            c.run(x, f"{label} without a picture", lambda: x.call(x.get(fn), *[v for k, v in par.items() if k != "T" or fn == MAXB], **dict(zip(LOADS, N)), m=num(2), n=num(2)))
            ev = [e for e in x.it.events[n0:] if kind(e) in DRAW and "matplotlib" in e.name]
            c.ob(not ev, f"{label} without a picture: nothing is drawn", f"{ev[0].name} at {ev[0].where}" if ev else "", at)
        except Skip:
            pass
        c.use(x, f"{label} without a picture")
    return c


def one(c, x, label, at, p, cons, kw, tri, m, n):
    pts = kw["points_to_plot"]
    par = panel_par(x)
    N = loads_in(x, p)
    assume_cell(x, N, find_cell(p))
    args = dict(kw, points_to_plot=num(pts), plot=True)
    if cons is not None:
        args["panel_constraint"] = mk_constraints(x, cons)
    n0 = len(x.it.events)
    res, _, _ = c.run(x, f"{label}: call", lambda: x.call(x.get(MAXB), *[par[k] for k in PAR], **{k: q for k, q, w in zip(LOADS, N, p) if w}, m=num(m), n=num(n), **args),
                      allowed=lambda s, e: "Arpack" in repr(e))
    evs = x.it.events[n0:]
    c.ob(isinstance(res, Opaque) and res.tag == "result", f"{label}: the optimiser's result is returned", f"returns {show(res)}", at, undecided=isinstance(res, (Unk, Phi)))
    draw = [e for e in evs if kind(e) in ("contour", "contourf")]
    c.ob(any(kind(e) == "show" for e in evs), f"{label}: the picture is shown", "the picture is never shown", at)
    c.ob(len(draw) > 0, f"{label}: the factors are drawn", "no contour is drawn", at)
    for e in draw:
        contour(c, x, label, e, evs, pts, par, N, p, cons, tri, m, n)
    curves(c, x, label, [e for e in evs if kind(e) in ("plot", "scatter")], res, tri, at)


def contour(c, x, label, e, evs, pts, par, N, p, cons, tri, m, n):
    site = f"{e.where} in {e.fn}"
    c.ob(len(e.args) >= 3, f"{label}: contour over both parameters", f"{len(e.args)} arguments", site)
    if len(e.args) < 3:
        raise Skip()
    X, Y, Z = (x.array(v) for v in e.args[:3])
    bad = [v for v in (X, Y, Z) if not isinstance(v, np.ndarray)]
    if bad:
        c.ob(False, f"{label}: drawn arrays", show(bad[0]), site, undecided=True)
        raise Skip()
    if X.ndim == 1 and Y.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    ok = X.shape == Y.shape == Z.shape == (pts, pts)
    c.ob(ok, f"{label}: grid", f"shapes {X.shape}, {Y.shape}, {Z.shape} for {pts} points", site)
    if not ok:
        raise Skip()
    gs = list((TRIANGLE if tri else PARABOLA).values())
    eigs = {v.state: v for v in evs if v.name in EIG}
    want = {(Q(-1) + Q(2 * i, pts - 1), Q(-1) + Q(2 * j, pts - 1)) for i in range(pts) for j in range(pts)}
    scales = {}
    left = set(want)
    for ix in np.ndindex(X.shape):
        q = tuple(v.const() if isinstance(v, Form) else None for v in (X[ix], Y[ix]))
        if q not in left:
            c.ob(False, f"{label}: grid point {ix}", f"at ({show(X[ix])}, {show(Y[ix])}), each point of the {pts} x {pts} grid is expected once", site,
                 undecided=None in q)
            continue
        left.discard(q)
        inside = all(g(num(q[0]), num(q[1])).const() >= 0 for g in gs)
        lab = f"{label}: height at xi1 = {q[0]}, xi3 = {q[1]}"
        z = Z[ix]
        if isinstance(z, Phi):
            zs = [v for g, v in z.alts if G.AND(g, x.it.st.pc) is not False]
            z = zs[0] if len(zs) == 1 else z
        if not inside:
            c.ob(isinstance(z, Form) and F.same(z, NAN), lab, f"{show(z)} outside the region", site, undecided=isinstance(z, (Unk, Phi)))
            continue
        at = [a for a in (z.atoms() if isinstance(z, Form) else ()) if a.kind == "inv"]
        used = {b.args[0] for a in all_atoms(z) for b in [a] if b.kind == "eigval"} if isinstance(z, Form) else set()
        if len(used) != 1 or next(iter(used)) not in eigs:
            c.ob(False, lab, f"{show(z)}", site, undecided=isinstance(z, (Unk, Phi)))
            continue
        ev = eigs[next(iter(used))]
        hit = None
        for how, L in (("given", N), ("normalised", normalised(N, p)[0])):
            P, _, _ = c.run(x, f"{label}: panel", lambda: panel(x, par, par["T"], num(q[0]), num(q[1]), L, "PINNED" if cons is None else cons, m, n))
            t = matrices(c, x, label, Plate(P, None, None, None, None, None, m, n), "calc_K_KG_D", site)
            K, KG = x.array(t[0]), x.array(t[1])
            s1 = mesh(x, ev.args[0], KG)
            if s1 is not None:
                hit = (how, s1, K, KG)
                break
        if hit is None:
            c.ob(False, lab, f"loads, dimensions or edges of another panel: {diff_text(x, ev.args[0], KG)}", site)
            continue
        how, s1, K, KG = hit
        ok = ev.args[1] is not None and mesh(x, ev.args[1], K) == 1
        c.ob(ok, lab + ": stiffness", diff_text(x, ev.args[1], K), site)
        if ok:
            s = scale(z, lowest(c, lab, ev, s1))
            c.ob(s is not None and s > 0, lab, f"{show(z)} is no multiple of the factor", site)
            scales.setdefault((how, s), lab)
    c.ob(not left, f"{label}: grid covered", f"not drawn: {sorted(left)[:3]}", site)
    c.ob(len(scales) == 1, f"{label}: one scale", f"{sorted(map(str, scales))}", site)


def all_atoms(f):
    out, todo = set(), [f]
    while todo:
        g = todo.pop()
        for a in g.atoms():
            if a not in out:
                out.add(a)
                todo += [q for q in a.args if isinstance(q, Form)]
    return out


def curves(c, x, label, evs, res, tri, at):
    """the other drawing calls: boundary curves made of points of the boundary that cover it, and one marker at the optimum"""
    opt = [x.it.getattr(res, "x")]
    ox, oy = list(x.array(opt[0]).reshape(-1))
    marks, cover = 0, set()
    for e in evs:
        site = f"{e.where} in {e.fn}"
        if len(e.args) < 2:
            c.ob(False, f"{label}: drawing", f"{len(e.args)} arguments", site, undecided=True)
            continue
        xs, ys = coords(x, e.args[0]), coords(x, e.args[1])
        if xs is None or ys is None or len(xs) != len(ys):
            c.ob(False, f"{label}: drawing", f"{show(e.args[0])} against {show(e.args[1])}", site, undecided=xs is None or ys is None)
            continue
        if all(isinstance(v, Form) and v.const() is not None for v in xs + ys):
            pts = [(v.const(), w.const()) for v, w in zip(xs, ys)]
            off = [q for q in pts if q[1] != (2 * abs(q[0]) - 1 if tri else 2 * q[0] ** 2 - 1) or abs(q[0]) > 1]
            c.ob(not off, f"{label}: boundary drawn", f"({off[0][0]}, {off[0][1]}) is not on the boundary" if off else "", site)
            # what the straight pieces between the points stand for
            for (a, _), (b, _) in zip(pts, pts[1:]):
                if tri and a * b < 0:
                    c.ob(False, f"{label}: boundary drawn", "a piece of the curve cuts the corner", site)
                cover.add((min(a, b), max(a, b)))
        else:
            d = x.compare(xs[0], ox) + x.compare(ys[0], oy) if len(xs) == 1 else []
            ok = len(xs) == 1 and not d
            marks += ok
            c.ob(ok, f"{label}: the optimum is marked", f"drawn at ({show(xs[0])}, {show(ys[0])})", site, undecided=bool(d) and all(q.undecided for q in d))
    c.ob(marks >= 1, f"{label}: the optimum is marked", "the optimum is not marked", at)
    end = Q(-1)
    for a, b in sorted(cover):
        if a > end:
            break
        end = max(end, b)
    c.ob(end >= 1, f"{label}: the boundary is drawn from -1 to 1", f"drawn up to {end}", at)
