"""P22: the problem maximize_buckling_load hands to the optimiser."""
from checks.opt_ import *

GENERIC = [(-3, Q(1, 2), 2), (Q(1, 2), -Q(3, 4), 0), (0, 0, Q(5, 2)), (Q(1, 4), Q(1, 2), -Q(3, 4))]


def find_cell(p):
    fs = list(p) + [s for i in range(3) for j in range(i) for s in (p[i] - p[j], p[i] + p[j])] + [s for q in p for s in (q - 1, q + 1)]
    return tuple((s > 0) - (s < 0) for s in fs)


def loads_in(x, p, zero_const=True):
    N = [sym(k) if q or not zero_const else F.ZERO for k, q in zip(LOADS, p)]
    return N


def check():
    c = Check("P22", "value flow from the arguments to the optimiser call: the objective handed over, applied to a symbolic design, must be minus the buckling "
              "factor of the panel built with the public classes from the same data (its eigenproblem compared entry by entry), the constraint functions "
              "must be the chosen feasible region, the bounds [-1, 1], options and tolerance those given, the result the optimiser's")
    c.min_obs = 100
    fn = MAXB
    ctx = [("loads of any size, default panel", GENERIC[0], None, {}, True, (2, 3)),
           ("CLAMPED panel, penalty given", GENERIC[1], "CLAMPED", {"penalty": True}, True, (3, 2)),
           ("natural region, mixed edges, shear only", GENERIC[2], MIXED, {"penalty": False}, False, (2, 2)),
           ("options and tolerance", GENERIC[3], LISTS, {"options": "opt", "tol": "tol"}, True, (2, 2)),
           ("natural region with options", GENERIC[0], "PINNED", {"penalty": False, "options": "opt", "tol": "tol"}, False, (2, 2))]
    for label, p, cons, kw, tri, (m, n) in ctx:
        x = Ctx()
        try:
            at = base_pos(x, fn)
            for r in range(2):
                one(c, x, f"{label}, call {r + 1}", at, fn, p, cons, kw, tri, m, n, "" if not r else "'")
        except Skip:
            pass
        c.use(x, label)
    return c


def base_pos(x, fn):
    return pos(x, x.get(fn)) or fn


def one(c, x, label, at, fn, p, cons, kw, tri, m, n, tag):
    saved = x.it.st.pc
    par = panel_par(x, tag)
    N = loads_in(x, p)
    assume_cell(x, N, find_cell(p))
    opts = dict(kw)
    if "options" in opts:
        opts["options"] = x.it.new_dict({"maxiter": sym("maxiter", "+")})
    if "tol" in opts:
        opts["tol"] = sym("tol", "+")
    args = dict(opts)
    if cons is not None:
        args["panel_constraint"] = mk_constraints(x, cons)
    n0 = len(x.it.events)
    # the panel's defining data by position, the rest by name
    res, _, _ = c.run(x, f"{label}: call", lambda: x.call(x.get(fn), *[par[k] for k in PAR], **{k: q for k, q, w in zip(LOADS, N, p) if w}, m=num(m), n=num(n), **args))
    e = the_minimize(c, x, label, n0, res, at)
    site = f"{e.where} in {e.fn}"
    for k in ("options", "tol"):
        g = e.kwargs.get(k)
        c.ob(same_arg(x, g, opts.get(k)), f"{label}: {k} passed on", f"got {show(g)}", site)
    xi1, xi3 = sym("xi1"), sym("xi3")
    y = x.it.new_arr(arr([xi1, xi3]))
    # the result
    c.ob(isinstance(res, Opaque) and res.tag == "result", f"{label}: the optimiser's result is returned", f"returns {show(res)}", at,
         undecided=isinstance(res, (Unk, Phi)))
    # the start
    st = e.kwargs.get("x0")
    s = x.array(st)
    ok = isinstance(s, np.ndarray) and s.shape == (2,) and all(const(q) is not None for q in s)
    if ok:
        a, b = const(s[0]), const(s[1])
        ok = abs(a) <= 1 and abs(b) <= 1 and b + 2 * a + 1 >= 0 and b - 2 * a + 1 >= 0
    c.ob(ok, f"{label}: feasible start", f"starts at {show(s)}", site)
    # bounds
    bs = bounds(c, x, label, e, 2, at)
    c.ob(len(bs) == 2 and all(const(q) == w for r in bs for q, w in zip(r, (-1, 1))), f"{label}: bounds of the lamination parameters",
         f"bounds {[tuple(show(q) for q in r) for r in bs]}", site)
    # feasible region
    got = []
    for f, lb, ub in expand(c, x, label, constraints(c, x, label, e, 2, site), (xi1, xi3), at):
        if isinstance(f, Form):
            got.append((f, lb, ub))
        else:
            for i, v in enumerate(value_at(c, x, label, f, y, at)):
                got.append((v, pick(lb, i), pick(ub, i)))
    region(c, x, label, got, {k: g(xi1, xi3) for k, g in (TRIANGLE if tri else PARABOLA).items()}, site)
    # objective
    Nn, _ = normalised(N, p)
    P, _, _ = c.run(x, f"{label}: panel", lambda: panel(x, par, par["T"], xi1, xi3, Nn, "PINNED" if cons is None else cons, m, n))
    t = matrices(c, x, label, Plate(P, None, None, None, None, None, m, n), "calc_K_KG_D", at)
    K, KG = x.array(t[0]), x.array(t[1])
    f = e.kwargs.get("fun")
    ok, fac = factor_of(c, x, label, lambda: x.call(f, y), K, KG, at, lambda q: q)
    for v in ok:
        s = scale(v, fac) if isinstance(v, Form) else None
        c.ob(s is not None and s < 0, f"{label}: objective is minus the buckling factor", f"objective {show(v)}", at, undecided=isinstance(v, Unk))
    x.it.st.pc = saved
