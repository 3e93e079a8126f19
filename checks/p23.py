"""P23: the problem minimize_panel_weight hands to the optimiser."""
from checks.opt_ import *
from checks.p22 import GENERIC, find_cell, loads_in, base_pos

WPAR = ("a", "b", "E1", "E2", "v12", "G12")


def check():
    c = Check("P23", "value flow from the arguments to the optimiser call: the objective must increase with the thickness only, one constraint must be the buckling "
              "factor, under the loads over the largest one, of the panel built with the public classes from the same data (its eigenproblem compared entry "
              "by entry) reaching the largest load, the others the feasible region; bounds, start, options and tolerance as given, the result the optimiser's")
    c.min_obs = 100
    ctx = [("loads of any size, default panel", GENERIC[0], None, {}, (2, 3)),
           ("CLAMPED panel, start given", GENERIC[1], "CLAMPED", {"x0": True}, (3, 2)),
           ("mixed edges, shear only", GENERIC[2], MIXED, {}, (2, 2)),
           ("options and tolerance", GENERIC[3], LISTS, {"options": "opt", "tol": "tol", "x0": True}, (2, 2))]
    for label, p, cons, kw, (m, n) in ctx:
        x = Ctx()
        try:
            at = base_pos(x, MINW)
            for r in range(2):
                one(c, x, f"{label}, call {r + 1}", at, p, cons, kw, m, n, "" if not r else "'")
        except Skip:
            pass
        c.use(x, label)
    return c


def one(c, x, label, at, p, cons, kw, m, n, tag):
    saved = x.it.st.pc
    par = panel_par(x, tag)
    N = loads_in(x, p)
    assume_cell(x, N, find_cell(p))
    opts = dict(kw)
    start = None
    if "options" in opts:
        opts["options"] = x.it.new_dict({"maxiter": sym("maxiter", "+")})
    if "tol" in opts:
        opts["tol"] = sym("tol", "+")
    if "x0" in opts:
        start = [sym(f"s{i}{tag}") for i in range(3)]
        opts["x0"] = x.it.new_list(list(start))
    args = dict(opts)
    if cons is not None:
        args["panel_constraint"] = mk_constraints(x, cons)
    n0 = len(x.it.events)
    res, _, _ = c.run(x, f"{label}: call", lambda: x.call(x.get(MINW), *[par[k] for k in WPAR], **{k: q for k, q, w in zip(LOADS, N, p) if w}, m=num(m), n=num(n), **args))
    e = the_minimize(c, x, label, n0, res, at)
    site = f"{e.where} in {e.fn}"
    for k in ("options", "tol"):
        g = e.kwargs.get(k)
        c.ob(same_arg(x, g, opts.get(k)), f"{label}: {k} passed on", f"got {show(g)}", site)
    T, xi1, xi3 = sym("T", "+"), sym("xi1"), sym("xi3")
    y = x.it.new_arr(arr([T, xi1, xi3]))
    c.ob(isinstance(res, Opaque) and res.tag == "result", f"{label}: the optimiser's result is returned", f"returns {show(res)}", at,
         undecided=isinstance(res, (Unk, Phi)))
    s = x.array(e.kwargs.get("x0"))
    if not isinstance(s, np.ndarray) or s.shape != (3,):
        c.ob(False, f"{label}: start", f"starts at {show(s)}", site, undecided=isinstance(s, Unk))
    elif start is not None:
        c.eq(x, s, arr(start), f"{label}: start", site)
    else:
        q = [const(v) for v in s]
        ok = None not in q and q[0] > 0 and abs(q[1]) <= 1 and abs(q[2]) <= 1 and q[2] + 2 * q[1] + 1 >= 0 and q[2] - 2 * q[1] + 1 >= 0
        c.ob(ok, f"{label}: start", f"starts at {show(s)}", site)
    bs = bounds(c, x, label, e, 3, at)
    ok = len(bs) == 3 and all(const(q) == w for r in bs[1:] for q, w in zip(r, (-1, 1)))
    lo, hi = (const(bs[0][0]), const(bs[0][1])) if len(bs) == 3 and bs[0][0] is not None else (None, None)
    hi = float("inf") if len(bs) == 3 and bs[0][1] is None else hi
    ok = ok and lo is not None and hi is not None and 0 < lo <= Q(1, 100) and hi >= 10000
    c.ob(ok, f"{label}: bounds of thickness and lamination parameters", f"bounds {[tuple(show(q) for q in r) for r in bs]}", site)
    # objective: increases with the thickness, nothing else matters
    f = e.kwargs.get("fun")
    v, _, _ = c.run(x, f"{label}: objective", lambda: x.call(f, y))
    c.ob(increasing(v, T, (xi1, xi3)), f"{label}: objective increases with the thickness alone", f"objective {show(v)}", at, undecided=isinstance(v, (Unk, Phi)))
    # the panel
    Nn, mx = normalised(N, p)
    P, _, _ = c.run(x, f"{label}: panel", lambda: panel(x, par, T, xi1, xi3, Nn, "PINNED" if cons is None else cons, m, n))
    t = matrices(c, x, label, Plate(P, None, None, None, None, None, m, n), "calc_K_KG_D", at)
    K, KG = x.array(t[0]), x.array(t[1])
    got, buckling = [], 0
    for f, lb, ub in expand(c, x, label, constraints(c, x, label, e, 3, site), (T, xi1, xi3), at):
        if isinstance(f, Form):
            got.append((f, lb, ub))
            continue
        n1 = len(x.it.events)
        saved2 = x.it.st.clone()
        vs = value_at(c, x, label, f, y, at)
        if not any(q.name in EIG for q in x.it.events[n1:]):
            for i, v in enumerate(vs):
                got.append((v, pick(lb, i), pick(ub, i)))
            continue
        del x.it.events[n1:]
        x.it.st = saved2
        buckling += 1
        low = pick(lb, 0)
        ok, fac = factor_of(c, x, f"{label}: load constraint", lambda: x.call(f, y), K, KG, at,
                            lambda q: low - q - F.const(Q(1, 10 ** 9)) if isinstance(low, Form) else F.ONE)
        up = const(pick(ub, 0))
        c.ob(up is not None and up >= 10**9, f"{label}: no upper limit of the load", f"upper bound {show(ub)}", site)
        for v in ok:
            if not isinstance(v, Form) or not isinstance(low, Form):
                c.ob(False, f"{label}: load constraint", f"{show(v)} >= {show(low)}", at, undecided=True)
                continue
            # v - low == s * (factor - largest load) with s > 0
            d, w = v - low, fac - mx
            s = scale(d, w)
            if s is None and F.same(d * mx, w):
                s = 1
            c.ob(s is not None and s > 0, f"{label}: buckling load reaches the largest load", f"{show(v)} >= {show(low)}", at)
    c.ob(buckling == 1, f"{label}: one constraint on the buckling load", f"{buckling} constraints analyse the panel", site)
    region(c, x, label, got, {k: g(xi1, xi3) for k, g in TRIANGLE.items()}, site)
    x.it.st.pc = saved


def increasing(v, T, others):
    """a sum of positive multiples of positive powers of T (times positive constants), plus constants"""
    if not isinstance(v, Form):
        return False
    bad = {a for o in others for a in o.atoms()}
    ta = next(iter(T.atoms()))
    some = False
    for m, q in v.t.items():
        e = 0
        for a, k in m:
            if a in bad:
                return False
            if a is ta:
                e = k
            elif G.known_sign(F.atom_form(a)) != 1 and G.lt0(F.atom_form(a) * -1) is not True:
                return False
        if e < 0 or e > 0 and q < 0:
            return False
        some = some or e > 0
    return some
