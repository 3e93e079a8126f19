"""P20: the buckling eigenproblem and what is done with its solution."""
from checks.plate import *

EIG = ("scipy.sparse.linalg.eigsh",)


def ratio(c, x, got, want):
    """the rational factor s with got == s * want, entry by entry; None when there is none"""
    r = None
    for i in np.ndindex(want.shape):
        w, g = want[i], got[i]
        if not isinstance(g, Form) or not isinstance(w, Form):
            return None
        for k in (0, 1):
            fw, fg = F.fp(w, k), F.fp(g, k)
            if fw == 0 or fg == 0:
                if fw != fg:
                    return None
                continue
            q = fg * pow(fw, F.PRIME - 2, F.PRIME) % F.PRIME
            if r is None:
                r = q
            elif q != r:
                return None
    q = None if r is None else F.rational(r)
    return None if q is None else F.const(q)


def check():
    c = Check("P20", "value flow into and out of the eigensolver: its pencil must be (a multiple of) the plate's own geometric and stiffness matrices, its "
              "selection must be the algebraic extreme that holds the lowest factor whatever the magnitude of the loads, and the returned and stored "
              "factors and modes must be its answers, converted and paired, lowest first, in the number requested")
    c.min_obs = 150

    def one(x, label, P, num_req, silent):
        at = member(x, PLATE, "buckling_analysis")
        t = matrices(c, x, label, P, "calc_K_KG_D", member(x, PLATE, "calc_K_KG_D"))
        K, KG = x.array(t[0]), x.array(t[1])
        n0 = len(x.it.events)
        kw = {}
        if silent is not None:
            kw["silent"] = silent
        if num_req is not None:
            kw["num_eigvalues"] = num(num_req)
        allow = (lambda s, e: "Arpack" in repr(e))
        v, _, _ = c.run(x, f"{label}: analysis", lambda: x.meth(P.ref, "buckling_analysis", **kw), allowed=allow)
        evs = [e for e in x.it.events[n0:] if e.name in EIG]
        if not evs:
            c.ob(False, f"{label}: eigensolver", "the eigensolver is not called", at)
            return
        if len(evs) > 1:
            c.ob(False, f"{label}: eigensolver", f"{len(evs)} eigensolver calls", at, undecided=True)
            return
        e = evs[0]
        site = f"{e.where} in {e.fn}"
        a, m = e.args
        n = len(KG)
        if m is None or a.shape != KG.shape or m.shape != K.shape:
            c.ob(False, f"{label}: pencil", f"shapes {a.shape}, {None if m is None else m.shape}, expected {KG.shape}", site)
            return
        s1, s2 = ratio(c, x, a, KG), ratio(c, x, m, K)
        c.ob(s1 is not None, f"{label}: A of the eigenproblem is a multiple of the geometric matrix", "A is not the plate's geometric stiffness matrix", site)
        c.ob(s2 is not None, f"{label}: M of the eigenproblem is a multiple of the stiffness matrix", "M is not the plate's stiffness matrix", site)
        if s1 is None or s2 is None:
            return
        pos2 = G.lt0(s2 * F.const(-1))
        c.ob(pos2 is True, f"{label}: M positive definite", f"M is the stiffness matrix times {show(s2)}", site)
        s = s1 * F.inv(s2)
        sg = 1 if G.lt0(s * F.const(-1)) is True else -1 if G.lt0(s) is True else None
        if sg is None:
            c.ob(False, f"{label}: sign", f"the sign of the pencil's factor is not decided: {show(s)}", site, undecided=True)
            return
        d = e.kwargs
        which, sigma, mode, tol = d.get("which", "LM"), d.get("sigma"), d.get("mode", "normal"), d.get("tol", F.ZERO)
        want = "SA" if sg > 0 else "LA"
        ok = which == want and sigma is None
        c.ob(ok, f"{label}: selection of the lowest factor", f"which={show(which)}, sigma={show(sigma)}, mode={show(mode)} does not select the lowest "
             f"factor for loads of any magnitude ({want} without shift does)", site)
        tv = tol.const() if isinstance(tol, Form) else None
        c.ob(tv is not None and 0 <= tv <= Q(1, 10**6), f"{label}: tolerance", f"tolerance {show(tol)}", site)
        req = 5 if num_req is None else num_req
        kk = d.get("k", num(6))
        kv = kk.const() if isinstance(kk, Form) else None
        good = kv is not None and (kv == req if req <= n - 2 else n - 2 <= kv <= n - 1)
        c.ob(good, f"{label}: number of factors", f"{show(kk)} factors are asked for, {req} requested, {n} functions", site)
        if not good or not ok:
            return
        kv = int(kv)
        order = list(range(kv)) if sg > 0 else list(range(kv))[::-1]
        vals = arr([s * F.const(-1) * F.inv(F.atom_form(F.Atom("eigval", e.state, j))) for j in order])
        vecs = arr([[F.atom_form(F.Atom("eigvec", e.state, i, j)) for j in order] for i in range(n)])
        r = x.items(v)
        if not isinstance(r, list) or len(r) != 2:
            c.ob(False, f"{label}: result", f"not a pair: {show(v)}", at, undecided=isinstance(v, Unk))
            return
        c.eq(x, r[0], vals, f"{label}: factors", at)
        c.eq(x, r[1], vecs, f"{label}: modes", at)
        for name, w in (("eigenvalue", vals), ("eigenvector", vecs)):
            q, _, _ = c.run(x, f"{label}: stored {name}", lambda: x.attr(P.ref, name))
            c.eq(x, q, w, f"{label}: stored {name}", at)

    ctx = [("default constraints, 2x3 terms", None, 2, 3, "kw", [(None, None), (2, False)]),
           ("PINNED, 3x2 terms, 10 factors", "PINNED", 3, 2, "pos", [(10, True), (None, None)]),
           ("CLAMPED, 2x2 terms", "CLAMPED", 2, 2, "kw", [(None, None), (1, None)]),
           ("named and listed edges mixed, 3x3 terms", MIXED, 3, 3, "kw", [(None, False), (6, None)]),
           ("listed edges, 2x4 terms", LISTS, 2, 4, "pos", [(3, None)]),
           ("1x4 terms", NAMES, 1, 4, "pos", [(None, None)])]
    if THOROUGH:
        ctx += [("named edges, 4x5 terms", NAMES, 4, 5, "kw", [(None, None), (18, False)]), ("default constraints, 10x10 terms", None, 10, 10, "kw", [(None, None)])]
    for label, cons, m, n, how, reqs in ctx:
        x = Ctx()
        try:
            P, _, _ = c.run(x, f"{label}: construction", lambda: plate(x, lam2(x), cons, m, n, "", how=how))
            for i, (k, silent) in enumerate(reqs):
                one(x, f"{label}, analysis {i + 1}", P, k, silent)
        except Skip:
            pass
    large(c, LARGE if THOROUGH else LARGE[1:3], lambda x, label, P: [one(x, f"{label}, {k or 'default'} factors", P, k, None) for k in (None, 12)])
    x = Ctx()
    label = "two plates, analysed in turn"
    try:
        Ps, _, _ = c.run(x, f"{label}: construction", lambda: [plate(x, lam2(x), NAMES, 2, 2, "", ("Nxx",)), plate(x, lam2(x, "'"), None, 2, 3, "'", ("Nyy", "Nxy"))])
        for i, j in enumerate((0, 1, 0)):
            one(x, f"{label}, {i + 1}", Ps[j], None, None)
    except Skip:
        pass
    return c
