"""P31: isotropic and orthotropic materials are interchangeable in every analysis."""
from checks.p28 import *

PROPS31 = ("A", "B", "D", "ABD", "xiA", "xiD", "Q_layup", "T_layup", "z_position", "plies", "stacking")


def material(x, kind, tag, allow, name, how="kw"):
    """the same physical material, as an isotropic one or as an orthotropic one with equal directions"""
    e, g, h = (sym(f"{k}_{tag}", "+") for k in ("e", "g", "thickness"))
    v = x.bounded(sym(f"v_{tag}"), Q(-1, 2), Q(1, 2))
    al = {}
    if allow == "all":
        t, cc, s = (sym(f"{k}_{tag}", "0+") for k in ("t", "c", "s"))
        al = {"t": t, "c": cc, "s": s} if kind == "iso" else {"t1": t, "c1": cc, "t2": t, "c2": cc, "s": s}
    elif allow == "shear":
        al = {"s": sym(f"s_{tag}", "0+")}
    elif allow == "tension":
        t = sym(f"t_{tag}", "0+")
        al = {"t": t} if kind == "iso" else {"t1": t, "t2": t}
    if name:
        al["name"] = f"M{tag}"
    if kind == "iso":
        return x.call(x.get(ISO), e, v, g, h, **al)
    return x.call(x.get(MAT), e, e, v, g, h, **al)


def labels(v):
    """without the automatic names"""
    if isinstance(v, tuple) and v[0] == "frame":
        return ("frame", {k: q for k, q in v[1].items() if k not in ("name", "material")})
    return v


def check():
    c = Check("P31", "abstract interpretation of every analysis that takes plies, written twice: with isotropic materials and with orthotropic ones of equal directions, mixed within a laminate, shared or "
              "one per ply, with all, some or no allowables and with or without names; no path may raise and every result must be the same symbolic value")
    c.min_obs = 400
    allow = (lambda st, e: "Arpack" in repr(e))

    def program(kinds, allowables, name, shared):
        """label -> thunk over one fresh interpreter"""
        x = Ctx()
        o = {}

        def mats():
            if "m" not in o:
                o["m"] = [material(x, k, t, allowables, name) for k, t in zip(kinds, ("0" if shared else "0", "0" if shared else "1"))]
            return o["m"]

        def lam():
            if "l" not in o:
                m = mats()
                st = x.it.new_list([sym("th0"), sym("th1")])
                o["l"] = x.call(x.get(LAM), st, m[0] if shared else x.it.new_list(list(m)))
            return o["l"]

        def xil(both):
            d = {"xiD": x.it.new_list([sym(f"xd{i}") for i in range(4)]), "T": sym("T", "+")}
            if both:
                d["xiA"] = x.it.new_list([sym(f"xa{i}") for i in range(4)])
            return x.call(x.get(LAM), x.it.new_dict(d), mats()[0])

        def strength(**loads):
            return x.call(x.get(STR), lam(), **loads)

        def plate_(l, cons="PINNED", **kw):
            k = {} if cons is None else {"constraints": mk_constraints(x, cons) if isinstance(cons, dict) else cons}
            return x.call(x.get(PLATE), l, sym("a", "+"), sym("b", "+"), m=num(2), n=num(2), **k, **kw)
        all6 = {k: sym(k) for k in ("Nxx", "Nyy", "Nxy", "Mxx", "Myy", "Mxy")}
        obs = {}
        for i in (0, 1):
            obs[f"Q_0 of material {i}"] = lambda i=i: x.attr(mats()[i], "Q_0")
            obs[f"Invariants of material {i}"] = lambda i=i: x.meth(mats()[i], "Invariants")
            obs[f"thickness of material {i}"] = lambda i=i: x.attr(mats()[i], "thickness")
            for a in ("t1", "c1", "t2", "c2", "s"):
                obs[f"{a} of material {i}"] = lambda i=i, a=a: x.attr(mats()[i], a)
        for a in PROPS31:
            if a == "plies":
                continue
            obs[f"laminate.{a}"] = lambda a=a: x.attr(lam(), a)
        obs["lamination parameters laminate.A"] = lambda: x.attr(xil(True), "A")
        obs["lamination parameters laminate.D"] = lambda: x.attr(xil(True), "D")
        obs["bending parameters laminate.D"] = lambda: x.attr(xil(False), "D")
        obs["epsilon0"] = lambda: x.meth(strength(**all6), "epsilon0")
        obs["calculate_strain"] = lambda: x.meth(strength(**all6), "calculate_strain")
        obs["calculate_stress"] = lambda: x.meth(strength(Nxx=sym("Nxx"), Mxy=sym("Mxy")), "calculate_stress")
        obs["calculate_maxstressmargin"] = lambda: x.meth(strength(Nxx=sym("Nxx"), Mxy=sym("Mxy")), "calculate_maxstressmargin")
        obs["plate calc_K_KG_D"] = lambda: x.meth(plate_(lam(), **{k: sym(k) for k in ("Nxx", "Nyy", "Nxy")}), "calc_K_KG_D")
        obs["plate calc_K_KG_ABD"] = lambda: x.meth(plate_(lam(), "CLAMPED", Nxx=sym("Nxx")), "calc_K_KG_ABD")
        obs["plate of lamination parameters calc_K_KG_D"] = lambda: x.meth(plate_(xil(False), Nxy=sym("Nxy")), "calc_K_KG_D")
        obs["buckling_analysis"] = lambda: x.meth(plate_(lam(), LISTS, Nxx=sym("Nxx")), "buckling_analysis", num_eigvalues=num(2))
        obs["plot_eigenvalue"] = lambda: x.meth(plate_(lam(), Nxx=sym("Nxx")), "plot_eigenvalue", ngridx=num(3), ngridy=num(2)) and None
        return x, obs

    PROG = ("laminate", "strength", "plate")
    configs = [(("iso", "iso"), "all", True, True), (("iso", "iso"), "all", True, False), (("iso", "ortho"), "all", True, False), (("ortho", "iso"), "all", False, False),
               (("iso", "iso"), "none", True, False), (("iso", "iso"), "none", False, True), (("ortho", "ortho"), "none", False, False), (("iso", "ortho"), "none", False, False),
               (("iso", "iso"), "shear", True, False), (("iso", "ortho"), "tension", True, False), (("ortho", "iso"), "tension", False, False)]
    ref = {}

    def results(label, kinds, al, name, shared, only=None):
        x, obs = program(kinds, al, name, shared)
        out = {}
        for k, f in obs.items():
            if only is not None and k not in only:
                continue
            st = None
            try:
                v, _, _ = c.run(x, f"{label}: {k}", lambda: (snap(x, f()),), allowed=allow)
                v = v[0] if isinstance(v, tuple) else v
                if not name:
                    v = nameless(v)
                out[k] = v
            except Skip:
                pass
        return x, out

    for kinds, al, name, shared in configs:
        rk = (al, name, shared)
        if rk not in ref:
            ref[rk] = results(f"orthotropic, allowables: {al}, {'named' if name else 'unnamed'}, {'one material' if shared else 'one per ply'}", ("ortho", "ortho"), al, name, shared)[1]
        label = f"{' and '.join(kinds)}, allowables: {al}, {'named' if name else 'unnamed'}, {'one material' if shared else 'one per ply'}"
        x, got = results(label, kinds, al, name, shared)
        for k, want in ref[rk].items():
            if k in got:
                d = differ(x, got[k], want)
                c.ob(not d, f"{label}: {k}", "; ".join(d[:2]), place(x, k), undecided=bool(d) and all("undecided" in q for q in d))
    return c


def nameless(v):
    """results without automatic names"""
    if isinstance(v, tuple) and v and v[0] == "frame":
        return ("frame", {k: q for k, q in v[1].items() if not all(isinstance(t, (str, V.StrV)) and "ply_" in repr(t) for t in (q if isinstance(q, list) else [q]))})
    return v


def place(x, k):
    if k.startswith(("Q_0", "Invariants", "thickness")) or " of material" in k:
        return member(x, ISO, k.split()[0])
    if "laminate." in k:
        return member(x, LAM, k.rpartition(".")[2])
    if "calculate" in k or k == "epsilon0":
        return member(x, STR, k)
    return member(x, PLATE, k.split()[-1])
