"""P32: equality of materials and laminates."""
import ast
from checks.lam import *
from checks.p27 import SPEC

KIND = {"OrthotropicMaterial": MAT, "IsotropicMaterial": ISO}
HASH = ("xiA", "xiB", "xiD")


def all_equal(pairs):
    g = True
    for a, b in pairs:
        g = G.AND(g, G.eq0(num(a) - num(b)))
    return g


def check():
    c = Check("P32", "truth of == and != computed as a guard over the symbolic definitions of both objects; it must be equivalent to the conjunction of equalities of all defining data "
              "(constants, thicknesses, allowables; plies and angles; lamination parameters, thickness and material), in both directions, on fresh and on analysed objects")
    c.min_obs = 150

    def decide(x, label, l, r, want, at):
        """== is `want` (a guard), != its negation, both ways round"""
        for a, b, how in ((l, r, "=="), (r, l, "== swapped")):
            for op in ("==", "!="):
                lab = f"{label}: {how.replace('==', op)}"
                try:
                    v, _, _ = c.run(x, label, lambda: M.cmp(x.it, ast.Eq() if op == "==" else ast.NotEq(), a, b))
                except Skip:
                    return
                t = x.it.truth(v)
                if isinstance(t, Unk):
                    c.ob(False, lab, t.reason, at, undecided=True)
                    continue
                w = want if op == "==" else G.NOT(want)
                pc = x.it.st.pc
                d1, d2 = G.AND(pc, G.AND(t, G.NOT(w))), G.AND(pc, G.AND(w, G.NOT(t)))
                c.ob(d1 is False and d2 is False, lab, "" if d1 is False and d2 is False else
                     f"{'true' if d1 is not False else 'false'} although definitions {'differ' if (d1 is not False) == (op == '==') else 'agree'}, e.g. when {G.show(d1 if d1 is not False else d2)[:500]}", at)

    def material(x, cname, tag, over=None, name=None):
        path, spec = SPEC[cname]
        par = {}
        for k, rng in spec.items():
            if over and k in over:
                par[k] = over[k]
                continue
            par[k] = sym(f"{k}{tag}", "+" if rng[0] == 0 else None)
            if rng[0] != 0:
                x.bounded(par[k], *rng[:2])
        r = x.call(x.get(path), *par.values(), **({"name": name} if name else {}))
        return r, par

    for cname in KIND:
        at = None
        other = [k for k in KIND if k != cname][0]
        x = Ctx()
        at = member(x, KIND[cname], "__eq__")
        try:
            (a, pa), _, _ = c.run(x, cname, lambda: material(x, cname, "'"))
            (b, pb), _, _ = c.run(x, cname, lambda: material(x, cname, "''", name="other name"))
            decide(x, f"{cname}, all constants unrelated", a, b, all_equal(zip(pa.values(), pb.values())), at)
            decide(x, f"{cname}, the same object", a, a, True, at)
            (d, pd_), _, _ = c.run(x, cname, lambda: material(x, cname, "'", name="a name"))
            decide(x, f"{cname}, equal constants, names differ", a, d, True, at)
            for k in pa:
                (e, pe), _, _ = c.run(x, cname, lambda: material(x, cname, "'", {k: pb[k]}))
                decide(x, f"{cname}, only {k} may differ", a, e, G.eq0(pa[k] - pb[k]), at)
                f = pa[k] + F.const(Q(1, 10 ** 6)) if k not in ("v12", "v") else pa[k] * Q(1, 2)
                if k in ("v12", "v"):
                    x.bounded(f, *SPEC[cname][1][k][:2])
                (e, pe), _, _ = c.run(x, cname, lambda: material(x, cname, "'", {k: f}))
                decide(x, f"{cname}, {k} differs slightly", a, e, G.eq0(pa[k] - f), at)
            # two constants that compensate each other
            ks = list(pa)
            for i in range(len(ks) - 1):
                (e, pe), _, _ = c.run(x, cname, lambda: material(x, cname, "'", {ks[i]: pb[ks[i]], ks[i + 1]: pb[ks[i + 1]]}))
                decide(x, f"{cname}, only {ks[i]} and {ks[i + 1]} may differ", a, e, all_equal([(pa[ks[i]], pb[ks[i]]), (pa[ks[i + 1]], pb[ks[i + 1]])]), at)
            # analysed objects
            c.run(x, cname, lambda: [x.attr(a, "Q_0"), x.attr(a, "name"), x.meth(b, "Invariants"), x.attr(b, "Q_0")])
            decide(x, f"{cname}, after use", a, b, all_equal(zip(pa.values(), pb.values())), at)
            decide(x, f"{cname}, one used", a, d, True, at)
            if other:
                (o, _), _, _ = c.run(x, cname, lambda: material(x, other, "o"))
                decide(x, f"{cname} and {other}", a, o, False, at)
        except Skip:
            pass
    # laminates by angles
    at = member(Ctx(), LAM, "__eq__")

    def lam(x, angles, mats, form="list"):
        st = [num(t) for t in angles]
        st = x.it.new_list(st) if form == "list" else tuple(st) if form == "tuple" else x.it.new_arr(arr(st))
        return x.call(x.get(LAM), st, mats if isinstance(mats, Ref) else x.it.new_list(list(mats)))

    for n in (1, 2, 3):
        for f1, f2 in (("list", "list"), ("tuple", "list"), ("array", "list"), ("array", "tuple")):
            if n != 2 and f1 != "list":
                continue
            x = Ctx()
            label = f"laminates of {n} plies, {f1} and {f2}"
            try:
                def build():
                    ma = [material(x, "OrthotropicMaterial", f"_{i}'") for i in range(n)]
                    mb = [material(x, "OrthotropicMaterial", f"_{i}''") for i in range(n)]
                    return ma, mb, lam(x, [sym(f"th{i}'") for i in range(n)], [m[0] for m in ma], f1), lam(x, [sym(f"th{i}''") for i in range(n)], [m[0] for m in mb], f2)
                (ma, mb, a, b), _, _ = c.run(x, label, build)
                ang = [(sym(f"th{i}'"), sym(f"th{i}''")) for i in range(n)]
                if n <= 2:
                    # every constant in play
                    want = all_equal(ang + [q for p, r in zip(ma, mb) for q in zip(p[1].values(), r[1].values())])
                    decide(x, label + ", unrelated", a, b, want, at)
                # same plies, angles unrelated; angles equal, one ply other
                (d, e, f, g, h), _, _ = c.run(x, label, lambda: [
                    lam(x, [q[1] for q in ang], [m[0] for m in ma], f2), lam(x, [q[0] for q in ang], [m[0] for m in ma], f2),
                    lam(x, [q[0] for q in ang][:-1] + [sym("last")], [m[0] for m in ma], f2),
                    lam(x, [q[0] for q in ang], [m[0] for m in ma[:-1]] + [mb[-1][0]], f2),
                    lam(x, [q[0] for q in ang] + [sym("more")], [m[0] for m in ma] + [mb[0][0]], f2)])
                decide(x, label + ", same plies, angles unrelated", a, d, all_equal(ang), at)
                decide(x, label + ", same definition", a, e, True, at)
                decide(x, label + ", last angle may differ", a, f, G.eq0(ang[-1][0] - sym("last")), at)
                decide(x, label + ", last ply may differ", a, g, all_equal(zip(ma[-1][1].values(), mb[-1][1].values())), at)
                decide(x, label + ", one ply more", a, h, False, at)
                if n == 3:
                    sw, _, _ = c.run(x, label, lambda: lam(x, [ang[1][0], ang[0][0], ang[2][0]], [ma[1][0], ma[0][0], ma[2][0]]))
                    decide(x, label + ", two plies exchanged", a, sw,
                           G.AND(G.eq0(ang[0][0] - ang[1][0]), all_equal(zip(ma[0][1].values(), ma[1][1].values()))), at)
                c.run(x, label, lambda: [x.attr(a, "ABD"), x.attr(e, "xiA"), x.attr(e, "z_position")])
                decide(x, label + ", same definition, both used", a, e, True, at)
                decide(x, label + ", angles unrelated, one used", a, d, all_equal(ang), at)
            except Skip:
                pass
    x = Ctx()
    label = "one material for all plies"
    try:
        def build():
            m, p = material(x, "OrthotropicMaterial", "_m")
            q, r = material(x, "IsotropicMaterial", "_q")
            ang = [sym("th0"), sym("th1")]
            xi = x.it.new_dict({"xiD": x.it.new_list([sym(f"xi{i}") for i in range(4)]), "T": sym("T", "+")})
            return [lam(x, ang, m), lam(x, ang, [m, m]), lam(x, ang, q), lam(x, ang, [m, q]), x.call(x.get(LAM), xi, m)]
        (a, b, d, e, f), _, _ = c.run(x, label, build)
        decide(x, label + " or a list of it", a, b, True, at)
        decide(x, label + ", kinds of plies differ", a, d, False, at)
        decide(x, label + ", kind of one ply differs", e, a, False, at)
        decide(x, label + ", kind of one ply differs from isotropic", e, d, False, at)
        decide(x, "angles and lamination parameters", a, f, False, at)
    except Skip:
        pass
    # laminates by lamination parameters
    for keys in (("xiD", "T"), ("xiA", "xiD", "T"), ("xiA", "xiB", "xiD", "T")):
        for f1, f2 in (("list", "list"), ("tuple", "array")):
            x = Ctx()
            label = f"lamination parameters {', '.join(keys)}, {f1} and {f2}"
            try:
                def par(tag):
                    return {k: [sym(f"{k}{i}{tag}") for i in range(4)] if k != "T" else sym(f"T{tag}", "+") for k in keys}

                def mk(p, m, form, drop=None, rev=False):
                    d = {}
                    for k in (list(p)[::-1] if rev else p):
                        if k != drop:
                            v = p[k]
                            d[k] = v if k == "T" else x.it.new_list(v) if form == "list" else tuple(v) if form == "tuple" else x.it.new_arr(arr(v))
                    return x.call(x.get(LAM), x.it.new_dict(d), m)

                def build():
                    (m, pm), (n, pn) = material(x, "OrthotropicMaterial", "_m"), material(x, "OrthotropicMaterial", "_n")
                    q, _ = material(x, "IsotropicMaterial", "_q")
                    p, r = par("'"), par("''")
                    return pm, pn, p, r, [mk(p, m, f1), mk(r, n, f2), mk(p, m, f2, rev=True), mk(r, m, f2), mk(p, n, f2), mk(p, q, f2)], \
                        [mk({**p, k: r[k]}, m, f2) for k in keys], [mk(p, m, f2, drop=k) for k in keys if k in ("xiA", "xiB")], \
                        [mk({**p, k: (p[k] if k == "T" else p[k][:-1] + [r[k][-1]])}, m, f2) for k in keys]
                (pm, pn, p, r, ls, single, dropped, last), _, _ = c.run(x, label, build)
                flat = lambda d: [v for k in keys for v in (d[k] if k != "T" else [d[k]])]      # noqa: E731
                pairs = list(zip(flat(p), flat(r)))
                decide(x, label + ", unrelated", ls[0], ls[1], all_equal(pairs + list(zip(pm.values(), pn.values()))), at)
                decide(x, label + ", same definition", ls[0], ls[2], True, at)
                decide(x, label + ", same material", ls[0], ls[3], all_equal(pairs), at)
                decide(x, label + ", same parameters", ls[0], ls[4], all_equal(zip(pm.values(), pn.values())), at)
                decide(x, label + ", other kind of material", ls[0], ls[5], False, at)
                for k, s in zip(keys, single):
                    decide(x, f"{label}, only {k} may differ", ls[0], s, all_equal(zip(p[k], r[k]) if k != "T" else [(p[k], r[k])]), at)
                for k, s in zip([k for k in keys if k in ("xiA", "xiB")], dropped):
                    decide(x, f"{label}, {k} not given in one", ls[0], s, False, at)
                for k, s in zip(keys, last):
                    if k != "T":
                        decide(x, f"{label}, last value of {k} may differ", ls[0], s, G.eq0(p[k][-1] - r[k][-1]), at)
                c.run(x, label, lambda: [x.attr(ls[0], "D"), x.attr(ls[2], "xiD")])
                decide(x, label + ", same definition, used", ls[0], ls[2], True, at)
            except Skip:
                pass
    return c
