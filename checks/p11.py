"""P11: superposition of load cases."""
from checks.str_ import *
from checks import plate as pl

STRAINS = ("epsilonx", "epsilony", "gammaxy", "epsilon1", "epsilon2", "gamma12")
STRESSES = ("sigmax", "sigmay", "tauxy", "sigma1", "sigma2", "tau12")


def cases(x):
    """load vectors: two general ones, a combination of them, single components, none"""
    s1 = [sym(f"{n}'") for n in LOADS]
    s2 = [sym(f"{n}''") for n in LOADS]
    k, l = sym("k"), sym("l")
    zero = [F.ZERO] * 6
    out = [("combination", [(k, s1), (l, s2)]), ("sum with another case", [(F.ONE, s1), (F.ONE, s2)]), ("opposite", [(F.const(-1), s1)])]
    units = [[s1[i] if i == j else F.ZERO for i in range(6)] for j in range(6)]
    out.insert(0, ("general loads from single loads", [(s1[i], u) for i, u in enumerate(units)]))
    out.append(("sum of single loads", [(F.ONE, u) for u in units]))
    out.append(("no loads", [(F.ZERO, s1)]))
    out.append(("one membrane and one bending load", [(F.ONE, units[1]), (k, units[5])]))
    out.append(("large multiple", [(F.const(10 ** 9), s1)]))
    return out, s1, s2, zero


def check():
    c = Check("P11", "the same laminate (plate) is analysed under several symbolic load cases in one program; mid-plane response, all strain and stress columns and the "
              "geometric matrix of a combination of cases must be the same combination of those of the cases, zero loads giving zero, and the stiffness matrix "
              "must be the same under all")
    c.min_obs = 500

    def respond(x, label, l, vals):
        s = strength(x, l, vals=dict(zip(LOADS, vals)))
        out = {}
        out["epsilon0"] = list(midplane(c, x, label, s))
        for m, cols in (("calculate_strain", STRAINS), ("calculate_stress", STRESSES)):
            t = table(c, x, label, s, m, cols)
            for k in cols:
                out[f"{m}: {k}"] = list(t[k])
        return out

    def lams():
        yield "2 plies, all distinct", lambda x: laminate(x, th("0", "1"), [ortho(x, "_0"), ortho(x, "_1")])
        yield "isotropic and orthotropic plies", lambda x: laminate(x, th("0", "1", "0"), [iso(x, "_0"), ortho(x, "_1"), iso(x, "_0")])
        yield "symmetric laminate of one material", lambda x: laminate(x, th("0", "1", "1", "0"), [ortho(x, "_0")] * 4, single=True)
        if THOROUGH:
            yield "4 plies, all distinct", lambda x: laminate(x, th(*"0123"), [ortho(x, f"_{i}") for i in range(4)])

    for name, build in lams():
        x = Ctx()
        at = member(x, STR, "epsilon0")
        try:
            l, _, _ = c.run(x, f"{name}: construction", lambda: build(x))
            cs_, _, _, _ = cases(x)
            memo = {}
            before = len(c.viol)

            def resp(v):
                k = tuple((F.fp(e, 0), F.fp(e, 1)) for e in v)
                if k not in memo:
                    memo[k], _, _ = c.run(x, f"{name}: response", lambda: respond(x, name, l, v))
                return memo[k]
            for what, parts in cs_:
                if what != cs_[0][0] and len(c.viol) > before:
                    break           # the response is not linear in the loads: the other cases only repeat it
                total = [sum((k * v[i] for k, v in parts), F.ZERO) for i in range(6)]
                got = resp(total)
                for q in got:
                    want = []
                    for i in range(len(got[q])):
                        w = F.ZERO
                        for k, v in parts:
                            e = resp(v)[q][i]
                            w = V.arith("+", w, V.arith("*", k, e))
                        want.append(w)
                    c.eq(x, got[q], want, f"{name}, {what}: {q}", at if q == "epsilon0" else member(x, STR, q.split(":")[0]))
                    if what == "no loads":
                        c.eq(x, got[q], [F.ZERO] * len(got[q]), f"{name}, no loads: {q} is zero", at)
        except Skip:
            pass
    # geometric matrix
    for label, cons, m, n in (("PINNED, 2x3 terms", "PINNED", 2, 3), ("mixed edges, 3x2 terms", pl.MIXED, 3, 2), ("CLAMPED, 2x2 terms", "CLAMPED", 2, 2)):
        x = Ctx()
        try:
            l, _, _ = c.run(x, label, lambda: pl.lam2(x))
            a, b = sym("a", "+"), sym("b", "+")
            cls = x.get(pl.PLATE)
            N = [[sym(f"{k}{t}") for k in LOADS[:3]] for t in ("'", "''")]
            k = sym("k")
            vs = {"first": N[0], "second": N[1], "combination": [p * k - q for p, q in zip(*N)], "none": [F.ZERO] * 3,
                  **{f"only {LOADS[i]}": [N[0][j] if i == j else F.ZERO for j in range(3)] for i in range(3)}}
            for method in ("calc_K_KG_D", "calc_K_KG_ABD"):
                at = member(x, pl.PLATE, method)
                r = {}
                for w, v in vs.items():
                    P, _, _ = c.run(x, f"{label}: {w}", lambda: x.call(cls, l.ref, a, b, constraints=pl.mk_constraints(x, cons), Nxx=v[0], Nyy=v[1], Nxy=v[2], m=num(m), n=num(n)))
                    P = pl.Plate(P, l, a, b, cons, v, m, n)
                    t = pl.matrices(c, x, f"{label}: {w}", P, method, at)
                    r[w] = [x.array(q) for q in t]
                    if not all(isinstance(q, np.ndarray) for q in r[w]):
                        c.ob(False, f"{label}, {method}: {w}", "matrices not followed", at, undecided=True)
                        raise Skip()
                for w in vs:
                    c.eq(x, r[w][0], r["first"][0], f"{label}, {method}, {w}: K does not depend on the loads", at)
                g = {w: q[1] for w, q in r.items()}
                c.eq(x, g["combination"], g["first"] * k - g["second"], f"{label}, {method}: KG of a combination", at)
                c.eq(x, g["none"], g["first"] * F.ZERO, f"{label}, {method}: KG without loads", at)
                c.eq(x, g["only Nxx"] + g["only Nyy"] + g["only Nxy"], g["first"], f"{label}, {method}: KG from single loads", at)
        except Skip:
            pass
    return c
