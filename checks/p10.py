"""P10: margins of safety of the maximum stress criterion."""
from checks.str_ import *
from checks import str_

MODES = ("margin_t1", "margin_c1", "margin_t2", "margin_c2", "margin_s")


def positive_allowables(plies):
    for p in plies:
        G.declare_positive(p.t1, p.c1, p.t2, p.c2, p.s)


def margin(allow, stress, sign):
    """allowable over the stress component in its own sense, minus one; infinite when there is none"""
    def one(v):
        d = v * sign
        pos = G.gt0(d)
        return mk_phi([(pos, allow * F.inv(d) - F.ONE), (G.NOT(pos), V.INF)]) if pos is not False else V.INF
    return V.lift(one, stress)


def margins(ply, s1, s2, t12):
    out = [margin(ply.t1, s1, 1), margin(ply.c1, s1, -1), margin(ply.t2, s2, 1), margin(ply.c2, s2, -1)]

    def shear(v):
        z = G.eq0(v)
        if z is True:
            return V.INF
        neg = G.lt0(v)
        k = ply.s * F.inv(v)
        return mk_phi([(z, V.INF), (G.AND(neg, G.NOT(z)), -k - F.ONE), (G.AND(G.NOT(neg), G.NOT(z)), k - F.ONE)])
    return out + [V.lift(shear, t12)]


def order_axioms(ms):
    """total order of the finite values the margins can take (facts about real numbers)"""
    u = next((v for m in ms for _, v in (m.alts if isinstance(m, Phi) else ((True, m),)) if isinstance(v, Unk)), None)
    if u is not None:
        raise Limit(f"unknown margin: {u.reason}")
    ax = True
    vals = [[v for _, v in (m.alts if isinstance(m, Phi) else ((True, m),)) if v is not V.INF and v != V.INF] for m in ms]
    groups = [vals[0] + vals[1], vals[2] + vals[3], vals[4]]
    for a in groups[0]:
        for b in groups[1]:
            for d in groups[2]:
                for p, q, r in ((a, b, d), (a, d, b), (b, a, d), (b, d, a), (d, a, b), (d, b, a)):
                    ax = G.AND(ax, G.NOT(G.AND(G.le0(p - q), G.le0(q - r), G.lt0(r - p))),
                               G.NOT(G.AND(G.lt0(p - q), G.le0(q - r), G.le0(r - p))),
                               G.NOT(G.AND(G.le0(p - q), G.lt0(q - r), G.le0(r - p))))
    return ax


def zero(loads, t0=0):
    return lambda x: [strength(x, laminate(x, [t0], [ortho(x, "_z")]), "", loads)]


ZERO = [("one ply at 0, axial load only", zero(("Nxx",))), ("one ply at 0, shear only", zero(("Nxy",))), ("no loads", zero(())),
        ("one ply at 90, transverse load only", zero(("Nxx",), 90))]


def check():
    c = Check("P10", "algebraic value flow with sign-guarded alternatives from the stress table and the allowables to the margin table: every margin must be "
              "allowable / stress - 1 for a stress of its own sense and infinite otherwise (shear: by absolute value), rows labelled like the "
              "stress table; the critical column must name a mode whose margin no other mode undercuts, on every combination of signs and "
              "orderings")
    c.min_obs = 250
    c.assumptions.append("allowables are positive (a zero allowable with zero stress is 0/0)")

    c.assumptions.append("a stress component that is not identically zero is not zero (the contexts with vanishing components cover infinite margins)")

    def use(x, label, ss):
        at = member(x, STR, "calculate_maxstressmargin")
        for r, i in enumerate(list(range(len(ss))) + [0]):
            s = ss[i]
            positive_allowables(s.lam.plies)
            st = table(c, x, label, s, "calculate_stress", ("sigma1", "sigma2", "tau12"))
            cols = table(c, x, label, s, "calculate_maxstressmargin", ("ply", "position", "angle", "critical") + MODES)
            lab = f"{label}, analysis {i + 1}, read {r + 1}"
            cmp_cols(c, x, cols, id_columns(s), lab, at)
            n = 2 * s.lam.n
            if any(len(st[k]) != n for k in ("sigma1", "sigma2", "tau12")) or any(len(cols[k]) != n for k in MODES + ("critical",)):
                c.ob(False, f"{lab}: rows", f"{n} rows expected, got {[len(cols[k]) for k in MODES + ('critical',)]}", at)
                continue
            saved = x.it.st.pc
            for q in range(n):
                x.it.st.pc = saved
                for k in ("sigma1", "sigma2", "tau12"):
                    v = st[k][q]
                    if isinstance(v, Form) and G.eq0(v) is not True:
                        x.assume(G.NOT(G.eq0(v)))
                        c.count("nonzero stress components")
                    else:
                        c.count("vanishing stress components")
                ms = margins(s.lam.plies[q // 2], st["sigma1"][q], st["sigma2"][q], st["tau12"][q])
                for k, w in zip(MODES, ms):
                    c.eq(x, cols[k][q], w, f"{lab}: {k}, row {q}", at)
                crit(c, x, cols["critical"][q], ms, f"{lab}: critical, row {q}", at)
            x.it.st.pc = saved
    each(c, str_.contexts(THOROUGH) + ZERO, use)
    return c


def crit(c, x, got, ms, key, at):
    alts = got.alts if isinstance(got, Phi) else ((True, got),)
    ax = order_axioms(ms)
    base = G.AND(x.it.st.pc, ax)
    for g, name in alts:
        gg = G.AND(base, g)
        if gg is False:
            continue
        if isinstance(name, Unk):
            c.ob(False, key, show(name), at, undecided=True)
            continue
        if name not in MODES:
            c.ob(False, key, f"names {show(name)}", at)
            continue
        m = ms[MODES.index(name)]
        for k, w in zip(MODES, ms):
            if k == name:
                continue
            b = V.clift(lambda p, q: V.compare("<", p, q), w, m)
            if isinstance(b, Unk):
                c.ob(False, key, show(b), at, undecided=True)
                continue
            bad = G.AND(gg, b)
            c.ob(bad is False, f"{key}: {name} against {k}", "" if bad is False else f"{name} is named although {k} is lower, when {G.show(bad)[:400]}", at)
