"""P19: edge conditions suppress exactly the functions they forbid."""
from checks.plate import *
from sa.values import Gitem
from itertools import product as iproduct

DOFS = ("TX", "TY", "TZ", "RX", "RY", "RZ")
WORDS = ("free", "PINNED", "simply_supported", "Fixed", "clampeD", "FREE", "pinned", "Simply_Supported", "fixed", "CLAMPED")


class Edge:
    """one edge of the analysed program; has[dof] is the condition under which it fixes that degree of freedom"""

    def __init__(self, value, has):
        self.value, self.has = value, has


def fixed(x, v):
    d = dofs(v)
    return Edge(v if isinstance(v, str) else x.it.new_list(list(v)), {q: q in d for q in DOFS})


def listed(x, e, order=DOFS, only=DOFS):
    """a list holding any subset of the degrees of freedom"""
    g = {q: G.pred(f"{q} at {e}") for q in only}
    return Edge(x.it.new_list([Gitem(g[q], q) for q in order if q in only]), {q: g.get(q, False) for q in DOFS})


def choice(x, e, words, with_list=True):
    """any of the names, or a list"""
    alts, rest = [], x.it.st.pc
    has = {q: False for q in DOFS}
    opts = [fixed(x, w) for w in words] + ([listed(x, e, DOFS[::-1])] if with_list else [])
    left = True
    for k, o in enumerate(opts):
        g = left if k == len(opts) - 1 else G.AND(left, G.pred(f"{e} is choice {k}"))
        if k < len(opts) - 1:
            left = G.AND(left, G.NOT(G.pred(f"{e} is choice {k}")))
        alts.append((g, o.value))
        for q in DOFS:
            has[q] = G.OR(has[q], G.AND(g, o.has[q]))
    return Edge(mk_phi(alts), has)


def orders(field, first, last, count):
    """the retained function numbers, each a guarded choice"""
    t, r = FIELD[field]
    conds = [first.has[t], first.has[r], last.has[t], last.has[r]]
    rows = []
    for bits in iproduct((False, True), repeat=4):
        g = True
        for b, c in zip(bits, conds):
            g = G.AND(g, c if b else G.NOT(c) if c is not True and c is not False else not c)
        if g is False:
            continue
        gone = {i for i, b in enumerate(bits) if b}
        rows.append((g, [i for i in range(count + 4) if i not in gone][:count]))
    return [mk_phi([(g, num(r[k])) for g, r in rows]) for k in range(count)]


def by_choice(fn, *vals):
    """fn of the choices, as a guarded choice"""
    def go(i, g, got):
        if i == len(vals):
            return [(g, fn(*got))]
        out = []
        for h, v in (vals[i].alts if isinstance(vals[i], Phi) else ((True, vals[i]),)):
            gh = G.AND(g, h)
            if gh is not False:
                out += go(i + 1, gh, got + [M.const_int(v)])
        return out
    return mk_phi(go(0, True, []))


def check_matrices(c, x, label, P, E, m, n, method, v):
    """the matrices are those of the retained functions"""
    at = member(x, PLATE, method)
    observe_stiffness(c, x, label, P)
    K = x.array(x.items(v)[0])
    fs = "w" if method == "calc_K_KG_D" else "uvw"
    S = np.full((6, 6), F.ZERO, dtype=object)
    S[3:, 3:] = P.D
    S = S if fs == "w" else P.ABD
    rows = [(f, i, j) for f in fs for i in orders(f, E["x0"], E["xa"], m) for j in orders(f, E["y0"], E["yb"], n)]
    want = np.empty((len(rows), len(rows)), dtype=object)
    for r, (f, a, b) in enumerate(rows):
        for s, (g, d, e) in enumerate(rows):
            want[r, s] = by_choice(lambda a, b, d, e: energy(P, S, f, g, (a, b), (d, e)), a, b, d, e)
    c.eq(x, K, want, f"{label}: stiffness matrix of the retained functions", at)


def check():
    c = Check("P19", "the membership of every degree of freedom in every edge (and the name given to every edge) is symbolic; the function pairs each field "
              "retains must be, under every truth assignment, the lowest m x n that the conditions of that field at those edges allow, and the rows of "
              "the stiffness matrices must be those of these functions")
    c.min_obs = 150
    c.assumptions.append("edge names are checked in the spellings " + ", ".join(WORDS))

    def go(label, mk, m, n, method="calc_K_KG_D", mats=False, instead=None):
        """instead: the smaller contexts which together take the place of this one where its matrices have too many cases"""
        x = Ctx()
        und = len(c.undecided)
        at = member(x, PLATE, "_compute_constraints")
        try:
            def build():
                E = mk(x)
                lam = lam2(x)
                cons = x.it.new_dict({e: E[e].value for e in EDGES}) if "all" not in E else E["all"]
                a, b = sym("a", "+"), sym("b", "+")
                kw = {} if cons is None else {"constraints": cons}
                N = sym("Nxx")
                return E, Plate(x.call(x.get(PLATE), lam.ref, a, b, m=num(m), n=num(n), Nxx=N, **kw), lam, a, b, None, [N, F.ZERO, F.ZERO], m, n)
            (E, P), _, _ = c.run(x, f"{label}: construction", build)
            for r in range(2 if m * n <= 2 else 1):
                mats_v, _, _ = c.run(x, f"{label}: {method}", lambda: x.meth(P.ref, method))
                for f in "uvw":
                    v, _, _ = c.run(x, f"{label}: retained functions of {f}", lambda: x.attr(P.ref, f"s{f}_idx"))
                    xs, ys = orders(f, E["x0"], E["xa"], m), orders(f, E["y0"], E["yb"], n)
                    c.eq(x, v, [(i, j) for i in xs for j in ys], f"{label}: retained functions of {f}, read {r + 1}", at)
            if mats:
                check_matrices(c, x, label, P, E, m, n, method, mats_v)
        except Skip:
            if instead and len(c.undecided) > und:
                before, c.obs = c.undecided[:und], c.obs - (len(c.undecided) - und)
                c.undecided[:] = before
                for args in instead:
                    go(*args)
        c.use(x, label)

    def lists(only):
        return lambda x: {e: listed(x, e, only=only) for e in EDGES}

    def some(sy, rest):
        return lambda x: {e: listed(x, e) if e in sy else fixed(x, rest[e]) for e in EDGES}

    def names(sy, rest):
        return lambda x: {e: choice(x, e, WORDS) if e in sy else fixed(x, rest[e]) for e in EDGES}

    def preset(p):
        def f(x):
            E = {e: fixed(x, "clamped" if p == "CLAMPED" else "pinned") for e in EDGES}
            E["all"] = p
            return E
        return f
    go("any subset of degrees of freedom at every edge, 1x1 term", lists(DOFS), 1, 1, mats=True)
    go("any subset of degrees of freedom at every edge, 1x1 term, full analysis", lists(("TX", "RX", "TZ", "RZ")), 1, 1, "calc_K_KG_ABD",
       instead=[(f"any subset of {t} and {r} at every edge, 1x1 term, full analysis", lists((t, r)), 1, 1, "calc_K_KG_ABD") for t, r in FIELD.values()])
    go("any subset at the x edges, 1x1 term, full analysis", some(("x0", "xa"), {"y0": "free", "yb": ["TY", "RZ"]}), 1, 1, "calc_K_KG_ABD", mats=True)
    go("any subset at the y edges, 1x1 term, full analysis", some(("y0", "yb"), {"x0": ["RX", "TZ"], "xa": "clamped"}), 1, 1, "calc_K_KG_ABD", mats=True)
    go("any name or subset at every edge, 1x1 term", lambda x: {e: choice(x, e, WORDS) for e in EDGES}, 1, 1)
    for m in (2, 3, 5) if not THOROUGH else (2, 3, 4, 5, 6, 8):
        go(f"any subset at the x edges, {m}x1 terms", some(("x0", "xa"), {"y0": "free", "yb": ["TY", "RZ"]}), m, 1)
        go(f"any subset at the y edges, 1x{m} terms", some(("y0", "yb"), {"x0": ["RX", "TZ"], "xa": "clamped"}), 1, m)
    go("any name at the x0 and yb edges, 2x2 terms", names(("x0", "yb"), {"xa": ["TX", "RY"], "y0": "CLAMPED"}), 2, 2)
    go("any subset at x0 and y0, 2x2 terms", some(("x0", "y0"), {"xa": ["TX", "RY"], "yb": "CLAMPED"}), 2, 2)
    go("any subset at xa and yb, 2x3 terms", some(("xa", "yb"), {"x0": ["RZ", "TZ"], "y0": "pinned"}), 2, 3)
    for p in (None, "PINNED", "CLAMPED"):
        for m, n in ((1, 1), (2, 4), (5, 2), (6, 7)) if p else ((3, 2), (2, 1)):
            go(f"preset {p}, {m}x{n} terms", preset(p), m, n)
    return c
