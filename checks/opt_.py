"""Optimisation contexts: panels, loads in a known order, and the problem handed to the optimiser."""
from checks.plate import *
from checks.p20 import EIG
from itertools import product as iproduct

MAXB = "composipy.optimize:maximize_buckling_load"
MINW = "composipy.optimize:minimize_panel_weight"
PAR = ("a", "b", "T", "E1", "E2", "v12", "G12")
LOADS = ("Nxx", "Nyy", "Nxy")
MINIMIZE = "scipy.optimize.minimize"


def arrangement(N):
    """the sign-determining forms of three loads: each load, each pair, each load against one"""
    one = F.ONE
    fs = [(f"{k}", n) for k, n in zip(LOADS, N)]
    for i in range(3):
        for j in range(i):
            fs += [(f"{LOADS[i]}-{LOADS[j]}", N[i] - N[j]), (f"{LOADS[i]}+{LOADS[j]}", N[i] + N[j])]
    for k, n in zip(LOADS, N):
        fs += [(f"{k}-1", n - one), (f"{k}+1", n + one)]
    return fs


def cells():
    """one representative of every cell of the arrangement (loads not all zero)"""
    pts = [Q(x, 2) for x in (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5)]
    small = [Q(x, 4) for x in (-3, -2, -1, 1, 2, 3)]
    vals = sorted(set(pts + small))
    seen = {}
    for p in iproduct(vals, repeat=3):
        if not any(p):
            continue
        k = []
        fs = list(p) + [s for i in range(3) for j in range(i) for s in (p[i] - p[j], p[i] + p[j])] + [s for q in p for s in (q - 1, q + 1)]
        k = tuple((s > 0) - (s < 0) for s in fs)
        seen.setdefault(k, p)
    return seen


def assume_cell(x, N, signs):
    for (_, f), s in zip(arrangement(N), signs):
        x.assume(G.eq0(f) if s == 0 else G.AND(G.lt0(f if s < 0 else f * -1), G.NOT(G.eq0(f))))


def cell_text(p):
    return "loads like (" + ", ".join(str(q) for q in p) + ")"


def normalised(N, p):
    """loads over the largest one in absolute value, given a representative of their order"""
    k = max(range(3), key=lambda i: abs(p[i]))
    mx = N[k] if p[k] > 0 else N[k] * -1
    return [n * F.inv(mx) for n in N], mx


def panel_par(x, tag=""):
    d = {k: sym(k + tag, "+") for k in PAR if k != "v12"}
    d["v12"] = x.bounded(sym("v12" + tag), Q(-1, 2), Q(1, 2))
    return d


def panel(x, par, T, xi1, xi3, N, cons, m, n):
    """the panel the optimiser should analyse, built with the public classes"""
    mat = x.call(x.get(MAT), par["E1"], par["E2"], par["v12"], par["G12"], F.ONE)
    st = x.it.new_dict({"xiD": x.it.new_list([xi1, F.ZERO, xi3, F.ZERO]), "T": T})
    lam = x.call(x.get(LAM), st, mat)
    kw = {} if cons is None else {"constraints": mk_constraints(x, cons)}
    return x.call(x.get(PLATE), lam, par["a"], par["b"], Nxx=N[0], Nyy=N[1], Nxy=N[2], m=num(m), n=num(n), **kw)


def the_minimize(c, x, label, n0, result, at):
    es = [e for e in x.it.events[n0:] if e.name == MINIMIZE]
    if len(es) != 1:
        c.ob(False, f"{label}: the optimiser is called once", f"{len(es)} calls", at, undecided=len(es) > 1)
        raise Skip()
    e = es[0]
    c.ob(e.pc is not False and G.implies(x.it.st.pc, e.pc), f"{label}: the optimiser is always called", G.show(e.pc)[:300], f"{e.where} in {e.fn}")
    return e


def mesh(x, y, want):
    """(sign s with got == s * want) or None"""
    if not isinstance(y, np.ndarray) or y.shape != want.shape:
        return None
    if not x.compare(y, want):
        return 1
    neg = arr([[q * -1 for q in r] for r in want])
    return -1 if not x.compare(y, neg) else None


def factor_of(c, x, label, thunk, K, KG, at, wrong):
    """evaluate a callable that analyses a panel; returns (value when the solver succeeds, lowest factor)"""
    n0 = len(x.it.events)
    v, _, _ = c.run(x, f"{label}: evaluation", thunk)
    es = [e for e in x.it.events[n0:] if e.name in EIG]
    if len(es) != 1:
        c.ob(False, f"{label}: one panel is analysed", f"{len(es)} eigenvalue analyses", at, undecided=len(es) > 1)
        raise Skip()
    e = es[0]
    site = f"{e.where} in {e.fn}"
    a, m = e.args
    s1 = mesh(x, a, KG)
    s2 = mesh(x, m, K) if m is not None else None
    c.ob(s1 is not None, f"{label}: loads, dimensions and edges of the panel analysed", diff_text(x, a, KG), at)
    c.ob(s2 == 1, f"{label}: stiffness of the panel analysed", diff_text(x, m, K), at)
    if s1 is None or s2 != 1:
        raise Skip()
    fac = lowest(c, label, e, s1)
    fail = G.pred("ARPACK fails", e.state.k)
    ok, bad = [], []
    for g, q in (v.alts if isinstance(v, Phi) else ((True, v),)):
        if G.AND(x.it.st.pc, g, G.NOT(fail)) is not False:
            ok.append(q)
        if G.AND(x.it.st.pc, g, fail) is not False:
            bad.append(q)
    for q in bad:
        c.ob(not isinstance(q, Form) or not below(x, wrong(q)), f"{label}: a panel whose analysis fails is worthless", f"value {show(q)} when the eigensolver fails", at)
    return ok, fac


def lowest(c, label, e, s1):
    """the lowest factor of the pencil (s1 * KG, K), as read from the solver's answers"""
    which = e.kwargs.get("which")
    k = e.kwargs.get("k")
    kv = k.const() if isinstance(k, Form) else None
    if (which, s1) not in (("SA", 1), ("LA", -1)) or kv is None or e.kwargs.get("sigma") is not None:
        c.ob(False, f"{label}: lowest factor selected", f"which={which}, k={show(k)}", f"{e.where} in {e.fn}", undecided=True)
        raise Skip()
    j = 0 if s1 > 0 else int(kv) - 1
    return F.inv(F.atom_form(F.Atom("eigval", e.state, j))) * (-s1)


def below(x, v):
    """v is negative on every path"""
    k = const(v)
    return k < 0 if k is not None else G.implies(x.it.st.pc, G.lt0(v))


def diff_text(x, got, want):
    d = x.compare(got, want) if got is not None else []
    return "; ".join(q.text() for q in d[:2])


def constraints(c, x, label, e, ctxvars, at):
    """inequalities value >= 0 the optimiser is given: list of (form or value, source text)"""
    cons = e.kwargs.get("constraints")
    if cons is None:
        return []
    cl = cons
    if isinstance(cl, Ref) and isinstance(x.it.cell(cl), DictC) or isinstance(cl, Opaque):
        items = [cl]
    else:
        items = x.items(cl)
    out = []
    for q in items:
        if isinstance(q, Opaque) and q.tag == "NLC":
            fun, lb, ub = q.args[0], q.args[1], q.args[2]
            out.append(("nlc", fun, lb, ub))
        elif isinstance(q, Opaque) and q.tag == "LC":
            out.append(("lc", q.args[0], q.args[1], q.args[2]))
        elif isinstance(q, Ref) and isinstance(x.it.cell(q), DictC):
            d = x.it.cell(q).d
            if d.get("type") == "ineq":
                out.append(("nlc", d["fun"], F.ZERO, V.INF))
            else:
                c.ob(False, f"{label}: constraint", f"of type {show(d.get('type'))}", at)
                raise Skip()
        else:
            c.ob(False, f"{label}: constraint", f"not understood: {show(q)}", at, undecided=True)
            raise Skip()
    return out


def is_inf(v):
    return v is V.INF or isinstance(v, Form) and F.same(v, V.INF)


def expand(c, x, label, raw, y, at):
    """evaluate constraint functions at the symbolic point: list of (value, lb, ub); callables analysing panels are kept as thunks"""
    out = []
    for kind, f, lb, ub in raw:
        if kind == "lc":
            A = f if isinstance(f, np.ndarray) else x.array(f)
            A = A.reshape(1, -1) if A.ndim == 1 else A
            for i in range(A.shape[0]):
                v = F.ZERO
                for k in range(A.shape[1]):
                    v = v + A[i, k] * y[k]
                out.append((v, pick(lb, i), pick(ub, i)))
        else:
            out.append((f, lb, ub))
    return out


def pick(v, i):
    if isinstance(v, np.ndarray):
        return v.reshape(-1)[i if v.size > 1 else 0]
    if isinstance(v, (tuple, list)):
        return v[i if len(v) > 1 else 0]
    return v


def bounds(c, x, label, e, n, at):
    b = e.kwargs.get("bounds")
    if isinstance(b, Opaque) and b.tag == "Bounds":
        return [(pick(b.args[0], i), pick(b.args[1], i)) for i in range(n)]
    if b is None:
        return [(None, None)] * n
    rows = x.items(b)
    return [tuple(x.items(r)) for r in rows]


def const(v):
    if is_inf(v):
        return float("inf")
    if isinstance(v, Form) and v.const() is not None:
        return v.const()
    if isinstance(v, Form) and F.same(v * -1, V.INF):
        return float("-inf")
    return None


def region(c, x, label, got, want, at):
    """the inequalities given are those of the feasible region, up to scale and a small tolerance"""
    left = dict(want)
    for v, lb, ub in got:
        lo = const(lb)
        if lo is None or not isinstance(v, Form):
            c.ob(False, f"{label}: constraint", f"value {show(v)}, lower bound {show(lb)}", at, undecided=True)
            continue
        hit = None
        for name, g in left.items():
            s = scale(v, g)
            if s is not None and s > 0:
                hit = (name, s)
                break
        if hit is None:
            c.ob(False, f"{label}: constraint {show(v)} >= {show(lb)}", "is not a boundary of the feasible region", at)
            continue
        name, s = hit
        left.pop(name)
        up = const(ub)
        c.ob(-Q(1, 1000) <= lo / s <= 0 and up is not None and up / s >= 4, f"{label}: {name}", f"bounds {show(lb)}, {show(ub)}", at)
    for name in left:
        c.ob(False, f"{label}: {name}", f"the optimiser is not given {name}", at)


def scale(v, g):
    r = None
    for k in (0, 1):
        fw, fg = F.fp(g, k), F.fp(v, k)
        if not fw or not fg:
            return None
        q = fg * pow(fw, F.PRIME - 2, F.PRIME) % F.PRIME
        if r is not None and q != r:
            return None
        r = q
    return F.rational(r)


def value_at(c, x, label, f, y, at):
    """values of a constraint function at the symbolic point, as a flat list"""
    v, _, _ = c.run(x, f"{label}: constraint", lambda: x.call(f, y))
    if isinstance(v, Ref):
        a = x.array(v)
        return list(a.reshape(-1)) if isinstance(a, np.ndarray) else [a]
    if isinstance(v, tuple):
        return list(v)
    return [v]


TRIANGLE = {"xi3 + 2 xi1 + 1 >= 0": lambda p, q: q + p * 2 + F.ONE, "xi3 - 2 xi1 + 1 >= 0": lambda p, q: q - p * 2 + F.ONE}
PARABOLA = {"xi3 - 2 xi1^2 + 1 >= 0": lambda p, q: q - p * p * 2 + F.ONE}


def same_arg(x, got, want):
    return got is want or V.identical(got, want) or isinstance(got, Form) and isinstance(want, Form) and F.same(got, want)
