"""P14: the shape functions evaluate to the Bardell functions, singly and as products in the order asked for."""
from checks.base import *
from sa import tables as T

MOD = "composipy.pre_integrated_component.functions"


def form_poly(f, xs):
    """{(p, q): c} of a form in the atoms xs, or None"""
    at = {next(iter(m for t in s.t for m, _ in t)): i for i, s in enumerate(xs)}
    out = {}
    for m, c in f.t.items():
        e = [0, 0]
        for a, n in m:
            if a not in at or n < 0:
                return None
            e[at[a]] = n
        out[tuple(e)] = c
    return out


def check():
    c = Check("P14", "abstract evaluation of the shape function lookups at symbolic coordinates xi, eta for every tabulated order "
              "(50 single functions, 2500 products); the resulting polynomial is compared coefficient by coefficient with the "
              "exact Bardell polynomial (relative tolerance 1e-10); lists of products keep the order of the index list")
    x = Ctx(classify=False)
    xi, eta = sym("xi"), sym("eta")
    c.min_obs = 2550
    one = x.get(f"{MOD}:fxi")
    at = pos(x, one)
    for i in range(50):
        get(c, x, f"fxi({i})", lambda: x.call(one, num(i), xi), T.f1(i), (xi, eta), at)
    many = x.get(f"{MOD}:sxieta")
    at = pos(x, many)
    for i in range(50):
        for k0 in range(0, 50, 25):
            ks = list(range(k0, k0 + 25))
            idx = [(num(i), num(k)) for k in ks]
            try:
                v, alive, exc = x.it.run(lambda: x.call(many, x.it.new_list(idx), xi, eta))
            except Limit as e:
                c.ob(False, f"sxieta row {i}", str(e), undecided=True)
                continue
            a = x.array(v) if alive else None
            if not alive or exc or not isinstance(a, np.ndarray) or a.shape != (len(ks),):
                c.ob(False, f"sxieta: products of order {i}", f"no vector of {len(ks)} values: {show(a)} {[e for _, e in exc][:1]}", at,
                     undecided=isinstance(a, Unk))
                x.it.st.pc = True
                continue
            for k, w in zip(ks, a):
                judge(c, f"sxieta: product ({i}, {k})", w, T.f2(i, k), (xi, eta), at)
    # the order of an index list that is not sorted, and repeated entries
    idx = [(3, 1), (1, 3), (0, 2), (3, 1), (5, 4), (4, 5)]
    v, alive, exc = x.it.run(lambda: x.call(many, x.it.new_list([(num(i), num(k)) for i, k in idx]), xi, eta))
    a = x.array(v) if alive else None
    if isinstance(a, np.ndarray) and a.shape == (len(idx),):
        for j, (i, k) in enumerate(idx):
            judge(c, f"sxieta: entry {j} of an unsorted list", a[j], T.f2(i, k), (xi, eta), at)
    else:
        c.ob(False, "sxieta: unsorted list", show(a), at, undecided=isinstance(a, Unk))
    c.use(x, "all orders at symbolic (xi, eta)")
    return c


def get(c, x, key, thunk, want, xs, at):
    try:
        v, alive, exc = x.it.run(thunk)
    except Limit as e:
        return c.ob(False, key, str(e), undecided=True)
    if not alive or exc:
        x.it.st.pc = True
        return c.ob(False, key, f"raises {[e for _, e in exc][:1]}", at)
    judge(c, key, v, want, xs, at)


def judge(c, key, v, want, xs, at):
    c.count("polynomials compared")
    v = V._num(v) if not isinstance(v, Form) else v
    if not isinstance(v, Form):
        return c.ob(False, key, f"value {show(v)}", at, undecided=isinstance(v, Unk))
    p = form_poly(v, xs)
    if p is None:
        return c.ob(False, key, f"not a polynomial in the coordinates: {show(v)}", at)
    ok = T.poly_close(p, want)
    bad = next((m for m in sorted(set(p) | set(want)) if not T.close(p.get(m, T.Q(0)), want.get(m, T.Q(0)))), None)
    c.ob(ok, key, "" if ok else f"coefficient of xi^{bad[0]} eta^{bad[1]}: {float(p.get(bad, 0)):.17g}, exact {want.get(bad, 0)}", at)
