"""P05: laminates defined by lamination parameters."""
from checks.lam import *
from checks.p04 import from_xi

KEYS = ("xiA", "xiB", "xiD", "T")


def make(x, keys, ply, tag="", form="list", order=1):
    xi = {k: [sym(f"{k}{j}{tag}") for j in range(1, 5)] for k in keys if k != "T"}
    d = {}
    for k in keys[::order]:
        if k == "T":
            d[k] = sym(f"T{tag}", "+")
        else:
            d[k] = x.it.new_list(xi[k]) if form == "list" else tuple(xi[k]) if form == "tuple" else x.it.new_arr(arr(xi[k]))
    T = d.get("T")
    return x.call(x.get(LAM), x.it.new_dict(d), ply.ref), xi, T


def check():
    c = Check("P05", "algebraic value flow from lamination parameters, thickness and ply constants to A, B, D, ABD and back to xiA, xiD; A and D "
              "must be T and T^3/12 times the matrix of stiffness invariants and lamination parameters, B zero, the parameters read back "
              "unchanged, in every key combination, container kind and access order; a laminate rebuilt from a stacking's own parameters "
              "must have that stacking's A and D; missing xiD or T must raise KeyError")
    c.min_obs = 300
    zero = arr(np.zeros((3, 3), dtype=int))
    for keys in (("xiA", "xiD", "T"), ("xiD", "T"), ("xiA", "xiB", "xiD", "T"), ("xiB", "xiD", "T")):
        for n, (form, mk) in enumerate((("list", ortho), ("tuple", iso), ("array", ortho))):
            x = Ctx()
            label = f"keys {', '.join(keys)} as {form}, {mk.__name__} ply"
            try:
                def build():
                    p, q = mk(x, "_1"), ortho(x, "_2")
                    return [(p,) + make(x, keys, p, "", form, 1 if n else -1), (q,) + make(x, keys, q, "'", form)]
                ls, _, _ = c.run(x, label, build)
                order = (("D", "A", "B", "ABD", "xiA", "xiD"), ("ABD", "xiD", "B", "D", "A", "xiA"), ("B", "A", "xiA", "D", "ABD", "xiD"))[n]
                for r, i in enumerate((0, 1, 0)):
                    p, L, xi, T = ls[i]
                    D = from_xi(p.U(), xi["xiD"], F.power(T, 3) * Q(1, 12))
                    A = from_xi(p.U(), xi["xiA"], T) if "xiA" in keys else None
                    want = {"D": D, "xiD": arr(xi["xiD"]), "B": zero}
                    if A is not None:
                        want["A"] = A
                        want["xiA"] = arr(xi["xiA"])
                        want["ABD"] = np.vstack([np.hstack([A, zero]), np.hstack([zero, D])])
                    for name in order:
                        v, _, _ = c.run(x, f"{label}: {name}", lambda: x.attr(L, name))
                        if name in want:
                            c.eq(x, v, want[name], f"{label}: {name} of laminate {i + 1}, read {r + 1}", member(x, LAM, name))
                        elif name == "ABD":
                            a = x.array(v)
                            ok = isinstance(a, np.ndarray) and a.shape == (6, 6)
                            c.ob(ok, f"{label}: ABD shape", show(a), member(x, LAM, name), undecided=isinstance(a, Unk))
                            if ok:
                                c.eq(x, a[3:, 3:], D, f"{label}: bending part of ABD", member(x, LAM, name))
                                c.eq(x, a[:3, 3:], zero, f"{label}: coupling part of ABD", member(x, LAM, name))
                                c.eq(x, a[3:, :3], zero, f"{label}: coupling part of ABD", member(x, LAM, name))
                        elif name == "xiA":
                            c.eq(x, v, None, f"{label}: xiA not given", member(x, LAM, name))
            except Skip:
                pass
    # round trip
    for n, th_ in ((2, th("r0", "r1")), (3, th("r0", "r1", "r2"))):
        x = Ctx()
        label = f"stacking of {n} plies rebuilt from its lamination parameters"
        try:
            def build():
                p = ortho(x, "_r")
                l = laminate(x, th_, [p] * n, single=True)
                d = {"xiA": x.attr(l.ref, "xiA"), "xiD": x.attr(l.ref, "xiD"), "T": l.T}
                return p, l, x.call(x.get(LAM), x.it.new_dict(d), p.ref)
            (p, l, L2), _, _ = c.run(x, label, build)
            for name, k in (("A", 0), ("D", 2)):
                v, _, _ = c.run(x, f"{label}: {name}", lambda: x.attr(L2, name))
                c.eq(x, v, l.moment(k), f"{label}: {name}", member(x, LAM, name))
        except Skip:
            pass
    # missing keys
    for keys in (("xiA", "T"), ("xiA", "xiD"), ("T",), ("xiD",), ()):
        x = Ctx()
        label = f"keys {', '.join(keys) or 'none'}"
        try:
            v, alive, exc = c.run(x, label, lambda: make(x, keys, ortho(x, "_m")), want_exc=True)
            ok = not alive and exc and all(exc_name(e) == "KeyError" for _, e in exc)
            c.ob(ok, f"missing key: {label}", f"must raise KeyError, got {'a laminate' if alive else [e for _, e in exc]}", member(x, LAM, "__init__"))
        except Skip:
            pass
    return c


def exc_name(e):
    return getattr(e.cls, "name", None) or getattr(e.cls, "path", repr(e.cls)).split(".")[-1]
