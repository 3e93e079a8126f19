"""P27: validation of constructor arguments."""
import re
from checks.lam import *
from checks import plate as pl

H = Q(1, 2)
INT = "integer"
SPEC = {
    "OrthotropicMaterial": (MAT, {**{k: (0, None) for k in ("e1", "e2")}, "v12": (-H, H), **{k: (0, None) for k in ("g12", "thickness", "t1", "c1", "t2", "c2", "s")}}),
    "IsotropicMaterial": (ISO, {"e": (0, None), "v": (-H, H), **{k: (0, None) for k in ("g", "thickness", "t", "c", "s")}}),
    "PlateStructure": (pl.PLATE, {"a": (0, None), "b": (0, None), "Nxx": (None, None), "Nyy": (None, None), "Nxy": (None, None), "m": (1, None, INT), "n": (1, None, INT)}),
}
OPTIONAL = ("t1", "c1", "t2", "c2", "s", "t", "c", "Nxx", "Nyy", "Nxy", "m", "n")


def integer(f):
    return G.pred("integer", V.canon(f))


def valid(f, rng):
    g = True
    lo, hi = rng[0], rng[1]
    if len(rng) > 2:
        g = G.AND(g, integer(f))
    if lo is not None:
        g = G.AND(g, G.NOT(G.lt0(f - num(lo))))
    if hi is not None:
        g = G.AND(g, G.NOT(G.lt0(num(hi) - f)))
    return g


def good(name, rng, tag):
    """a symbol within the range (integers as symbols assumed to be integers)"""
    f = sym(f"{name}{tag}")
    return f, valid(f, rng)


def names_it(e, name):
    """the message of the exception names the argument"""
    if not e.args:
        return False
    t = e.args[0]
    t = t if isinstance(t, str) else repr(t)
    return re.search(rf"(?<![A-Za-z0-9_]){re.escape(name)}(?![A-Za-z0-9_])", t) is not None


def check():
    c = Check("P27", "abstract interpretation of the constructors with one argument unconstrained (any real, any text of a number, any other kind of object) and the others valid: the "
              "constructor must raise ValueError naming the argument exactly when the value is out of range, and otherwise store exactly the value; several invalid arguments, "
              "defaults, numeric text, bounds themselves and objects of the wrong class are contexts of their own")
    c.min_obs = 300
    for cname, (path, spec) in SPEC.items():
        x = Ctx()
        cls = x.get(path)
        at = member(x, path, "__init__")
        pre = {}
        if cname == "PlateStructure":
            lam, _, _ = c.run(x, "laminate", lambda: laminate(x, th("0", "1"), [ortho(x, "_0"), ortho(x, "_1")]))
            pre["dproperty"] = lam.ref
        base = x.it.st.clone()

        def build(over, how="kw", only=()):
            """arguments: valid symbols, overridden; the assumed domain"""
            kw = dict(pre)
            dom = True
            for k, rng in spec.items():
                if k in over:
                    kw[k] = over[k]
                elif k in OPTIONAL and how == "defaults":
                    continue
                else:
                    kw[k], g = good(k, rng, "")
                    dom = G.AND(dom, g)
                    if k in ("e1", "e"):
                        dom = G.AND(dom, G.NOT(G.eq0(kw[k])))
            return kw, dom

        def go(label, over, how="kw"):
            x.it.st = base.clone()
            kw, dom = build({k: v() if callable(v) else v for k, v in over.items()}, how)
            x.assume(dom)
            dom = x.it.st.pc
            if how == "pos":
                vals = [kw[k] for k in spec]
                if cname == "PlateStructure":
                    vals = [kw["dproperty"], kw["a"], kw["b"], "PINNED"] + vals[2:]
                r, alive, exc = c.run(x, label, lambda: x.call(cls, *vals), want_exc=True)
            else:
                r, alive, exc = c.run(x, label, lambda: x.call(cls, **kw), want_exc=True)
            return r, alive, exc, kw, dom

        def stored(label, r, kw, skip=()):
            for k in spec:
                if k in kw and k not in skip:
                    v, _, _ = c.run(x, label, lambda: x.attr(r, k))
                    c.eq(x, v, kw[k], f"{label}: attribute {k}", at)

        used = []

        def fresh(k):
            """a symbol no earlier context knows anything about"""
            used.append(k)
            return sym(f"any {k} {len(used)}")

        def judge(label, r, alive, exc, bad, names, dom, not_zero=()):
            """raises ValueError exactly under `bad`"""
            tot = False
            for s, e in exc:
                g = G.AND(s.pc, dom)
                if g is False:
                    continue
                if exc_is(e, ZeroDivisionError) and any(G.AND(g, G.NOT(G.eq0(f))) is False for f in not_zero):
                    continue        # a modulus of zero in a ratio of moduli: outside the domain
                where = f"{getattr(e, 'where', '?')} in {getattr(e, 'fn', '?')}"
                if not exc_is(e, ValueError):
                    c.ob(False, f"{label}: kind of error", f"raises {e!r} when {G.show(g)[:300]}", where)
                elif not any(names_it(e, n) for n in names):
                    c.ob(False, f"{label}: message", f"{e!r} does not name {' or '.join(names)}", where)
                else:
                    c.ob(True, f"{label}: error", "ValueError naming the argument")
                tot = G.OR(tot, g)
            wrong = G.AND(tot, G.NOT(bad))
            c.ob(wrong is False, f"{label}: valid values accepted", f"rejected although valid, when {G.show(wrong)[:400]}" if wrong is not False else "", at)
            if alive:
                miss = G.AND(x.it.st.pc, G.AND(dom, bad))
                c.ob(miss is False, f"{label}: invalid values rejected", f"accepted when {G.show(miss)[:400]}" if miss is not False else "", at)

        for k, rng in spec.items():
            rest = [n for n in spec if n != k]
            # any real number, as a number and as text
            for what in ("number", "text"):
                for how in ("kw", "pos"):
                    f = fresh(k)
                    label = f"{cname}, {k} any {what}, {how}"
                    try:
                        v = f if what == "number" else M.new_token(f)
                        r, alive, exc, kw, dom = go(label, {k: v}, how)
                        bad = G.NOT(valid(f, rng))
                        judge(label, r, alive, exc, bad, [k], dom, [f] if k in ("e1", "e") else ())
                        if alive:
                            kw = dict(kw)
                            kw[k] = f
                            kw.pop("dproperty", None)
                            stored(label, r, kw)
                        elif bad is not True:
                            c.ob(False, f"{label}: accepted", "never constructed", at)
                    except Skip:
                        pass
            # objects that are no numbers
            for what in ("None", "text", "empty text", "list", "dict", "tuple of two", "unconstrained object"):
                label = f"{cname}, {k} is a {what}"
                uk = f"any {k} {len(used)}"
                used.append(uk)
                try:
                    v = {"None": lambda: None, "text": lambda: "abc", "empty text": lambda: "", "list": lambda: x.it.new_list([F.ONE, F.ONE]), "dict": lambda: x.it.new_dict({}),
                         "tuple of two": lambda: (F.ONE, F.ONE), "unconstrained object": lambda: Opaque("input", uk)}[what]
                    r, alive, exc, kw, dom = go(label, {k: v})
                    if what != "unconstrained object":
                        judge(label, r, alive, exc, True, [k], dom)
                    else:
                        f = sym(uk)
                        nan = G.pred("not a number", uk)
                        judge(label, r, alive, exc, G.OR(nan, G.NOT(valid(f, rng))), [k], dom, [f] if k in ("e1", "e") else ())
                        if alive:
                            kw = dict(kw)
                            kw[k] = f
                            kw.pop("dproperty", None)
                            stored(label, r, kw)
                except Skip:
                    pass
            # the bounds themselves, neighbours, written-out numbers and texts
            tries = []
            eps = Q(1, 10 ** 9)
            if rng[0] is not None:
                tries += [(Q(rng[0]) - (1 if len(rng) > 2 else eps), True), (Q(rng[0]) - 100, True)]
                if k not in ("e1", "e"):
                    tries.append((Q(rng[0]), False))
            if rng[1] is not None:
                tries += [(Q(rng[1]), False), (Q(rng[1]) + eps, True)]
            if len(rng) > 2:
                tries += [(Q(5, 2), True), (Q(1), False), (Q(2), False), (Q(12), False), (Q(3) + eps, True), (Q(0), True)]
            else:
                tries += [(Q(1, 4), False), (Q(1, 1000), False)]
                if rng[1] is None:
                    tries += [(Q(10) ** 12, False), (Q(7), False), (Q(123456), False)]
                if rng[0] is None:
                    tries += [(Q(-10) ** 9, False), (Q(-1, 3), False), (Q(0), False)]
            for q, isbad in tries:
                for what in ("number", "text"):
                    if what == "text" and (q.denominator & (q.denominator - 1)) and q.denominator % 10:
                        continue
                    v = F.const(q)
                    if what == "text":
                        v = str(float(q)) if q.denominator != 1 else str(q.numerator)
                        if "e" in v:
                            continue
                    label = f"{cname}, {k} = {v if isinstance(v, str) else F.show(v)} ({what})"
                    try:
                        r, alive, exc, kw, dom = go(label, {k: v})
                        judge(label, r, alive, exc, isbad, [k], dom)
                        if alive and not isbad:
                            a, _, _ = c.run(x, label, lambda: x.attr(r, k))
                            c.eq(x, a, F.const(q), f"{label}: attribute", at)
                    except Skip:
                        pass
        # everything valid: all stored; defaults
        for how in ("kw", "pos"):
            label = f"{cname}, all valid, {how}"
            try:
                r, alive, exc, kw, dom = go(label, {}, how)
                judge(label, r, alive, exc, False, [], dom)
                kw.pop("dproperty", None)
                stored(label, r, kw)
            except Skip:
                pass
        label = f"{cname}, optional arguments left out"
        try:
            r, alive, exc, kw, dom = go(label, {}, "defaults")
            judge(label, r, alive, exc, False, [], dom)
            for k in spec:
                if k in OPTIONAL:
                    v, _, _ = c.run(x, label, lambda: x.attr(r, k))
                    c.eq(x, v, F.const(10 if k in ("m", "n") else 0), f"{label}: {k}", at)
        except Skip:
            pass
        # two arguments unconstrained at once
        ks = list(spec)
        for i, k in enumerate(ks):
            j = ks[(i + 1 + i % 3) % len(ks)]
            if j == k:
                continue
            label = f"{cname}, {k} and {j} any numbers"
            try:
                fk, fj = fresh(k), fresh(j)
                r, alive, exc, kw, dom = go(label, {k: fk, j: fj})
                z = [q for q in (k, j) if q in ("e1", "e")]
                bad = G.OR(G.NOT(valid(fk, spec[k])), G.NOT(valid(fj, spec[j])))
                judge(label, r, alive, exc, bad, [k, j], G.AND(dom, G.NOT(G.eq0({k: fk, j: fj}[z[0]]))) if z else dom, not_zero=[{k: fk, j: fj}[q] for q in z])
            except Skip:
                pass
        # the property of a plate
        if cname == "PlateStructure":
            for what in ("number", "text", "None", "material", "list of laminates", "plate", "dict"):
                label = f"PlateStructure, property is a {what}"
                x.it.st = base.clone()
                try:
                    v, _, _ = c.run(x, label, lambda: {"number": lambda: F.ONE, "text": lambda: "laminate", "None": lambda: None, "material": lambda: ortho(x, "_w").ref,
                                                       "list of laminates": lambda: x.it.new_list([pre["dproperty"]]), "plate": lambda: x.call(cls, pre["dproperty"], sym("pa", "+"), sym("pb", "+")),
                                                       "dict": lambda: x.it.new_dict({"xiD": x.it.new_list([F.ZERO] * 4)})}[what]())
                    _, alive, exc = c.run(x, label, lambda: x.call(cls, v, sym("pa", "+"), sym("pb", "+")), want_exc=True)
                    c.ob(not alive and bool(exc) and all(exc_is(e, ValueError) and names_it(e, "dproperty") for _, e in exc), label,
                         f"must raise ValueError naming dproperty, {'accepted' if alive else [e for _, e in exc]}", at)
                except Skip:
                    pass
            for what in ("given by angles", "given by lamination parameters"):
                label = f"PlateStructure, laminate {what}"
                x.it.st = base.clone()
                try:
                    mt, _, _ = c.run(x, label, lambda: ortho(x, "_w").ref)
                    v = pre["dproperty"] if what == "given by angles" else c.run(x, label, lambda: x.call(x.get(LAM), x.it.new_dict(
                        {"xiD": x.it.new_list([sym(f"xi{i}") for i in range(4)]), "T": sym("T", "+")}), mt))[0]
                    r, _, _ = c.run(x, label, lambda: x.call(cls, v, sym("pa", "+"), sym("pb", "+")))
                    d, _, _ = c.run(x, label, lambda: x.attr(r, "dproperty"))
                    c.ob(isinstance(d, Ref) and d == v, f"{label}: kept", f"attribute is {d!r}", at)
                except Skip:
                    pass
    # a laminate needs one ply per angle
    x = Ctx()
    at = member(x, LAM, "__init__")
    for n, k in ((1, 2), (2, 1), (3, 2), (3, 4), (2, 0), (4, 3)):
        label = f"{n} angles and {k} plies"
        try:
            ps, _, _ = c.run(x, label, lambda: [ortho(x, f"_{i}").ref for i in range(k)])
            _, alive, exc = c.run(x, label, lambda: x.call(x.get(LAM), x.it.new_list([sym(f"th{i}") for i in range(n)]), x.it.new_list(ps)), want_exc=True)
            c.ob(not alive and bool(exc) and all(exc_is(e, ValueError) for _, e in exc), label, "must raise ValueError", at)
        except Skip:
            pass
    return c
