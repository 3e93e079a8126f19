"""P26: PCOMP cards."""
from checks.base import *
from sa.strings import enc, dec
from fractions import Fraction as Q

CARD = "composipy.nastranapi:build_pcomp"


def fields(text):
    """lines of fields: str, or (value, format)"""
    t, back = enc(text)
    out = []
    for ln in t.split("\n"):
        row = []
        for f in ln.split(","):
            v = dec(f.strip(), back)
            if isinstance(v, V.StrV) and len(v.parts) == 1:
                v = v.parts[0]
            row.append(v)
        out.append(row)
    return out


def same_field(got, want):
    if isinstance(want, str):
        return got == want
    c = want.const()
    if isinstance(got, str):
        if c is None:
            return False
        try:
            return Q(got) == c
        except ValueError:
            return False
    if isinstance(got, V.StrV):
        return False
    v, spec = got
    return spec in ("", "s") and isinstance(v, Form) and F.same(v, want)


def card(pid, z0, plies):
    """the lines of the card; a ply is (material, thickness, angle, request)"""
    out = [["PCOMP", pid, z0, "", "", "", "", "+"]]
    for i in range(0, len(plies), 2):
        out.append(["+"] + [v for p in plies[i:i + 2] for v in p] + (["+"] if len(plies) > i + 2 else []))
    return out


def show_field(f):
    return f if isinstance(f, str) else show(f) if isinstance(f, Form) else f"{show(f[0])}{':' + f[1] if f[1] else ''}" if isinstance(f, tuple) else repr(f)


def compare(c, x, got, want, label, at):
    got = narrow(got)
    if isinstance(got, Phi):
        ok = True
        for g, v in got.alts:
            if G.AND(g, x.it.st.pc) is not False:
                ok = compare(c, x, v, want, label, at) and ok
        return ok
    if isinstance(got, Unk):
        return c.ob(False, label, got.reason, at, undecided=True)
    if not isinstance(got, (str, V.StrV)):
        return c.ob(False, label, f"returns {got!r}", at)
    rows = fields(got)
    while len(rows) > 1 and rows[-1] == [""]:
        rows.pop()
    # the mark after a full last line links to nothing: with or without it
    last = rows[-1]
    if len(last) > 9 and last[-1] == "+" and len(last) != len(want[-1]):
        last.pop()
    bad = None
    if len(rows) != len(want):
        bad = f"{len(rows)} lines, expected {len(want)}"
    for i, (r, w) in enumerate(zip(rows, want)):
        if bad:
            break
        if len(r) != len(w):
            bad = f"line {i + 1} has {len(r)} fields, expected {len(w)}: {[show_field(f) for f in r]}"
        for j, (a, b) in enumerate(zip(r, w)):
            if not bad and not same_field(a, b):
                bad = f"line {i + 1}, field {j + 1}: {show_field(a)}, expected {show_field(b)}"
    c.count("fields", sum(len(w) for w in want))
    return c.ob(not bad, label, bad or f"{sum(len(w) for w in want)} fields", at)


def check():
    c = Check("P26", "abstract interpretation of the card text as a composition of literal text and the given values; every field of every line must be the value "
              "of its own ply, in NASTRAN free-field order, for scalar or per-ply materials, thicknesses and output requests; wrong lengths must raise ValueError")
    c.min_obs = 300
    x = Ctx()
    fn = x.get(CARD)
    at = pos(x, fn)
    sizes = list(range(1, 10 if not THOROUGH else 41)) + ([24] if not THOROUGH else [])
    pid = sym("pid")
    V.INT_ATOMS.update(pid.atoms())
    z0 = sym("z0")

    def seq(form, xs):
        return x.it.new_list(xs) if form == "list" else tuple(xs) if form == "tuple" else x.it.new_arr(arr(xs))
    for n in sizes:
        th = [sym(f"t{i}") for i in range(n)]
        angs = [sym(f"a{i}") for i in range(n)]
        mids = [sym(f"m{i}") for i in range(n)]
        for form in ("list", "tuple", "array"):
            for mm in ("one material", "material per ply"):
                for tt in ("one thickness", "thickness per ply"):
                    for so in ("default", "FIBER", "YES", "NO", "per ply"):
                        if form != "list" and (so not in ("default", "per ply") or n > 5):
                            continue
                        label = f"{n} plies, {form}, {mm}, {tt}, output {so}"
                        req = {"default": ["YES"] + ["NO"] * (n - 2) + ["YES"] if n > 1 else ["YES"], "YES": ["YES"] * n, "NO": ["NO"] * n,
                               "per ply": ["YES" if (i * i + i // 3) % 3 else "NO" for i in range(n)]}
                        req["FIBER"] = req["default"]
                        kw = {}
                        if so != "default":
                            kw["sout"] = x.it.new_list(req[so]) if so == "per ply" else so
                        m = sym("m") if mm == "one material" else seq(form, mids)
                        t = sym("t") if tt == "one thickness" else seq(form, th)
                        wm = [sym("m")] * n if mm == "one material" else mids
                        wt = [sym("t")] * n if tt == "one thickness" else th
                        want = [(wm[i], wt[i], angs[i], req[so][i]) for i in range(n)]
                        how = len(label) % 3
                        try:
                            if how == 0:
                                wp, wz = F.const(1), ""
                            elif how == 1:
                                kw.update(pid=pid, z0=z0)
                                wp, wz = pid, z0
                            else:
                                kw.update(z0=z0)
                                wp, wz = F.const(1), z0
                            r, _, _ = c.run(x, label, lambda: x.call(fn, seq(form, angs), m, t, **kw))
                            compare(c, x, r, card(wp, wz, want), label, at)
                            # same call again: nothing given was changed
                        except Skip:
                            pass
    # numbers repeated in different plies, positional options
    a, b = sym("a0"), sym("a1")
    try:
        r, _, _ = c.run(x, "all options by position", lambda: x.call(fn, seq("list", [a, b, a]), sym("m"), sym("t"), pid, z0, "YES"))
        compare(c, x, r, card(pid, z0, [(sym("m"), sym("t"), y, "YES") for y in (a, b, a)]), "all options by position", at)
    except Skip:
        pass
    # wrong lengths and requests
    for n in (1, 2, 3, 4, 6):
        angs = [sym(f"a{i}") for i in range(n)]
        for k in {0, n - 1, n + 1, 2 * n} - {n}:
            for what in ("materials", "thicknesses", "output requests"):
                label = f"{n} plies, {k} {what}"
                xs = x.it.new_list([sym(f"q{i}") if what != "output requests" else "YES" for i in range(k)])
                args = {"materials": (xs, sym("t")), "thicknesses": (sym("m"), xs)}.get(what, (sym("m"), sym("t")))
                kw = {"sout": xs} if what == "output requests" else {}
                try:
                    _, alive, exc = c.run(x, label, lambda: x.call(fn, seq("list", angs), *args, **kw), want_exc=True)
                    c.ob(not alive and bool(exc) and all(exc_is(e, ValueError) for _, e in exc), label, "must raise ValueError", at)
                except Skip:
                    pass
        for bad in ("ALL", "Y", "yes", "NONE", "FIBERS", "YESNO"):
            label = f"{n} plies, output request {bad!r}"
            try:
                _, alive, exc = c.run(x, label, lambda: x.call(fn, seq("list", angs), sym("m"), sym("t"), sout=bad), want_exc=True)
                c.ob(not alive and bool(exc) and all(exc_is(e, ValueError) for _, e in exc), label, "must raise ValueError", at)
            except Skip:
                pass
    return c
