"""P33: defining data cannot be reassigned."""
from checks.lam import *
from checks import plate as pl

ATTRS = {"OrthotropicMaterial": ("e1", "e2", "v12", "g12", "thickness", "t1", "c1", "t2", "c2", "s", "v21", "name", "Q_0"),
         "IsotropicMaterial": ("e", "v", "g", "thickness", "t", "c", "s", "name", "Q_0"),
         "PlateStructure": ("dproperty", "a", "b", "constraints", "Nxx", "Nyy", "Nxy", "m", "n")}


def check():
    c = Check("P33", "abstract interpretation of assignments and deletions through every documented name of materials and plates, on fresh objects and after analyses, with values of "
              "several kinds; each must raise AttributeError on every path and the names must read as constructed afterwards")
    c.min_obs = 200
    for cname, names in ATTRS.items():
        x = Ctx()
        path = {"OrthotropicMaterial": MAT, "IsotropicMaterial": ISO, "PlateStructure": pl.PLATE}[cname]

        def build():
            if cname == "OrthotropicMaterial":
                p = ortho(x, "_0")
                return p.ref, {k: getattr(p, k) for k in names if hasattr(p, k) and k not in ("v21", "Q_0")}
            if cname == "IsotropicMaterial":
                p = iso(x, "_0")
                return p.ref, {k: getattr(p, k) for k in names if hasattr(p, k) and k != "Q_0"}
            P = pl.plate(x, pl.lam2(x), pl.MIXED, 2, 3)
            return P.ref, {"a": P.a, "b": P.b, "Nxx": P.loads[0], "Nyy": P.loads[1], "Nxy": P.loads[2], "m": F.const(2), "n": F.const(3)}
        try:
            (ref, vals), _, _ = c.run(x, cname, build)
        except Skip:
            continue
        for when in ("fresh", "after use"):
            if when == "after use":
                try:
                    if cname == "PlateStructure":
                        c.run(x, f"{cname}, use", lambda: x.meth(ref, "calc_K_KG_D"))
                    else:
                        c.run(x, f"{cname}, use", lambda: [x.attr(ref, "Q_0"), x.attr(ref, "name"), x.meth(ref, "Invariants")])
                except Skip:
                    continue
            for k in names:
                at = member(x, path, k)
                try:
                    before, _, _ = c.run(x, f"{cname}.{k}", lambda: x.attr(ref, k))
                    for what in ("other number", "same value", "None", "text", "delete"):
                        label = f"{cname}.{k}, {when}: {what}"
                        saved = x.it.st.clone()

                        def act():
                            if what == "delete":
                                x.it.delattr(ref, k)
                                return
                            v = {"other number": sym("other"), "same value": before, "None": None, "text": "abc"}[what]
                            x.it.setattr(ref, k, v)
                        _, alive, exc = c.run(x, label, act, want_exc=True)
                        ok = not alive and bool(exc) and all(exc_is(e, AttributeError) for _, e in exc)
                        c.ob(ok, label, "must raise AttributeError" + (", is accepted" if alive else ""), at)
                        after = x.it.st
                        if not alive and exc:
                            x.it.st = exc[0][0]
                            v, _, _ = c.run(x, label, lambda: x.attr(ref, k))
                            if k in vals:
                                c.eq(x, v, vals[k], f"{label}: value afterwards", at)
                            else:
                                c.ob(identical(v, before), f"{label}: value afterwards", f"{show(v)} instead of {show(before)}", at)
                        x.it.st = saved
                except Skip:
                    pass
    return c
