"""P35: the text of a material or a laminate states its own data."""
import re
from fractions import Fraction as Q
from checks.base import *
from sa.strings import enc, is_hole, HOLE
from sa import seqs
from sa.interp import Builtin

ORTHO, ISO, LAM = ("composipy:" + k for k in ("OrthotropicMaterial", "IsotropicMaterial", "LaminateProperty"))
NUMBER = r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?"
OC = ("E1", "E2", "v12", "G12", "thickness", "T1", "C1", "T2", "C2", "S")
IC = ("E", "v", "G", "thickness", "T", "C", "S")


def text_of(c, x, label, o, how, at):
    v, _, _ = c.run(x, f"{label}: {how}", lambda: x.it.call(Builtin(how), [o], {}))
    v = narrow(v)
    if isinstance(v, Phi):
        vs = [w for g, w in v.alts if G.AND(g, x.it.st.pc) is not False]
    else:
        vs = [v]
    for w in vs:
        if not isinstance(w, (str, V.StrV)):
            c.ob(False, f"{label}: text", show(w), at, undecided=True)
            raise Skip()
    return [enc(w) for w in vs]


def value(tok, back):
    """(value, format) of a token of the text"""
    if is_hole(tok[0]):
        q = back[ord(tok[0]) - HOLE]
        return q if isinstance(q, tuple) else (q, "")
    return num(Q(tok)), ""


def constants(c, x, label, t, back, want, at):
    low = t.lower()
    hole = f"[{chr(HOLE)}-{chr(HOLE + 500)}]"
    for k, w in want.items():
        m = re.search(rf"(?<![a-z0-9_]){k.lower()}['\"]?\s*[=:]\s*({hole}|{NUMBER})", low)
        lab = f"{label}: {k}"
        if m is None:
            there = any(isinstance(q[0], Form) and F.same(q[0], w) for q in back if isinstance(q, tuple))
            c.ob(False, lab, f"the text {t!r} does not state {k}", at, undecided=there)
            continue
        v, spec = value(m.group(1), back)
        c.ob(isinstance(v, Form) and F.same(v, w) and spec in ("", "s", "r"), lab, f"the text states {show(v)}{':' + spec if spec else ''}, the object has {show(w)}", at,
             undecided=isinstance(v, Unk))


def material(c, x, cls, names, given, label, kw=()):
    at = pos(x, x.get(cls)) or cls
    o, _, _ = c.run(x, f"{label}: construction", lambda: x.call(x.get(cls), *given, **dict(kw)))
    n = len(given)
    want = {k: (given[i] if i < n else F.ZERO) for i, k in enumerate(names)}
    want["thickness"] = given[names.index("thickness")]
    for how in ("repr", "str"):
        for t, back in text_of(c, x, label, o, how, at):
            constants(c, x, f"{label}: {how}", t, back, want, at)
            if "name" in dict(kw):
                c.ob(dict(kw)["name"] in t, f"{label}: {how}: name", f"the text {t!r} does not give the name", at)
    return o


def laminate(c, x, label, stacking, mat, want):
    at = pos(x, x.get(LAM)) or LAM
    o, _, _ = c.run(x, f"{label}: construction", lambda: x.call(x.get(LAM), stacking, mat))
    for how in ("repr", "str"):
        for t, back in text_of(c, x, label, o, how, at):
            ok = False
            for q in back:
                v, spec = q if isinstance(q, tuple) else (q, "")
                if spec not in ("", "s", "r"):
                    continue
                v = narrow(v)
                if isinstance(want, Opaque):
                    ok |= V.identical(v, want)
                elif isinstance(v, (tuple, Ref, np.ndarray)):
                    s = x.array(v)
                    ok |= isinstance(s, np.ndarray) and s.shape == want.shape and not x.compare(s, want)
            if not ok and not isinstance(want, Opaque):
                # the angles one after the other
                vs = [q[0] if isinstance(q, tuple) else q for q in back]
                ok = len(vs) == len(want) and all(isinstance(v, Form) and F.same(v, w) for v, w in zip(vs, want))
            c.ob(ok, f"{label}: {how} states the stacking", f"the text is {t!r} with {[show(q[0] if isinstance(q, tuple) else q) for q in back]}", at)


def check():
    c = Check("P35", "the text built by repr and str is analysed as a sequence of literal pieces and inserted values: after the name of each constant must come exactly that "
              "constant of the object, unrounded; the text of a laminate must contain the stacking it was given")
    c.min_obs = 40
    for label, n, kw in (("orthotropic, all constants", 10, (("name", "carbon"),)), ("orthotropic, no allowables", 5, ()), ("orthotropic, some allowables", 7, ())):
        x = Ctx()
        try:
            given = [sym(k, "+") for k in OC[:n]]
            given[2] = x.bounded(sym("v12"), Q(-1, 2), Q(1, 2))
            material(c, x, ORTHO, OC, given, label, kw)
        except Skip:
            pass
        c.use(x, label)
    for label, n, kw in (("isotropic, all constants", 7, (("name", "alloy"),)), ("isotropic, no allowables", 4, ())):
        x = Ctx()
        try:
            given = [sym(k, "+") for k in IC[:n]]
            given[1] = x.bounded(sym("v"), Q(-1, 2), Q(1, 2))
            material(c, x, ISO, IC, given, label, kw)
        except Skip:
            pass
        c.use(x, label)
    # two objects: each one's text is about itself
    x = Ctx()
    try:
        os_ = []
        at = pos(x, x.get(ORTHO)) or ORTHO
        for tag in ("", "'"):
            given = [sym(k + tag, "+") for k in OC]
            given[2] = x.bounded(sym("v12" + tag), Q(-1, 2), Q(1, 2))
            os_.append((x.call(x.get(ORTHO), *given), dict(zip(OC, given))))
        for o, want in os_:
            for t, back in text_of(c, x, "one of two materials", o, "repr", at):
                constants(c, x, "one of two materials: repr", t, back, want, at)
    except Skip:
        pass
    c.use(x, "one of two materials")
    for label, mk in (("laminate of a list", lambda x, v: x.it.new_list(v)), ("laminate of a tuple", lambda x, v: tuple(v)), ("laminate of an array", lambda x, v: x.it.new_arr(arr(v)))):
        for n in (1, 4):
            x = Ctx()
            try:
                v12 = x.bounded(sym("v12"), Q(-1, 2), Q(1, 2))
                mat = x.call(x.get(ORTHO), sym("E1", "+"), sym("E2", "+"), v12, sym("G12", "+"), sym("t", "+"))
                ang = [sym(f"angle{i}") for i in range(n)]
                laminate(c, x, f"{label}, {n} plies", mk(x, ang), mat, arr(ang))
            except Skip:
                pass
            c.use(x, f"{label}, {n} plies")
    x = Ctx()
    try:
        v12 = x.bounded(sym("v12"), Q(-1, 2), Q(1, 2))
        mat = x.call(x.get(ORTHO), sym("E1", "+"), sym("E2", "+"), v12, sym("G12", "+"), sym("t", "+"))
        xi = [x.bounded(sym(f"xi{i}"), -1, 1) for i in range(4)]
        T = sym("T", "+")
        d = x.it.new_dict({"xiD": x.it.new_list(xi), "T": T})
        laminate(c, x, "laminate of lamination parameters", d, mat, seqs.freeze(x.it, d))
    except Skip:
        pass
    c.use(x, "laminate of lamination parameters")
    return c
