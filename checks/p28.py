"""P28: inputs and earlier results stay as they are; results do not depend on history."""
from checks.opt_ import *
from checks.str_ import STR
from checks.p25 import SEQ
from checks.p26 import CARD

NAMES3 = ("Nxx", "Nyy", "Nxy")


# ---------------------------------------------------------------- snapshots

class Obj:
    """an instance of the analysed program inside a snapshot: compared by identity of the world's object"""

    def __init__(self, a):
        self.a = a


def snap(x, v, seen=()):
    """the value as it is now, down to the leaves"""
    v = narrow(v)
    it = x.it
    if isinstance(v, Phi):
        return Phi([(g, snap(x, q, seen)) for g, q in v.alts])
    if isinstance(v, tuple):
        return ("tuple", [snap(x, q, seen) for q in v])
    if isinstance(v, np.ndarray):
        return v.copy()
    if not isinstance(v, Ref):
        return v
    if v.a in seen:
        return ("cycle",)
    seen = seen + (v.a,)
    c = it.cell(v)
    if isinstance(c, (ArrC, ViewC)):
        return M.to_array(it, v).copy()
    if isinstance(c, ListC):
        return ("list", [snap(x, q, seen) for q in c.items])
    if isinstance(c, DictC):
        return ("dict", {k: snap(x, q, seen) for k, q in c.d.items()})
    if isinstance(c, FrameDFC):
        return ("frame", {k: [snap(x, q, seen) for q in it.iterate(q2)] if isinstance(q2, Ref) else [snap(x, q, seen) for q in q2] for k, q2 in c.cols.items()})
    if isinstance(c, SeriesC):
        return ("series", [snap(x, q, seen) for q in c.a])
    if isinstance(c, V.ObjC):
        return ("object", c.cls.qualname if hasattr(c.cls, "qualname") else repr(c.cls))
    r = it.iterate(v)
    return ("items", [snap(x, q, seen) for q in r]) if isinstance(r, list) else r


def differ(x, a, b, path="", out=None):
    """differences between two snapshots"""
    out = [] if out is None else out
    if len(out) > 3:
        return out
    if isinstance(b, (Form, np.ndarray, bool)) or isinstance(b, (int, float)) or isinstance(b, Phi) and all(isinstance(q, (Form, np.ndarray, bool)) for _, q in b.alts):
        if isinstance(a, (Form, np.ndarray, bool, int, float, Phi, Unk, Opaque, Cond)):
            for d in x.compare(a, b, path or "value"):
                out.append(d.text() + (" (undecided)" if d.undecided else ""))
        else:
            out.append(f"{path}: {show(a)} instead of {show(b)}")
        return out
    if isinstance(b, Phi) or isinstance(a, Phi):
        for g, p in (a.alts if isinstance(a, Phi) else [(True, a)]):
            for h, q in (b.alts if isinstance(b, Phi) else [(True, b)]):
                gh = G.AND(x.it.st.pc, g, h)
                if gh is not False:
                    differ(x, p, q, path, out)
        return out
    if isinstance(b, tuple):
        if not isinstance(a, tuple) or a[0] != b[0]:
            out.append(f"{path}: {show(a)} instead of {show(b)}")
        elif b[0] in ("dict", "frame"):
            if list(a[1]) != list(b[1]):
                out.append(f"{path}: keys {list(a[1])} instead of {list(b[1])}")
            else:
                for k in b[1]:
                    differ(x, a[1][k], b[1][k], f"{path}[{k!r}]", out)
        elif b[0] in ("list", "tuple", "items", "series"):
            differ(x, a[1], b[1], path, out)
        elif a[1:] != b[1:]:
            out.append(f"{path}: {show(a)} instead of {show(b)}")
        return out
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            out.append(f"{path}: {len(a) if isinstance(a, list) else show(a)} items instead of {len(b)}")
        else:
            for i, (p, q) in enumerate(zip(a, b)):
                differ(x, p, q, f"{path}[{i}]", out)
        return out
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag == "result":
        return out
    if not identical(a, b) and V.canon(a) != V.canon(b):
        out.append(f"{path}: {show(a)} instead of {show(b)}")
    return out


# ---------------------------------------------------------------- the world

class World:
    """objects of one program, built when first needed; what one object is made of is shared with others"""

    def __init__(self, x, order=()):
        self.x, self.o, self.inputs = x, {}, {}
        for k in order:
            self(k)

    def __call__(self, k):
        if k not in self.o:
            self.o[k] = OBJECTS[k](self, self.x)
        return self.o[k]

    def given(self, k, v):
        """a container handed to the library"""
        self.inputs[k] = v
        return v


def s(k, sign=None):
    return sym(k, sign)


def mat(tag, **over):
    def f(w, x):
        p = {n: s(f"{n}_{over.get(n, tag)}", "+") for n in ("e1", "e2", "g12", "thickness")}
        v = x.bounded(s(f"v12_{over.get('v12', tag)}"), Q(-1, 2), Q(1, 2))
        al = {n: s(f"{n}_{over.get('allow', tag)}", "0+") for n in ("t1", "c1", "t2", "c2", "s")}
        return x.call(x.get(MAT), p["e1"], p["e2"], v, p["g12"], p["thickness"], **al, name="A")
    return f


def isomat(w, x):
    v = x.bounded(s("v_i"), Q(-1, 2), Q(1, 2))
    return x.call(x.get(ISO), s("e_i", "+"), v, s("g_i", "+"), s("thickness_i", "+"), t=s("t_i", "0+"), c=s("c_i", "0+"), s=s("s_i", "0+"), name="A")


def box(k, f):
    """a shared input container"""
    return lambda w, x: w.given(k, f(w, x))


def lamo(stack, plies):
    return lambda w, x: x.call(x.get(LAM), w(stack), w(plies))


def stro(lam, loads):
    return lambda w, x: x.call(x.get(STR), w(lam), **{k: s(v) for k, v in loads.items()})


def plato(lam, a="a", b="b", cons=None, loads=("Nxx", "Nyy"), tag="", m=2, n=2):
    def f(w, x):
        kw = {} if cons is None else {"constraints": cons if cons.isupper() else w(cons)}
        return x.call(x.get(PLATE), w(lam), s(a, "+"), s(b, "+"), m=num(m), n=num(n), **{k: s(k + tag) for k in loads}, **kw)
    return f


OBJECTS = {
    "p": mat("p"), "q": mat("q"),
    "p thicker": mat("p", thickness="u"), "p stronger": mat("p", allow="u"),
    "iso": isomat,
    "angles": box("angles", lambda w, x: x.it.new_list([s("th0"), s("th1")])),
    "angles array": box("angles array", lambda w, x: x.it.new_arr(arr([s("th0"), s("th1")]))),
    "p+q": box("p+q", lambda w, x: x.it.new_list([w("p"), w("q")])),
    "q+p": box("q+p", lambda w, x: x.it.new_list([w("q"), w("p")])),
    "stronger": box("stronger", lambda w, x: x.it.new_list([w("p stronger"), w("q")])),
    "thicker": box("thicker", lambda w, x: x.it.new_list([w("p thicker"), w("iso")])),
    "xiD": box("xiD", lambda w, x: x.it.new_list([s("xi0"), s("xi1"), s("xi2"), s("xi3")])),
    "xi": box("xi", lambda w, x: x.it.new_dict({"xiD": w("xiD"), "T": s("T", "+")})),
    "xiAD": box("xiAD", lambda w, x: x.it.new_dict({"xiA": x.it.new_arr(arr([s(f"xa{i}") for i in range(4)])), "xiD": w("xiD"), "T": s("T2", "+")})),
    "laminate pq": lamo("angles", "p+q"), "laminate qp": lamo("angles array", "q+p"), "laminate stronger": lamo("angles", "stronger"),
    "laminate thicker": lamo("angles", "thicker"), "laminate xi p": lamo("xi", "p"), "laminate xi q": lamo("xi", "q"), "laminate xiAD iso": lamo("xiAD", "iso"),
    "strength pq 1": stro("laminate pq", {"Nxx": "N1", "Mxy": "M1"}), "strength pq 2": stro("laminate pq", {"Nyy": "N2", "Mxx": "M1"}),
    "strength stronger": stro("laminate stronger", {"Nxx": "N1", "Mxy": "M1"}),
    "edges": box("edges", lambda w, x: mk_constraints(x, {"x0": "PINNED", "xa": ["TZ", "RX"], "y0": "clamped", "yb": ["TX", "TZ"]})),
    "other edges": box("other edges", lambda w, x: mk_constraints(x, {"x0": ["TX", "TZ"], "xa": "free", "y0": ["TZ"], "yb": "PINNED"})),
    "plate": plato("laminate pq"), "plate other loads": plato("laminate pq", tag="'"), "plate other size": plato("laminate pq", a="a'", b="b"),
    "plate edges": plato("laminate pq", cons="edges"), "plate other edges": plato("laminate qp", cons="other edges", m=2, n=3),
    "plate CLAMPED": plato("laminate xi p", cons="CLAMPED"), "plate edges again": plato("laminate xi q", cons="edges", loads=("Nxy",)),
    "loose": box("loose", lambda w, x: x.it.new_list([" yes", "No", "fiber "])),
    "texts": box("texts", lambda w, x: x.it.new_list(["0.10", " 0.2", "1E-1"])),
    "unsorted": box("unsorted", lambda w, x: x.it.new_arr(arr([F.const(90), F.const(-45), F.const(0)]))),
    "midi": box("midi", lambda w, x: x.it.new_list([s("mid0"), s("mid1"), s("mid2")])),
    "ti": box("ti", lambda w, x: x.it.new_list([s("t0"), s("t1"), s("t2")])),
    "sout": box("sout", lambda w, x: x.it.new_list(["PARM1", "FIBER", "NOPARM"])),
    "sequence": box("sequence", lambda w, x: x.it.new_list([s("th0"), s("th1"), s("th2")])),
    "options": box("options", lambda w, x: x.it.new_dict({"maxiter": s("maxiter", "+")})),
}


def reads(o, *names):
    return {f"{o}.{n}": (lambda w, x, n=n: x.attr(w(o), n)) for n in names}


def calls(o, *names, **kw):
    return {f"{o}.{n}()": (lambda w, x, n=n: x.meth(w(o), n, **kw)) for n in names}


def equal(a, b):
    import ast
    return {f"{a} == {b}": lambda w, x: M.cmp(x.it, ast.Eq(), w(a), w(b))}


PLATE_READS = ("a", "b", "m", "n", "Nxx", "Nyy", "Nxy", "constraints")
PROPS = ("ABD", "A", "B", "D", "Q_layup", "T_layup", "z_position", "xiA", "xiD", "stacking", "plies")
GROUPS = {
    "materials": {**reads("p", "e1", "e2", "v12", "v21", "g12", "thickness", "t1", "c1", "t2", "c2", "s", "name", "Q_0"), **reads("p thicker", "thickness", "Q_0"),
                  **reads("q", "Q_0", "v21"), **reads("iso", "e", "v", "g", "thickness", "t", "c", "s", "t1", "c1", "t2", "c2", "name", "Q_0"), **calls("p", "Invariants"), **calls("q", "Invariants"),
                  **calls("p thicker", "Invariants"), **equal("p", "q"), **equal("q", "p"), **equal("p", "p thicker"), **equal("iso", "p"),
                  **reads("laminate pq", "ABD"), **reads("laminate xi q", "D")},
    "laminates": {**reads("laminate pq", *PROPS), **reads("laminate qp", "ABD", "z_position", "xiD", "D", "B"), **reads("laminate thicker", "A", "B", "D", "Q_layup", "T_layup", "xiA"),
                  **reads("laminate xi p", "D", "stacking"), **reads("laminate xi q", "D"), **reads("laminate xiAD iso", "A", "D"),
                  **equal("laminate pq", "laminate qp"), **equal("laminate xi p", "laminate xi q"), **equal("laminate pq", "laminate pq")},
    "strength": {**{k: v for o in ("strength pq 1", "strength pq 2", "strength stronger")
                    for k, v in calls(o, "epsilon0", "calculate_strain", "calculate_stress", *(() if o.endswith("2") else ("calculate_maxstressmargin",))).items()},
                 **reads("laminate pq", "ABD", "Q_layup", "T_layup", "z_position"), **reads("laminate stronger", "z_position", "T_layup")},
    "plates": {**reads("plate edges", *PLATE_READS), **reads("plate other edges", "constraints"), **reads("plate", "constraints"),
               **{k: v for o in ("plate", "plate edges", "plate edges again") for k, v in calls(o, "calc_K_KG_D").items()},
               **calls("plate other edges", "calc_K_KG_D", "calc_K_KG_ABD"), **calls("plate edges", "calc_K_KG_ABD"),
               **{f"{o}.buckling_analysis({k})": (lambda w, x, o=o, k=k: x.meth(w(o), "buckling_analysis", num_eigvalues=num(k)))
                  for o, k in (("plate", 1), ("plate other loads", 2), ("plate other size", 2), ("plate CLAMPED", 2), ("plate other edges", 3))},
               **reads("laminate pq", "ABD", "D"), **reads("laminate xi q", "D")},
}


def seq(text):
    return lambda w, x: x.call(x.get(SEQ), text)


def card(**kw):
    return lambda w, x: x.call(x.get(CARD), w("sequence"), **{k: w(v) if isinstance(v, str) and v in OBJECTS else v for k, v in kw.items()})


GROUPS["bulk data"] = {**{f"build_sequence({t!r})": seq(t) for t in ("[(45/-45)_2/0]s", "[45/-45/0]", "[\\pm30_2/90]s", "45/-45/0")},
                       "build_pcomp(lists)": card(midi="midi", ti="ti", sout="sout"), "build_pcomp(numbers)": card(midi=num(1), ti=num(2), pid=num(3)),
                       "build_pcomp(texts)": card(midi="unsorted", ti="texts", sout="loose"),
                       "build_pcomp(z0)": card(midi="midi", ti=num(2), pid=num(7), z0=num(-1), sout="FIBER")}


def objective(fn, cons, N, free):
    """the value the optimiser sees for a symbolic design"""
    def f(w, x):
        par = {k: sym(k + "_o", "+") for k in PAR if k != "v12"}
        par["v12"] = x.bounded(sym("v12_o"), Q(-1, 2), Q(1, 2))
        kw = {} if cons is None else {"panel_constraint": w(cons)}
        if cons is not None:
            kw["options"] = w("options")
        names = [k for k in PAR if not (fn == MINW and k == "T")]
        n0 = len(x.it.events)
        x.call(x.get(fn), **{k: par[k] for k in names}, **N, m=num(2), n=num(2), **kw)
        e = [e for e in x.it.events[n0:] if e.name == MINIMIZE][-1]
        st = x.it.st
        y = x.it.new_arr(arr([sym(k) for k in free]))
        out = [x.array(e.kwargs["x0"])]
        if fn == MAXB:
            out.append(x.call(e.kwargs["fun"], y))
        else:
            cs = e.kwargs["constraints"]
            for q in (x.items(cs) if not isinstance(cs, Opaque) else [cs]):
                if isinstance(q, Opaque) and q.tag == "NLC":
                    out.append(x.call(q.args[0], y))
        return tuple(out)
    return f


GROUPS["optimisation"] = {
    "maximize_buckling_load": objective(MAXB, None, {"Nxx": F.const(-2), "Nyy": F.const(Q(1, 2))}, ("xi1", "xi3")),
    "maximize_buckling_load(edges)": objective(MAXB, "edges", {"Nxx": F.const(-2), "Nyy": F.const(Q(1, 2))}, ("xi1", "xi3")),
    "minimize_panel_weight": objective(MINW, "other edges", {"Nxy": F.const(3)}, ("xi1", "xi3", "T")),
    "plate edges.buckling_analysis()": lambda w, x: x.meth(w("plate edges"), "buckling_analysis", num_eigvalues=num(2)),
    "plate.buckling_analysis()": lambda w, x: x.meth(w("plate"), "buckling_analysis", num_eigvalues=num(2)),
}

BAD = {
    "a laminate with too few plies": lambda w, x: x.call(x.get(LAM), x.it.new_list([s("th0"), s("th1"), s("th2")]), w("p+q")),
    "a material out of range": lambda w, x: x.call(x.get(MAT), F.const(1), F.const(1), F.const(3), F.const(1), F.const(1)),
    "a plate with an unknown preset": lambda w, x: x.call(x.get(PLATE), w("laminate pq"), F.ONE, F.ONE, constraints="NONE"),
    "a card with too few materials": lambda w, x: x.call(x.get(CARD), w("sequence"), x.it.new_list([F.ONE, F.ONE]), F.ONE),
    "a sequence with unbalanced brackets": lambda w, x: x.call(x.get(SEQ), "[45/(30/0"),
}


def check():
    c = Check("P28", "heap snapshots across call histories: every public read and call of a world of objects that share materials, laminates, lists, arrays and dictionaries (same names, same "
              "angles, one constant different) is evaluated in a world holding only what it needs and then after every other one, after itself, after failing calls, after all of them in "
              "both orders; each result must be the same symbolic value, and every container handed in, every object's public data and every earlier result must be unchanged")
    c.min_obs = 800
    allow = (lambda st, e: "Arpack" in repr(e))
    order = list(OBJECTS)

    def observe(x, w, name, f, quiet=False):
        v, alive, exc = x.it.run(lambda: f(w, x))
        if not alive:
            return ("raises", sorted({repr(e.cls) for _, e in exc})), None
        return snap(x, v), v

    def world(x, names):
        w = World(x)
        for path in (MAT, LAM, PLATE, STR, SEQ, CARD, MAXB):
            x.get(path)
        for k in names:
            w(k)
        return w

    for gname, obs in GROUPS.items():
        label = gname
        if os.environ.get("P28_TIME"):
            print(gname, time.time() - c.t0, c.obs, flush=True)
        # what each observation gives on its own
        ref, at = {}, {}
        ok = True
        for name, f in obs.items():
            x = Ctx()
            try:
                def alone():
                    w = World(x)
                    return snap(x, f(w, x))
                v, alive, exc = c.run(x, f"{name} on its own", alone, allowed=allow)
                ref[name] = v
            except Skip:
                ok = False
        x = Ctx()
        w, _, _ = c.run(x, f"{label}: the world", lambda: world(x, order))
        rw, _, _ = None, None, None
        base = x.it.st
        given = {k: snap(x, v) for k, v in w.inputs.items()}

        def unchanged(hist):
            for k, v in w.inputs.items():
                d = differ(x, snap(x, v), given[k], k)
                c.ob(not d, f"{label}: {k} after {hist}", "; ".join(d[:2]), site(hist))

        def site(hist):
            last = hist.split(", then ")[-1].split("(")[0]
            return where_obs(x, w, last)

        def same(name, v, hist):
            d = differ(x, v, ref[name])
            und = bool(d) and all("undecided" in q for q in d)
            c.ob(not d, f"{label}: {name} after {hist}", "; ".join(d[:2]), site(name), undecided=und)

        names = [n for n in obs if n in ref]
        for n1 in names:
            try:
                x.it.st = base.clone()
                s1, r1 = observe(x, w, n1, obs[n1])
                same(n1, s1, "construction of all objects")
                unchanged(n1)
                after1 = x.it.st
                for n2 in names:
                    x.it.st = after1.clone()
                    s2, r2 = observe(x, w, n2, obs[n2])
                    same(n2, s2, n1)
                    if r1 is not None:
                        d = differ(x, snap(x, r1), s1)
                        c.ob(not d, f"{label}: result of {n1} after {n2}", "; ".join(d[:2]), site(n2))
                    if given_changed(x, w, given):
                        unchanged(f"{n1}, then {n2}")
            except Limit as e:
                c.ob(False, f"{label}: after {n1}", f"analysis limit: {e}", undecided=True)
        # long histories
        for how, seqn in (("all in order", names + names), ("all in reverse order", names[::-1] + names[::-1])):
            try:
                x.it.st = base.clone()
                keep = []
                for n in seqn:
                    s1, r1 = observe(x, w, n, obs[n])
                    same(n, s1, f"{how} up to it")
                    if r1 is not None:
                        keep.append((n, s1, r1))
                for n, s1, r1 in keep:
                    d = differ(x, snap(x, r1), s1)
                    c.ob(not d, f"{label}: result of {n} after {how}", "; ".join(d[:2]), site(n))
                unchanged(f"{how}")
            except Limit as e:
                c.ob(False, f"{label}: {how}", f"analysis limit: {e}", undecided=True)
        # failing calls in between
        try:
            x.it.st = base.clone()
            for b, f in BAD.items():
                _, alive, exc = x.it.run(lambda: f(w, x))
                if not alive and exc:
                    x.it.st = exc[0][0]
            for n in names:
                s1, _ = observe(x, w, n, obs[n])
                same(n, s1, "failing calls")
            unchanged("failing calls")
        except Limit as e:
            c.ob(False, f"{label}: failing calls", f"analysis limit: {e}", undecided=True)
        # objects built in the opposite order
        x = Ctx()
        try:
            w, _, _ = c.run(x, f"{label}: the world in reverse", lambda: world(x, order[::-1]))
            base = x.it.st
            for n in names:
                x.it.st = base.clone()
                s1, _ = observe(x, w, n, obs[n])
                same(n, s1, "construction of all objects in reverse order")
        except (Skip, Limit):
            pass
        c.use(x, label)
    edge_contents(c)
    c.assumptions.append("histories are explored pairwise, in two total orders repeated twice, and after failing calls; a container changed by its owner after it was handed over is outside the property")
    return c


DOFS = ("TX", "TY", "TZ", "RX", "RY", "RZ")


def edge_contents(c):
    """the caller's lists of suppressed freedoms, with every content in several orders, analysed twice"""
    from itertools import combinations
    label = "contents of the edges"
    x = Ctx()
    c.use(x, label)
    try:
        lam, _, _ = c.run(x, label, lambda: lam2(x))
        x.get(PLATE)
        base = x.it.st
        subsets = [list(t) for r in range(7) for t in combinations(DOFS, r)]
        for i, t in enumerate(subsets):
            for how, u in (("in order", t), ("reversed", t[::-1]), ("rotated", t[1:] + t[:1]), ("twice", t + t)):
                if len(t) < 2 and how != "in order" or how == "twice" and i % 5:
                    continue
                x.it.st = base.clone()
                o = subsets[(i * 7 + 3) % 64]
                names = dict(zip(EDGES[i % 4:] + EDGES[:i % 4], (u, o, "Clamped", u[::-1])))
                d = x.it.new_dict({k: x.it.new_list(list(names[k])) if isinstance(names[k], list) else names[k] for k in EDGES})
                lists = {k: x.it.cell(d).d[k] for k in EDGES}

                def act():
                    p = x.call(x.get(PLATE), lam.ref, F.const(2), F.const(3), d, F.const(-1), m=num(1), n=num(1))
                    x.meth(p, "calc_K_KG_D")
                    x.meth(p, "calc_K_KG_ABD")
                    return p
                x.it.run(act)
                now = snap(x, d)
                want = ("dict", {k: ("list", list(names[k])) if isinstance(names[k], list) else names[k] for k in EDGES})
                bad = differ(x, now, want, "constraints") or [f"{k} replaced" for k in EDGES if x.it.cell(d).d[k] is not lists[k] and isinstance(names[k], list) and x.it.cell(d).d[k] != lists[k]]
                c.ob(not bad, f"{label}: {' '.join(u) or 'none'} at {EDGES[i % 4]}", "; ".join(bad[:2]), member(x, PLATE, "_compute_constraints"))
    except Skip:
        pass


def given_changed(x, w, given):
    return any(differ(x, snap(x, v), given[k], k) for k, v in w.inputs.items())


def where_obs(x, w, name):
    m = name.rpartition(".")
    o = m[0].strip() or name
    try:
        r = w.o.get(o)
        if isinstance(r, Ref) and isinstance(x.it.cell(r), V.ObjC):
            return pos(x, x.it.class_lookup(x.it.cell(r).cls, m[2])) or name
    except Exception:      # noqa
        pass
    return name


from sa.interp import Limit      # noqa
