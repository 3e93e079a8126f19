"""P24: load normalisation and warnings of the optimisation functions."""
from checks.opt_ import *
from checks.p22 import base_pos

WPAR = ("a", "b", "E1", "E2", "v12", "G12")


def check():
    c = Check("P24", "the loads are symbolic within each cell of the arrangement of their signs, mutual orders and comparison with one (all cells are analysed): in every "
              "cell each warning is either always or never issued, as the property says, and the geometric matrix of the panel the optimiser analyses is that of "
              "the loads over the largest one in absolute value")
    c.min_obs = 1000
    cl = cells()
    c.counts["cells"] = len(cl)
    order = set()
    kinds = {}
    x = Ctx()
    for fn, names in ((MAXB, PAR), (MINW, WPAR)):
        at = base_pos(x, fn)
        par, _, _ = c.run(x, f"{fn}: arguments", lambda: panel_par(x))
        N = [sym(k) for k in LOADS]
        y3 = [sym("T", "+"), sym("xi1"), sym("xi3")]
        y = x.it.new_arr(arr(y3[1:] if fn == MAXB else y3))
        base = x.it.st.clone()
        for k, p in cl.items():
            x.it.st = base.clone()
            label = f"{fn.split(':')[1]}, {cell_text(p)}"
            try:
                assume_cell(x, N, k)
                n0 = len(x.it.events)
                c.run(x, f"{label}: call", lambda: x.call(x.get(fn), *[par[q] for q in names], Nxx=N[0], Nyy=N[1], Nxy=N[2], m=num(2), n=num(2)))
                pc = x.it.st.pc
                warn = [e for e in x.it.events[n0:] if e.name == "warnings.warn" and G.AND(pc, e.pc) is not False]
                for e in warn:
                    if not G.implies(pc, e.pc):
                        c.ob(False, f"{label}: warning", f"issued only when {G.show(e.pc)[:300]}", f"{e.where} in {e.fn}", undecided=True)
                want = int(p[0] >= 0 and p[1] >= 0 and p[2] == 0) + int(any(abs(q) > 1 for q in p))
                c.ob(len(warn) == want, f"{label}: number of warnings", f"{len(warn)} warnings {[(e.where, show(e.args[0], 60)) for e in warn]}, {want} expected", at)
                texts = {text(e.args[0]) for e in warn}
                kinds.setdefault((fn, p[0] >= 0 and p[1] >= 0 and p[2] == 0, any(abs(q) > 1 for q in p)), set()).update(texts)
                c.ob(len(texts) == len(warn), f"{label}: warnings are different", f"{texts}", at)
                ok = k[:9]
                if (fn, ok) in order:
                    continue
                order.add((fn, ok))
                e = the_minimize(c, x, label, n0, None, at)
                Nn, mx = normalised(N, p)
                P, _, _ = c.run(x, f"{label}: panel", lambda: panel(x, par, par["T"] if fn == MAXB else y3[0], y3[1], y3[2], Nn, "PINNED", 2, 2))
                t = matrices(c, x, label, Plate(P, None, None, None, None, None, 2, 2), "calc_K_KG_D", at)
                KG = x.array(t[1])
                n1 = len(x.it.events)
                if fn == MAXB:
                    c.run(x, f"{label}: objective", lambda: x.call(e.kwargs["fun"], y))
                else:
                    for f, lb, ub in expand(c, x, label, constraints(c, x, label, e, 3, at), y3, at):
                        if not isinstance(f, Form):
                            value_at(c, x, label, f, y, at)
                es = [q for q in x.it.events[n1:] if q.name in EIG]
                c.ob(len(es) == 1, f"{label}: a panel is analysed", f"{len(es)} analyses", at)
                for q in es[:1]:
                    c.ob(mesh(x, q.args[0], KG) is not None, f"{label}: normalised loads", diff_text(x, q.args[0], KG), at)
            except Skip:
                pass
        x.it.st = base
        a, b, ab = (kinds.get((fn, q, r), set()) for q, r in ((True, False), (False, True), (True, True)))
        c.ob(not a & b and ab == a | b, f"{fn}: each warning has its own reason", f"no buckling load: {a}; not normalised: {b}; both: {ab}", at)
    c.contexts = [f"{len(cl)} cells of the load space, each for both functions"]
    return c


def text(v):
    s = show(v, 60)
    return s[:40]
