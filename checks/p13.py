"""P13: every pre-integrated product of shape functions is the exact integral, at every pair of orders."""
from checks.base import *
from sa import tables as T

MOD = "composipy.pre_integrated_component.functions"
LOOKUPS = {"ii_ff": (0, 0), "ii_fxi_f": (1, 0), "ii_f_fxi": (0, 1), "ii_fxi_fxi": (1, 1), "ii_fxixi_f": (2, 0),
           "ii_f_fxixi": (0, 2), "ii_fxixi_fxi": (2, 1), "ii_fxi_fxixi": (1, 2), "ii_fxixi_fxixi": (2, 2)}
N = 30


def check():
    c = Check("P13", "constant propagation of each lookup function at every pair of orders (i, k), 0 <= i, k < 30, down to "
              "the literal table entries in the source; the folded value is compared with the exact rational integral over "
              "(-1, 1) of the named derivatives of the Bardell functions (relative tolerance 1e-10, absolute 1e-8 where the "
              "exact value is 0)")
    x = Ctx(classify=False)
    c.min_obs = 9 * N * N
    for name, (d1, d2) in LOOKUPS.items():
        fn = x.get(f"{MOD}:{name}")
        at = pos(x, fn) or name
        for i in range(N):
            for k in range(N):
                c.count("table entries folded")
                try:
                    v, alive, exc = x.it.run(lambda: x.call(fn, (num(i), num(k))))
                except Limit as e:
                    c.ob(False, f"{name}({i},{k})", str(e), undecided=True)
                    continue
                want = T.integral(i, d1, k, d2)
                key = f"{name}: order pair ({i}, {k})"
                if not alive or [e for s, e in exc]:
                    c.ob(False, key, f"raises {[e for _, e in exc][:1]}; the orders 0..29 are tabulated", at)
                    # continue from a live state
                    x.it.st.pc = True
                    continue
                v = V._num(v) if not isinstance(v, Form) else v
                k0 = v.const() if isinstance(v, Form) else None
                if k0 is None:
                    c.ob(False, key, f"value {show(v)} is not a constant", at, undecided=isinstance(v, Unk))
                else:
                    c.ob(T.close(k0, want), key, f"{float(k0):.17g} in the source, exact {want} = {float(want):.17g}", at)
    c.use(x, "all order pairs of the nine lookups")
    return c
