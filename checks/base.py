"""Common machinery of the checks: analysis contexts, comparison against oracles, reporting."""
import json
import os
import sys
import time
import numpy as np
from sa import forms as F
from sa import guards as G
from sa import values as V
from sa import models as M
from sa import equal as E
from sa.forms import Form
from sa.interp import Interp, Dead, Limit
from sa.values import (Phi, Ref, Unk, Cond, ArrC, ViewC, ListC, IterC, DictC, SeriesC, FrameDFC, Opaque, StrV, mk_phi, narrow,
                       identical)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(ROOT, "known-findings.txt")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Broken(Exception):
    """the analysis has no answer"""


# ---------------------------------------------------------------- values

def sym(name, sign=None):
    f = F.sym(name)
    if sign == "+":
        G.declare_positive(f)
    elif sign == "0+":
        G.declare_nonneg(f)
    return f


def num(x):
    return F.const(x) if not isinstance(x, Form) else x


def arr(x):
    """object array of forms"""
    a = np.array(x, dtype=object)
    for i in np.ndindex(a.shape):
        if not isinstance(a[i], (Form, Phi, Unk, Cond, str)):
            a[i] = num(a[i])
    return a


def matmul(a, b):
    return np.dot(a, b)


class Diff:
    def __init__(self, path, guard, got, want, undecided=False):
        self.path, self.guard, self.got, self.want, self.undecided = path, guard, got, want, undecided

    def text(self):
        return f"{self.path}: got {show(self.got)}, expected {show(self.want)}" + (
            f", when {G.show(self.guard)[:600]}" if self.guard is not True else "")


def show(v, n=400):
    if isinstance(v, Form):
        s = F.show(v, 6)
    elif isinstance(v, Phi):
        s = "{" + "; ".join(f"{G.show(g)[:120]} -> {show(x, 150)}" for g, x in v.alts[:4]) + "}"
    else:
        s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def at_zero(f, zeros):
    """f where the forms `zeros` vanish, as array arithmetic evaluates it (division by +0)"""
    mp = {}
    for a in f.atoms():
        if a.kind == "inv":
            for z in zeros:
                if proportional(a.args[0], z):
                    mp[a] = V.INF
    return V.inf_norm(F.subst(f, mp)) if mp else f


def proportional(f, z):
    P = F.PRIME
    a, b, c, d = F.fp(f, 0), F.fp(f, 1), F.fp(z, 0), F.fp(z, 1)
    return (a * d - b * c) % P == 0 and F.rational(a * pow(c, P - 2, P) % P) is not None if c and d else False


def same_under(a, b, g):
    if F.same(a, b):
        return True
    zs = G.zero_forms(g)
    if zs:
        a2, b2 = at_zero(a, zs), at_zero(b, zs)
        if (a2 is not a or b2 is not b) and F.same(a2, b2):
            return True
    return E.same_where(a, b, g)


class Ctx:
    """one analysis context: a fresh interpreter over the current source"""

    def __init__(self, classify=True, assume=True):
        self.it = Interp(REPO)
        self.it.classify_tables = classify
        self.mods = {}
        self.label = ""

    def mod(self, name):
        m = self.mods.get(name)
        if m is None:
            v, alive, exc = self.it.run(lambda: self.it.load(name))
            if not alive:
                raise Broken(f"module {name} does not load: {exc[:1]}")
            m = self.mods[name] = v
        return m

    def get(self, path):
        """'package.module:attr.attr'"""
        mod, _, attrs = path.partition(":")
        try:
            v = self.mod(mod)
        except Limit as e:
            raise Broken(f"module {mod}: {e}")
        for a in [a for a in attrs.split(".") if a]:
            r, alive, exc = self.it.run(lambda: self.it.getattr(v, a))
            if not alive:
                raise Broken(f"{path} not found")
            v = r
        return v

    # construction / calls
    def call(self, fn, *args, **kw):
        return self.it.call(fn, list(args), kw)

    def attr(self, o, name):
        return self.it.getattr(o, name)

    def meth(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), list(args), kw)

    def lst(self, xs):
        return self.it.new_list([num(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x for x in xs])

    def assume(self, g):
        self.it.st.pc = G.AND(self.it.st.pc, g)

    def bounded(self, f, lo, hi):
        if lo is not None:
            self.assume(G.NOT(G.lt0(f - num(lo))))
        if hi is not None:
            self.assume(G.NOT(G.lt0(num(hi) - f)))
        return f

    # extraction
    def items(self, v):
        v = narrow(v)
        if isinstance(v, Ref) and isinstance(self.it.cell(v), (ArrC, ViewC)):
            return self.it.iterate(v)
        r = self.it.iterate(v)
        return r

    def array(self, v):
        if isinstance(v, np.ndarray):
            return v
        v = narrow(v)
        if isinstance(v, Phi):
            outs = [(g, self.array(x)) for g, x in v.alts]
            if all(isinstance(x, np.ndarray) for _, x in outs) and len({x.shape for _, x in outs}) == 1:
                r = np.empty(outs[0][1].shape, dtype=object)
                for i in np.ndindex(r.shape):
                    r[i] = mk_phi([(g, x[i]) for g, x in outs])
                return r
            return Unk("array of several shapes")
        return M.to_array(self.it, v)

    def frame(self, v):
        v = narrow(v)
        c = self.it.cell(v) if isinstance(v, Ref) else v
        return c if isinstance(c, FrameDFC) else None

    # comparison
    def compare(self, got, want, path="result", g=None, out=None):
        """differences between an abstract value and the oracle's value"""
        out = [] if out is None else out
        if g is None:
            g = self.it.st.pc
        if len(out) > 20:
            return out
        if isinstance(got, Phi):
            for h, v in got.alts:
                gh = G.AND(g, h)
                if gh is not False:
                    self.compare(v, want, path, gh, out)
            return out
        if isinstance(want, Phi):
            for h, v in want.alts:
                gh = G.AND(g, h)
                if gh is not False:
                    self.compare(got, v, path, gh, out)
            return out
        if isinstance(got, Unk):
            out.append(Diff(path, g, got, want, True))
            return out
        if isinstance(want, np.ndarray):
            a = got if isinstance(got, np.ndarray) else M.to_array(self.it, got) if isinstance(got, (Ref, tuple)) else got
            if isinstance(a, Unk):
                out.append(Diff(path, g, a, "array", True))
            elif not isinstance(a, np.ndarray) or a.shape != want.shape:
                out.append(Diff(path, g, got if not isinstance(a, np.ndarray) else f"array of shape {a.shape}",
                                f"array of shape {want.shape}"))
            else:
                for i in np.ndindex(want.shape):
                    self.compare(a[i], want[i], f"{path}{list(i)}", g, out)
            return out
        if isinstance(want, (list, tuple)):
            if isinstance(got, (list, np.ndarray)):
                items = list(got)
            elif isinstance(got, (Ref, tuple)):
                items = self.it.iterate(got)
            else:
                items = None
            if isinstance(items, Unk):
                out.append(Diff(path, g, items, "sequence", True))
            elif items is None or len(items) != len(want):
                out.append(Diff(path, g, got if items is None else f"{len(items)} items", f"{len(want)} items"))
            else:
                for i, (x, y) in enumerate(zip(items, want)):
                    self.compare(x, y, f"{path}[{i}]", g, out)
            return out
        if isinstance(want, Form) or isinstance(want, (int, float)) and not isinstance(want, bool):
            want = num(want)
            x = got
            if isinstance(x, Ref) or isinstance(x, np.ndarray):
                a = M.to_array(self.it, x) if isinstance(x, Ref) else x
                if isinstance(a, np.ndarray) and a.size == 1:
                    return self.compare(a.reshape(-1)[0], want, path, g, out)
            if isinstance(x, bool):
                x = F.const(int(x))
            if isinstance(x, Cond):
                return self.compare(mk_phi([(x.b, F.ONE), (G.NOT(x.b), F.ZERO)]), want, path, g, out)
            if isinstance(x, Opaque):
                x = V._opaque_num(x)
            if not isinstance(x, Form):
                out.append(Diff(path, g, got, want))
            elif not same_under(x, want, g):
                out.append(Diff(path, g, x, want))
            return out
        if isinstance(want, bool):
            b = self.it.truth(got) if isinstance(got, (Cond, bool)) else None
            if b is None:
                out.append(Diff(path, g, got, want))
            else:
                bad = G.AND(g, G.NOT(b) if want else b)
                if bad is not False:
                    out.append(Diff(path, bad, not want, want))
            return out
        if not identical(got, want):
            out.append(Diff(path, g, got, want))
        return out


# ---------------------------------------------------------------- a property's check

ENOUGH = 200 if TIER == "quick" else 3000       # a check which has found a violation by then looks no further
STEP, TOTAL = (240, 700) if TIER == "quick" else (1200, 10000)
CURRENT = []


class Enough(BaseException):
    """a violation is established and the time is better spent otherwise"""


class Check:
    def __init__(self, pid, rule):
        CURRENT.append(self)
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.obs = 0
        self.ok = 0
        self.viol = []       # (key, construct, text)
        self.undecided = []
        self.functions = {}
        self.modules = set()
        self.contexts = []
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.min_obs = 1
        self.step = None

    # one obligation
    def ob(self, ok, key, text="", construct="", undecided=False):
        self.obs += 1
        if undecided:
            self.undecided.append((key, text))
        elif ok:
            self.ok += 1
            if len(self.samples) < 12 and (not self.samples or self.samples[-1].split(":")[0] != key.split(":")[0]):
                self.samples.append(f"{key}: {text}"[:300] if text else key)
        else:
            self.viol.append((key, construct, text))
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def use(self, ctx, label):
        it = ctx.it
        for f, n in it.functions_seen.items():
            self.functions[f] = self.functions.get(f, 0) + n
        for m, mv in it.modules.items():
            p = getattr(mv, "path", None)
            if p:
                self.modules.add(os.path.relpath(p, REPO))
        if label not in self.contexts:
            self.contexts.append(label)

    def no_raise(self, ctx, exc, label, allowed=None):
        """no exception escapes for inputs in the assumed domain"""
        bad = 0
        for s, e in exc:
            if allowed is not None and allowed(s, e):
                continue
            bad += 1
            self.ob(False, f"{label}:raises", f"{label}: raises {e!r} when {G.show(s.pc)[:500]}",
                    f"{getattr(e, 'where', '?')} in {getattr(e, 'fn', '?')}")
        if not bad:
            self.ob(True, f"{label}:no exception", "no exception escapes for inputs in the domain")
        return not bad

    def start(self):
        """a step gets STEP seconds, all of them together TOTAL: what does not end by then is undecided"""
        left = TOTAL - (time.time() - self.t0)
        if self.new_violations():
            if left < TOTAL - ENOUGH:
                raise Enough()
            left = min(left, left - TOTAL + ENOUGH)
        if left < 0:
            self.ob(False, "time", "the analysis exceeds the time allotted", undecided=True)
            raise Skip()
        G.budget(min(self.step or STEP, left + 20))

    def new_violations(self):
        known = {k["key"] for k in load_known(self.pid)} - {""}
        return [v for v in self.viol if not known & {v[0], v[1]}]

    def eq(self, ctx, got, want, label, construct=""):
        self.start()
        try:
            d = ctx.compare(got, want, label)
        except Limit as e:
            self.ob(False, label, f"analysis limit: {e}", construct, undecided=True)
            raise Skip()
        finally:
            G.budget(None)
        n = size(want)
        und = [x for x in d if x.undecided]
        bad = [x for x in d if not x.undecided]
        self.obs += max(0, n - 1)
        self.ok += max(0, n - 1 - len(d) + (1 if d else 0))
        if bad:
            self.ob(False, label, "; ".join(x.text() for x in bad[:3]), construct)
        elif und:
            self.ob(False, label, und[0].text(), construct, undecided=True)
        else:
            self.ob(True, label, f"{n} values agree with the oracle")
        return not d

    def run(self, ctx, label, thunk, want_exc=False, allowed=None):
        """evaluate a thunk abstractly; returns (value, alive, exceptions)"""
        self.start()
        try:
            v, alive, exc = ctx.it.run(thunk)
        except Limit as e:
            self.ob(False, label, f"analysis limit: {e}", undecided=True)
            self.use(ctx, label)
            raise Skip()
        finally:
            G.budget(None)
        self.use(ctx, label)
        if not want_exc:
            exc = [(s, e) for s, e in exc if s.pc is not False]
            ok = self.no_raise(ctx, exc, label, allowed)
            if not alive:
                if ok:
                    self.ob(False, label, "never returns", undecided=True)
                raise Skip()
        return v, alive, exc

    # final report
    def finish(self):
        known = load_known(self.pid)
        new, old = [], []
        for key, construct, text in self.viol:
            k = next((x for x in known if x["key"] and x["key"] in (key, construct)), None)
            (old if k else new).append((key, construct, text, k))
        wall = time.time() - self.t0
        broken = None
        if self.obs < self.min_obs:
            broken = f"only {self.obs} obligations were generated, at least {self.min_obs} expected"
        elif self.undecided and not new:
            broken = f"{len(self.undecided)} obligations undecided, e.g. {self.undecided[0][0]}: {self.undecided[0][1]}"[:1500]
        ev = {
            "property": self.pid, "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": self.obs, "discharged": self.ok,
                "contexts": len(self.contexts), "context_labels": self.contexts[:60],
                "functions_analysed": len(self.functions),
                "functions": {k: v for k, v in sorted(self.functions.items())[:80]},
                "files": sorted(self.modules),
                "samples": self.samples or ["(none)"],
                "undecided": [f"{a}: {b}"[:300] for a, b in self.undecided[:10]],
                "known_findings_seen": [x[0] for x in old],
                **self.counts},
            "assumptions": self.assumptions + BASE_ASSUMPTIONS,
            "wall_s": round(wall, 3), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        seen = set()
        for key, construct, text, k in old:
            if k["key"] not in seen:
                seen.add(k["key"])
                print(f"KNOWN-FINDING: property={self.pid} {k['text']}")
        if new:
            rp = os.path.join(ROOT, "evidence", f"{self.pid}.report.txt")
            with open(rp, "w") as f:
                for key, construct, text, _ in new:
                    f.write(f"property {self.pid}\nobligation: {key}\nconstruct: {construct}\n{text}\n\n")
            for key, construct, text, _ in new[:8]:
                print(f"  {key}\n    at {construct or '?'}\n    {text[:1200]}")
            print(f"{self.obs} obligations, {self.ok} discharged, {len(new)} violations, {wall:.1f} s")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if broken:
            print(f"ANALYSIS-BROKEN property={self.pid}: {broken}")
            return 2
        print(f"property {self.pid}: {self.obs} obligations discharged over {len(self.contexts)} contexts, "
              f"{len(self.functions)} functions analysed, {wall:.1f} s")
        return 0


def exc_is(e, base):
    """the exception instance belongs to a builtin class (or one derived from it)"""
    cs = e.cls.mro() if isinstance(e.cls, V.ClassV) else [e.cls]
    return any(getattr(k, "py", None) is not None and issubclass(k.py, base) for k in cs)


class Skip(Exception):
    """this context cannot be continued (already reported)"""


BASE_ASSUMPTIONS = [
    "arithmetic is over the reals (floating-point rounding is not modelled), NaN inputs are outside the domain",
    "numpy, scipy, pandas and the standard library behave as their documentation says (modelled, not analysed)",
    "algebraic identity is decided by value numbering with fingerprints at two random points of a 61-bit prime field",
]


def size(x):
    if isinstance(x, np.ndarray):
        return x.size
    if isinstance(x, (list, tuple)):
        return sum(size(y) for y in x) or 1
    return 1


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if not ln.startswith("known: "):
                continue
            # known: property=<id> key=<<key>> text
            head, _, rest = ln[len("known: "):].partition(" key=<<")
            key, _, text = rest.partition(">> ")
            if head == f"property={pid}":
                out.append({"key": key, "text": text})
    return out


# ---------------------------------------------------------------- source positions

def where_def(ctx, path):
    """file:line of a function, class or property of the repository"""
    try:
        v = ctx.get(path)
    except Broken:
        return path
    return pos(ctx, v) or path


def pos(ctx, v):
    if isinstance(v, V.PropV):
        v = v.fget
    if isinstance(v, V.Bound):
        v = v.fn
    if isinstance(v, (V.FnV, V.ClassV)) and getattr(v, "node", None) is not None:
        return f"{os.path.relpath(v.module.path, REPO)}:{v.node.lineno} {v.qualname}"
    return None


def member(ctx, cls, name):
    """construct text of a class member (resolved through the class's bases)"""
    try:
        c = ctx.get(cls)
        v = ctx.it.class_lookup(c, name) if isinstance(c, V.ClassV) else None
        return pos(ctx, v) or f"{cls}.{name}"
    except Exception:      # noqa
        return f"{cls}.{name}"
