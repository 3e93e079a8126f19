"""P25: expansion of stacking strings."""
import itertools
from checks.base import *
from fractions import Fraction as Q

SEQ = "composipy.nastranapi:build_sequence"


def tok(name):
    f = sym(name)
    return M.new_token(f), f


class Lit:
    """numerals written out"""

    def __init__(self):
        self.i = 0
        self.pool = ["45", "-45", "0", "90", "22.5", "-30.25", "60", "-7", "15", "-60", "5.0", "33", "-12.75", "80", "-90", "135", "-0.5", "180", "360", "+30", ".5", "7.", "007", "1e1", "-90.0", "0.0", "-720", "89.9999"]

    def __call__(self):
        t = self.pool[self.i % len(self.pool)]
        self.i += 1
        return t, F.const(Q(t))


class Sym:
    """symbolic numerals, all distinct; every other one with a minus sign in front"""

    def __init__(self):
        self.i = 0

    def __call__(self):
        t, f = tok(f"angle{self.i}")
        self.i += 1
        return ("-" + t, f * -1) if self.i % 3 == 0 else (t, f)


def unit(n, pm=False, rep=None, brace=False):
    t, f = n()
    text = ("\\pm" if pm else "") + t + ("" if rep is None else f"_{{{rep}}}" if brace else f"_{rep}")
    return text, ([f, f * -1] if pm else [f]) * (1 if rep is None else rep)


def block(n, parts, rep, brace=False):
    us = [unit(n, *p) for p in parts]
    return "(" + "/".join(u[0] for u in us) + ")" + (f"_{{{rep}}}" if brace else f"_{rep}"), [x for u in us for x in u[1]] * rep


UNITS = [(False, None), (True, None), (False, 2), (True, 2), (False, 3, True), (True, 1, True), (False, 1), (True, 3), (False, 12, True), (True, 10), (False, 11)]
BLOCKS = [([(False, None)], 1), ([(False, None)], 3, True), ([(True, None)], 2), ([(False, None), (False, None)], 2),
          ([(False, None), (True, None)], 3, True), ([(True, 2), (False, None)], 2), ([(False, 2), (True, 1, True), (False, None)], 2),
          ([(False, 3, True), (False, None), (True, None), (False, None)], 10), ([(False, None), (False, None), (False, None)], 1, True)]
COUNTS = [0, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 24, 25, 30, 32, 48, 50, 64, 99, 100, 101, 128, 200, 256, 1000] if THOROUGH else [4, 5, 7, 9, 11, 13, 20, 25, 32, 50, 100]
WRAPS = [("bare", "%s", False), ("brackets", "[%s]", False), ("symmetric", "[%s]s", True), ("symmetric", "[%s]S", True), ("spaces around", "  [%s]s ", True)]


def elements(n, spec):
    out = []
    for s in spec:
        out.append(block(n, *s) if isinstance(s[0], list) else unit(n, *s))
    return out


def shapes():
    """the group structures analysed"""
    every = UNITS + BLOCKS
    out = [[e] for e in every]
    out += [list(p) for p in itertools.product(every, repeat=2)]
    few = [(False, None), (True, None), (True, 2), (False, 3, True), ([(False, None), (True, None)], 2), ([(False, 2)], 3, True)]
    out += [list(p) for p in itertools.product(few, repeat=3)]
    if THOROUGH:
        out += [list(p) for p in itertools.product(every, repeat=3)]
        out += [list(p) for p in itertools.product(few, repeat=4)]
    for k in COUNTS:
        for b in (False, True):
            for e in ((False, k, b), (True, k, b), ([(False, None)], k, b), ([(False, None), (True, 2)], k, b), ([(False, k, b), (False, None)], 2)):
                out += [[e], [(False, None), e, (True, None)]]
    out += [[every[(i * k + j) % len(every)] for i in range(n)] for n in (5, 8, 12) for k, j in ((1, 0), (3, 1), (7, 2), (9, 5))]
    return out


def check():
    c = Check("P25", "abstract interpretation of the string expansion; every string of the enumerated group structures is analysed with symbolic numerals (an angle may be any "
              "number) and with written-out ones, the result must be exactly the denoted list of angles")
    c.min_obs = 2000
    x = Ctx()
    fn = x.get(SEQ)
    at = pos(x, fn)
    base = None
    soft = 0
    for j, spec in enumerate(shapes()):
        for mode, N in (("symbolic angles", Sym), ("written-out angles", Lit)):
            for k, (wname, wrap, mirror) in enumerate(WRAPS):
                if len(spec) > 1 and mode == "written-out angles" and (j + k) % 4:
                    continue
                if len(spec) > 2 and (j + k) % 3 and not THOROUGH:
                    continue
                els = elements(N(), spec)
                sep = "/" if (j + k) % 5 else " / "
                text = wrap % sep.join(e[0] for e in els)
                want = [v for e in els for v in e[1]]
                if mirror:
                    want = want + want[::-1]
                label = f"{wname}, {mode}: {M._tokname(text)}"
                nu = len(c.undecided)
                try:
                    r, alive, exc = c.run(x, f"strings, {mode}", lambda: x.call(fn, text), want_exc=True)
                    if exc or not alive:
                        c.ob(False, label + ": raises", f"raises {exc[0][1] if exc else '?'!r}", at)
                        continue
                    c.eq(x, r, want, label, at)
                    c.count("strings")
                except Skip:
                    pass
                if mode == "symbolic angles" and len(c.undecided) > nu:
                    # the written-out strings decide
                    soft += len(c.undecided) - nu
                    del c.undecided[nu:]
                if len(c.viol) > 40:
                    return c
    c.counts["symbolic strings left to the written-out ones"] = soft
    # groups that are not of the notation
    for bad in ("x", "45_2_3", "\\pm", "[0/a/90]s", "0/90_x", "(0/y)_2", "0//90", "(0/90)_z"):
        label = f"not in the notation: {bad}"
        try:
            r, alive, exc = c.run(x, "strings out of the notation", lambda: x.call(fn, bad), want_exc=True)
            c.ob(not alive and all(exc_is(e, ValueError) for _, e in exc) and bool(exc), label, "must raise ValueError" if alive or not exc else
                 f"raises {exc[0][1]!r}", at)
        except Skip:
            pass
    return c
