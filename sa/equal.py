"""Equality of forms under a guard: the equalities a guard implies are solved, case by case, and substituted."""
from . import forms as F
from . import guards as G
from . import values as V
from .forms import Form, Fraction

MAX_CASES = 12
_memo = {}
NONE = [{}]


def _bare(z, a):
    """a occurs in z only as itself, to the first power"""
    for m in z.t:
        for b, e in m:
            if b is a:
                if e != 1:
                    return False
            elif a in F.Form({((b, 1),): Fraction(1)}).atoms():
                return False
    return True


def _factors(z):
    """(atoms common to all the terms, the rest)"""
    low = None
    for m in z.t:
        d = dict(m)
        low = d if low is None else {a: min(e, d.get(a, 0)) for a, e in low.items()}
    low = {a: e for a, e in (low or {}).items() if e > 0}
    if not low:
        return [], z
    inv = F.Form({tuple(sorted(((a, -e) for a, e in low.items()), key=lambda p: p[0].id)): Fraction(1)})
    return list(low), F.mul(z, inv)


def _nonzero(f, g):
    return G.known_sign(f) in ("+", "-") or G.implies(g, G.NOT(G.eq0(f)))


class TooMany(Exception):
    pass


def cases(zs, g):
    """substitutions that together cover all the points of the guard: each maps atoms to forms"""
    out = []
    steps = [0]

    def put(mp, a, val):
        mp = {k: F.subst(v, {a: val}) for k, v in mp.items()}
        mp[a] = val
        return mp

    def go(zs, mp):
        steps[0] += 1
        if len(out) > MAX_CASES or steps[0] > 20 * MAX_CASES:
            raise TooMany()
        if not zs:
            out.append(mp)
            return
        z, rest = F.subst(zs[0], mp), zs[1:]
        c = z.const()
        if c == 0 or F.fp(z, 0) == 0 and F.fp(z, 1) == 0:
            return go(rest, mp)
        if c is not None:
            return
        common, core = _factors(z)
        factors = [F.atom_form(a) for a in common] + ([core] if core.const() is None else [])
        if len(factors) > 1:
            for f in factors:
                if not _nonzero(f, g):
                    go([f] + rest, mp)
            return
        z = factors[0]
        if _nonzero(z, g):
            return
        for m, c in sorted(z.t.items(), key=lambda q: len(q[0])):
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.kind in ("sym", "at") and sum(1 for m2 in z.t for x, _ in m2 if x is a) == 1 and _bare(z, a):
                    return go(rest, put(mp, a, (z - F.Form({m: c})) * F.const(Fraction(-1) / c)))
        for m in z.t:
            a = next((a for a, e in m if e == 1 and a.kind in ("sym", "at") and _bare(z, a)), None)
            if a is None:
                continue
            q = r = F.ZERO         # z = q * a + r
            for m2, c2 in z.t.items():
                if any(x is a for x, _ in m2):
                    q = q + F.mul(F.Form({m2: c2}), F.Form({((a, -1),): Fraction(1)}))
                else:
                    r = r + F.Form({m2: c2})
            if not _nonzero(q, g):
                go([q, r] + rest, mp)
            return go(rest, put(mp, a, F.mul(r, F.inv(q)) * F.const(-1)))
        go(rest, mp)
    try:
        go(list(zs), {})
    except (TooMany, F.DivZero):
        return None
    return out


def solved(g):
    """the cases of a guard"""
    if g is True or g is False:
        return [{}]
    r = _memo.get(g)
    if r is None:
        zs = G.zero_forms(g)
        r = (cases(zs, g) if zs else None) or [{}]
        _memo[g] = r
    return r


def same_where(a, b, g):
    """a == b at every point of the guard, for certain"""
    if F.same(a, b):
        return True
    cs = solved(g)
    if cs == [{}]:
        return False
    try:
        return all(mp and F.same(F.subst(a, mp), F.subst(b, mp)) for mp in cs)
    except F.DivZero:
        return False
