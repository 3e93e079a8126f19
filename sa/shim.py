"""Library functions described in the language itself: the abstract interpreter runs these definitions where the code under analysis calls the functions.
Not imported by the analysis.  The names are the dotted paths with '.' written as '__'."""
import numpy as np


def itertools__starmap(f, rows):
    return [f(*row) for row in rows]


def itertools__compress(items, keep):
    return [x for x, k in zip(items, keep) if k]


def itertools__filterfalse(f, items):
    if f is None:
        return [x for x in items if not x]
    return [x for x in items if not f(x)]


def itertools__takewhile(f, items):
    out = []
    for x in items:
        if not f(x):
            break
        out.append(x)
    return out


def itertools__dropwhile(f, items):
    out = []
    dropping = True
    for x in items:
        if dropping and f(x):
            continue
        dropping = False
        out.append(x)
    return out


def itertools__tee(items, n=2):
    kept = list(items)
    return tuple(iter(list(kept)) for _ in range(n))


def itertools__combinations(items, r):
    pool = list(items)
    if r == 0:
        return [()]
    out = []
    for i in range(len(pool)):
        for rest in itertools__combinations(pool[i + 1:], r - 1):
            out.append((pool[i],) + tuple(rest))
    return out


def itertools__combinations_with_replacement(items, r):
    pool = list(items)
    if r == 0:
        return [()]
    out = []
    for i in range(len(pool)):
        for rest in itertools__combinations_with_replacement(pool[i:], r - 1):
            out.append((pool[i],) + tuple(rest))
    return out


def itertools__permutations(items, r=None):
    pool = list(items)
    if r is None:
        r = len(pool)
    if r == 0:
        return [()]
    out = []
    for i in range(len(pool)):
        for rest in itertools__permutations(pool[:i] + pool[i + 1:], r - 1):
            out.append((pool[i],) + tuple(rest))
    return out


def itertools__batched(items, n):
    pool = list(items)
    return [tuple(pool[i:i + n]) for i in range(0, len(pool), n)]


def itertools__groupby(items, key=None):
    out = []
    last = None
    for x in items:
        k = x if key is None else key(x)
        if out and k == last:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
            last = k
    return out


def operator__countOf(items, value):
    n = 0
    for x in items:
        if x == value:
            n += 1
    return n


def operator__indexOf(items, value):
    return list(items).index(value)


def math__prod(items, start=1):
    out = start
    for x in items:
        out = out*x
    return out


def math__sumprod(p, q):
    return sum(x*y for x, y in zip(p, q))


def math__hypot(*xs):
    return np.sqrt(sum(x**2 for x in xs))


def math__dist(p, q):
    return np.sqrt(sum((x - y)**2 for x, y in zip(p, q)))


def numpy__hypot(x, y):
    return np.sqrt(np.asarray(x)**2 + np.asarray(y)**2)


def numpy__average(a, axis=None, weights=None):
    a = np.asarray(a)
    if weights is None:
        return a.mean(axis)
    weights = np.asarray(weights)
    if axis is None:
        return (a*weights).sum()/weights.sum()
    if weights.ndim == 1 and a.ndim == 2 and axis == 0:
        return (a*weights[:, None]).sum(0)/weights.sum()
    return (a*weights).sum(axis)/weights.sum()


def numpy__ptp(a, axis=None):
    a = np.asarray(a)
    return a.max(axis) - a.min(axis)


def numpy__var(a, axis=None):
    a = np.asarray(a)
    return ((a - a.mean(axis, keepdims=True))**2).mean(axis)


def numpy__std(a, axis=None):
    return np.sqrt(numpy__var(a, axis))


def numpy__fill_diagonal(a, val):
    n = min(a.shape)
    for i in range(n):
        a[i, i] = val


def numpy__diagonal(a, offset=0):
    return np.diag(np.asarray(a), offset)


def numpy__copyto(dst, src):
    dst[...] = src


def numpy__apply_along_axis(f, axis, a, *args):
    a = np.asarray(a)
    if axis in (1, -1) and a.ndim == 2:
        return np.array([f(row, *args) for row in a])
    if a.ndim == 1:
        return np.asarray(f(a, *args))
    return np.array([f(row, *args) for row in a.T]).T


def numpy__fromfunction(f, shape, **kw):
    if len(shape) == 1:
        return f(np.arange(shape[0]))
    i, j = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing='ij')
    return f(i, j)


def numpy__indices(shape):
    if len(shape) == 1:
        return np.array([np.arange(shape[0])])
    return np.array(np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing='ij'))


def numpy__diag_indices(n):
    return (np.arange(n), np.arange(n))


def numpy__triu_indices(n, k=0):
    p = [(i, j) for i in range(n) for j in range(n) if j - i >= k]
    return (np.array([i for i, j in p], dtype=int), np.array([j for i, j in p], dtype=int))


def numpy__tril_indices(n, k=0):
    p = [(i, j) for i in range(n) for j in range(n) if j - i <= k]
    return (np.array([i for i, j in p], dtype=int), np.array([j for i, j in p], dtype=int))


def numpy__triu_indices_from(a, k=0):
    return numpy__triu_indices(len(a), k)


def numpy__tril_indices_from(a, k=0):
    return numpy__tril_indices(len(a), k)


def numpy__positive(a):
    return +a


def numpy__broadcast_arrays(*xs):
    shape = np.shape(sum(np.zeros(np.shape(x)) for x in xs))
    return [np.broadcast_to(x, shape) for x in xs]


def numpy__linalg__matrix_power(a, n):
    if n < 0:
        a = np.linalg.inv(a)
        n = -n
    out = np.eye(len(a))
    for _ in range(n):
        out = out @ a
    return out


def numpy__interp(x, xp, fp):
    x = np.asarray(x)

    def one(v):
        if v <= xp[0]:
            return fp[0]
        for i in range(1, len(xp)):
            if v <= xp[i]:
                return fp[i - 1] + (fp[i] - fp[i - 1])*(v - xp[i - 1])/(xp[i] - xp[i - 1])
        return fp[-1]
    return np.array([one(v) for v in x]) if x.ndim else one(x)


def numpy__piecewise(x, conditions, functions):
    x = np.asarray(x)
    out = np.zeros(x.shape)
    if len(functions) > len(conditions):
        last = functions[-1]
        out = last(x) if callable(last) else np.full(x.shape, last)
    values = [f(x) if callable(f) else np.full(x.shape, f) for f in functions]
    for c, v in zip(conditions, values):
        out = np.where(c, v, out)
    return out


def numpy__heaviside(x, at0):
    x = np.asarray(x)
    return np.where(x < 0, 0.0, np.where(x > 0, 1.0, at0))


def numpy__copysign(x, y):
    return np.where(np.asarray(y) < 0, -abs(np.asarray(x)), abs(np.asarray(x)))


def functools__update_wrapper(wrapper, wrapped):
    return wrapper


class contextlib__suppress:
    def __init__(self, *kinds):
        self.kinds = kinds

    def __enter__(self):
        return None

    def __exit__(self, kind, exc, trace):
        return kind is not None and issubclass(kind, self.kinds)


class contextlib__nullcontext:
    def __init__(self, value=None):
        self.value = value

    def __enter__(self):
        return self.value

    def __exit__(self, kind, exc, trace):
        return False


class contextlib__closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, kind, exc, trace):
        self.thing.close()
        return False


class types__SimpleNamespace:
    def __init__(self, **names):
        for k, v in names.items():
            setattr(self, k, v)


def numpy__ndenumerate(a):
    a = np.asarray(a)
    return [(i, a[i]) for i in np.ndindex(*a.shape)]


def numpy__vander(x, N=None, increasing=False):
    x = np.asarray(x)
    n = len(x) if N is None else N
    rows = [[v ** k for k in range(n)] for v in x]
    if not increasing:
        rows = [r[::-1] for r in rows]
    return np.array(rows)


def math__comb(n, k):
    if k > n:
        return 0
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def math__factorial(n):
    r = 1
    for i in range(2, n + 1):
        r = r * i
    return r


def math__gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def numpy__ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    out = [()]
    for n in shape:
        out = [i + (k,) for i in out for k in range(n)]
    return out
