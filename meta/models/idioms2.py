src = r'''
import itertools, operator, math, functools, collections, copy, re, dataclasses, enum, typing, contextlib, warnings, abc, numbers, string, types, fractions, textwrap
from abc import ABC, abstractmethod
import numpy as np
import pandas as pd
A = np.array([[1.,2.,3.],[4.,5.,6.],[7.,8.,10.]])
B3 = np.stack([A, A + 1, 2 * A])
@contextlib.contextmanager
def cm(x):
    try:
        yield x
    finally:
        LOG.append(x)
LOG = []
def t1():
    def f():
        with cm(1) as a, cm(2) as b:
            return a + b
    def g():
        out = []
        for i in range(4):
            with cm(i) as a:
                if a == 1: continue
                if a == 3: break
            out.append(a)
        return out
    def h():
        try:
            with cm(9): raise ValueError('q')
        except ValueError as e: return str(e)
    return f(), g(), h(), list(LOG)
def mkprop(n):
    return property(lambda self: getattr(self, '_' + n))
class P:
    def __init__(self, a, b): self._a, self._b = a, b
for _n in ('a', 'b'): setattr(P, _n, mkprop(_n))
def t2():
    p = P(1, 2)
    try: p.a = 3
    except AttributeError: return p.a, p.b, 'ro'
class Abs(ABC):
    @abstractmethod
    def f(self): ...
    @property
    @abstractmethod
    def q(self): ...
    def g(self): return self.f() + self.q
class Con(Abs):
    def f(self): return 1
    @property
    def q(self): return 5
def t3(): return Con().g(), isinstance(Con(), Abs)
@functools.singledispatch
def sd(x): return 'obj'
@sd.register
def _(x: str): return 'str'
@sd.register(int)
def _(x): return 'int'
def t4(): return sd('a'), sd(1), sd([1])
def t5(): return np.block([[A, A], [A, A]]).shape, np.linalg.multi_dot([A, A, A])[0, 0], (B3 @ A)[1, 0], np.matmul(B3, np.ones(3))[2], np.einsum('kij,kj->ki', B3, A)[1], np.einsum('ij,kjl->kil', A, B3)[2, 1]
def t6(): return np.add.reduce(A), np.add.accumulate([1., 2.]), np.multiply.outer([1., 2.], [3., 4.]), np.roll([1., 2., 3.], 1), np.repeat([1., 2.], 2), np.tile([1., 2.], 2), np.flip(A, 0), np.swapaxes(B3, 0, 2).shape, np.transpose(B3, (2, 0, 1)).shape
def t7():
    M = np.zeros((2, 2)); np.fill_diagonal(M, 3.); out = []
    for (i, j), v in np.ndenumerate(M): out.append((i, j, v))
    return out, list(np.ndindex(2, 2)), np.append([1.], 2.), np.prod([2., 3.]), np.cumprod([2., 3.]), np.take(A, 1, axis=0), np.select([A[0] > 2, A[0] > 1], [1., 2.], 0.), np.atleast_2d([1.]).shape, np.expand_dims([1.], 0).shape
def t8(): return np.deg2rad(180.) / np.pi, np.radians([180.])[0] / math.pi, np.hypot(3., 4.), np.polyval([1., 2., 3.], 2.), np.unique([2., 1., 2.]), np.searchsorted([1., 2., 3.], 2.), np.isclose(1., 1.), np.sqrt(4.), np.square(3.), np.power(2., 3), np.abs(-1.), np.fabs(-2.), np.reciprocal(2.), np.negative(1.), np.cbrt(8.)
def t9(): return list(zip([1], [2], strict=True)), sum([[1], [2]], []), [*map(lambda r: r[0], sorted({'b': 1, 'a': 2}.items()))], operator.attrgetter('a')(P(1, 2)), operator.itemgetter(1, 0)([5, 6]), max({'a': 1, 'b': 3}.items(), key=operator.itemgetter(1))[0]
class Slots:
    __slots__ = ('x',)
    def __init__(self, x): object.__setattr__(self, 'x', x)
    def __setattr__(self, n, v): raise AttributeError(n)
def t10():
    s = Slots(4)
    try: s.x = 5
    except AttributeError as e: return s.x, e.args[0]
class Meta(type):
    def __new__(m, n, b, d):
        d['extra'] = 7
        return super().__new__(m, n, b, d)
class WithMeta(metaclass=Meta): pass
def t11(): return WithMeta.extra
class It:
    def __init__(self, n): self.n = n; self.i = 0
    def __iter__(self): return self
    def __next__(self):
        if self.i >= self.n: raise StopIteration
        self.i += 1
        return self.i
def t12(): return list(It(3)), sum(It(4)), [x for x in It(2)]
def t13(): return '{:>5.2f}|{x}'.format(1.5, x='a'), 'a{0}b{0}'.format(1), '%.3g' % 1234.5, f'{1:,}', f'{"x"!r}', str(1.5), repr(2), str([1, 'a']), str((1,)), str(None), str({'a': 1}), f'{3}', f'{2.0}', f'{[1]}'
def t14():
    def f(a, /, b, *, c=3, **k): return a, b, c, k
    return f(1, b=2, d=4), f(*[1, 2], **{'c': 5})
def t15():
    x = [1, 2, 3]; it = iter(x); out = []
    while (v := next(it, None)) is not None: out.append(v)
    return out, dict(a=1) == {'a': 1}, (1, 2) < (1, 3), [1] + [2] == [1, 2], 1 < 2 < 3, not [], None or 5, 0 and 1
def t16():
    def dec(n):
        def w(f):
            @functools.wraps(f)
            def g(*a, **k): return f(*a, **k) * n
            return g
        return w
    @dec(3)
    def f(x): return x + 1
    return f(1), f.__name__
class Cached:
    def __init__(self): self.calls = 0
    @functools.cached_property
    def v(self):
        self.calls += 1
        return [1]
def t17():
    c = Cached(); a = c.v; b = c.v; return a is b, c.calls, 'v' in c.__dict__
def t18(): return isinstance(1, numbers.Number), isinstance(1.5, numbers.Real), isinstance(True, int), isinstance('a', (str, bytes)), isinstance([1], collections.abc.Sequence), isinstance({}, collections.abc.Mapping), isinstance(A, np.ndarray), callable(len)
def t19():
    d = {'b': 1, 'a': 2}; d |= {'c': 3}; del d['b']; d['z'] = d.get('q', 7); k, v = d.popitem(); return d, k, v, list(d.values()), [*d], 'a' in d, len(d), {**d}.keys() == d.keys(), d.copy() is d
def t20():
    s = pd.Series([3., 1., 2.]); return s.sort_values().tolist(), s.rank().tolist() if False else 0, s.max(), s.idxmin(), s.abs().sum(), (s * 2).tolist(), s[s > 1].tolist(), s.iloc[-1], s.head(2).tolist(), s.to_numpy(), s.values[0], s.eq(1).any(), s.shift(1).tolist()[1:] if False else 0
def t21():
    df = pd.DataFrame({'k': ['a', 'b', 'a'], 'v': [1., 2., 3.]}); return df[df['k'] == 'a']['v'].tolist(), df.query("v > 1")['v'].tolist() if False else 0, df['k'].unique().tolist() if False else 0, df.loc[df.v > 1, ['v']].values.tolist(), df.sort_values('v', ascending=False)['k'].tolist(), df.reindex(columns=['v', 'k']).columns.tolist()
def t22():
    df = pd.DataFrame(np.arange(6.).reshape(3, 2), columns=['a', 'b']); df[['c', 'd']] = df[['a', 'b']] * 2; df.loc[:, 'e'] = 1.; df['f'] = df.apply(lambda r: r.a + r.b, axis=1); df.index.name = 'i'; return df.values.tolist(), df.mul(2).a.tolist(), df[['a', 'b']].add(1).sub(1).div(2).b.tolist()
def t23():
    rows = []
    for i in range(2): rows.append({'p': i, 'q': i * 2.})
    df = pd.DataFrame.from_records(rows); df2 = pd.DataFrame(rows, columns=['q', 'p']); return df.q.tolist(), df2.columns.tolist(), df.astype({'p': int}).p.tolist(), df.join(pd.DataFrame({'z': [5., 6.]})).z.tolist(), pd.concat([df, df2[['q']].rename(columns={'q': 'w'})], axis=1).columns.tolist()
def t24():
    z = zip('abc', itertools.count(1)); return list(z), list(itertools.islice(itertools.cycle([1, 2]), 5)), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.repeat(3, 2)), [list(g) for k, g in itertools.groupby([1, 1, 2])], list(itertools.zip_longest([1], [2, 3], fillvalue=0)), list(itertools.pairwise([1, 2, 3])), list(itertools.product('ab', repeat=2))
def t25():
    lines = textwrap.dedent("""
      a
      b
    """).strip().split("\n"); return lines, 'a,b;c'.replace(';', ',').split(','), 'abc'.rstrip('c'), 'aXbX'.rsplit('X', 1), ''.join(reversed('abc')), 'a' * 3, 'abc'.removeprefix('a'), 'abc'.endswith('c'), ' a'.lstrip(), 'ab'.center(4), 'a b'.split(), 'ab'.upper(), 'x=1'.split('=', 1), re.compile(r'(\d+)/(\d+)').match('3/4').groups(), [m.group(0) for m in re.finditer(r'\d', 'a1b2')], re.fullmatch(r'a(b)?', 'a').group(1)
def t26():
    class Stack(list):
        def top(self): return self[-1]
    class D(dict):
        def __missing__(self, k): return k * 2
    s = Stack([1, 2]); s.append(5); d = D(a=1); return s.top(), len(s), d['x'], d['a']
def t27():
    try:
        raise MyErr('m', 3)
    except MyErr as e: return e.code, str(e), isinstance(e, ValueError)
class MyErr(ValueError):
    def __init__(self, m, code): super().__init__(m); self.code = code
def t28():
    out = []
    for i in range(3):
        try:
            if i == 1: raise ValueError
            out.append(i)
        except ValueError: out.append('x'); continue
        else: out.append('e')
        finally: out.append('f')
    return out
def t29(): return np.array([1, 2], dtype=float) / 2, np.zeros_like(A).shape, np.empty((0, 3)).shape, np.identity(2), np.asarray([1.]).astype(int), np.array(A, copy=True)[0], np.ones((2,), dtype=np.float64), np.float64(2) * 3, np.full_like(A[0], 2.), np.vander([2.], 3), np.geomspace(1., 8., 4) if False else 0
def t30():
    a = np.arange(6.).reshape(2, 3); a[a > 3] *= 2; a[:, [0, 2]] = a[:, [2, 0]]; a[0, :] = 9.; b = a[:, 1]; b += 1; a.T[0] = 4.; return a, a.ravel()[::2], a[-1], a[..., -1], np.delete(a, 0, axis=1), np.insert([1., 2.], 1, 5.), a[np.array([True, False])], a[[1]], a.tolist()
def t31():
    f = [lambda x, k=k: x * k for k in range(3)]; g = {n: fn for n, fn in zip('abc', f)}; return [h(2) for h in f], g['c'](3), (lambda: (yield))() is not None
def t32():
    def walk(x):
        if isinstance(x, (list, tuple)):
            for y in x: yield from walk(y)
        else: yield x
    return list(walk([1, [2, (3, [4])]])), functools.reduce(operator.add, [[1], [2]]), math.prod([2, 3]), math.fsum([.5, .5]), math.hypot(3, 4), math.comb(4, 2), math.factorial(4), math.gcd(4, 6), math.pi > 3, math.sqrt(4), math.radians(180) == math.pi, math.copysign(1, -2), math.inf > 1
def t33():
    ns = types.SimpleNamespace(a=1, b=2); ns.c = 3; return ns.a + ns.c, vars(ns)['b'], sorted(ns.__dict__)
def t34(): return [i for i in range(10) if i % 2][:3], list(range(5, 0, -2)), range(3)[1], len(range(0, 10, 3)), 3 in range(5), slice(1, None).indices(4) if False else 0, [1, 2, 3][-1:], 'abc'[1:][::-1], all(x for x in []), bool(np.array([1.])), int(2.9), round(2.5), -3 // 2, 2 ** -1, 7 % -3, abs(-3 + 0), divmod(-7, 2), complex(1, 2).real if False else 0
def t35():
    class Reg:
        items = []
        def __init_subclass__(cls, tag=None, **k): super().__init_subclass__(**k); Reg.items.append((cls.__name__, tag))
    class X(Reg, tag='t'): pass
    return Reg.items
def t36():
    v = np.array([1., 2., 3.]); w = v.view(); w[0] = 5.; u = v.copy(); u[1] = 9.; q = np.asarray(v); q[2] = 8.; return v, v.dot(v), v @ v, np.cross([1., 0., 0.], [0., 1., 0.]), np.inner(v, v), v.sum() / len(v), v.std() if False else 0, v.round(1), v.clip(0, 6), v.argmin(), np.ptp(v), v.cumsum(), v.reshape(3, 1).shape, v[:, None].T.shape, v.nonzero()[0], v.any(), np.count_nonzero(v)
'''
