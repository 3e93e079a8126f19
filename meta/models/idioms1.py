src = r'''
import itertools, operator, math, functools, collections, copy, re, dataclasses, enum, typing, contextlib, warnings
from collections import defaultdict, OrderedDict, deque, Counter, namedtuple
from dataclasses import dataclass, field
from functools import reduce, partial, lru_cache
from itertools import product, chain
import numpy as np
import pandas as pd
A = np.array([[1.,2.,3.],[4.,5.,6.],[7.,8.,10.]])
def t1(): return {**{'a':1}, 'b':2} | {'c':3}
def t2():
    d = defaultdict(list)
    for i, x in enumerate('abca'): d[x].append(i)
    return sorted(d.items())
def t3():
    q = deque([1,2,3]); q.appendleft(0); q.append(4); q.popleft(); q.rotate(1); return list(q)
def t4(): return Counter('abca').most_common(1)[0][1], Counter([1,1,2])[1]
def t5():
    P = namedtuple('P', 'x y'); p = P(1, 2); q = p._replace(x=5); return p.x + p.y, q.x, tuple(q)
@dataclass
class D:
    x: float
    y: float = 2.0
    z: list = field(default_factory=list)
    def s(self): return self.x + self.y
def t6():
    d = D(1.0); d.z.append(3); return d.s(), d.z, D(1.0) == D(1.0), dataclasses.replace(d, x=4.0).x
@dataclass(frozen=True)
class E:
    a: int
    b: int = 3
    def __post_init__(self):
        if self.a < 0: raise ValueError('neg')
def t7():
    try: E(-1)
    except ValueError as e: return str(e), E(2).b
class Color(enum.Enum):
    RED = 'r'
    BLUE = 'b'
def t8(): return Color.RED.value, Color('b').name, [c.name for c in Color], Color.RED is Color.RED
def t9(): return np.einsum('ij,jk->ik', A, A), A @ A.T, A.T.dot(A)
def t10(): return np.r_[1., 2., A[0]], np.c_[A[0], A[1]]
def t11(): return A[np.ix_([0,1],[1,2])], A[[0,2]][:, [0,2]], A[::-1, ::-1]
def t12():
    B = A.copy(); B[B > 4] = 0; B[0] += 1; B[:, 1] *= 2; return B
def t13(): return np.array([*map(float, '1 2 3'.split())]), [*range(3)], (lambda *a, **k: (a, sorted(k)))(1, 2, x=3)
def t14():
    it = iter([1,2,3]); first, *rest = it; return first, rest, next(iter([]), None)
def t15(): return f'{3.14159:.2f}|{5:03d}|{"a":>3}|{1e10:g}', '%d %s' % (3, 'x'), 'a,b'.split(','), 'x'.join(['1','2'])
def t16(): return re.findall(r'\d+', 'a12b3'), re.sub(r'\s+', '', ' a b '), bool(re.match(r'^a+$', 'aaa')), re.split(r'[/,]', '1/2,3')
def t17(): return sum(x**2 for x in range(4)), max([3,1,2], key=lambda v: -v), min((2,'a'),(1,'b'))[1], any(x > 2 for x in [1,3]), all([])
def t18(): return sorted([3,1,2], reverse=True), list(reversed([1,2])), sorted(['b','a'], key=str.upper), list(zip(*[(1,2),(3,4)]))
def t19():
    with contextlib.suppress(ZeroDivisionError):
        1/0
    try:
        pass
    except Exception: return 1
    else: return 2
    finally: pass
def t20():
    @contextlib.contextmanager
    def c():
        yield 5
    with c() as v: return v
def t21():
    def gen():
        for i in range(3):
            if i == 1: continue
            yield i
        yield from [7, 8]
    return list(gen()), sum(gen())
def t22():
    match ('a', 3):
        case ('a', x) if x > 2: return x
        case _: return 0
def t23():
    match {'k': 1}:
        case {'k': v}: return v
def t24():
    x = 5
    if (n := x * 2) > 5: return n
def t25():
    n = 0
    while True:
        n += 1
        if n == 3: continue
        if n > 5: break
    else:
        n = 100
    for i in range(3): pass
    else: n += i
    return n
class Base:
    reg = {}
    def __init_subclass__(cls, **k): Base.reg[cls.__name__] = 1
    @classmethod
    def make(cls, *a): return cls(*a)
    @staticmethod
    def st(x): return x + 1
    def __init__(self, v): self._v = v
    @property
    def v(self): return self._v
    @v.setter
    def v(self, x): self._v = x * 2
    def __len__(self): return 3
    def __iter__(self): return iter([1, 2, 3])
    def __getitem__(self, i): return i * 10
    def __call__(self, x): return x + self._v
    def __add__(self, o): return Base(self._v + o._v)
    def __contains__(self, x): return x == 1
    def __bool__(self): return False
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __getattr__(self, n):
        if n == 'dyn': return 42
        raise AttributeError(n)
class Sub(Base):
    def __init__(self, v): super().__init__(v + 1)
    @property
    def v(self): return super().v + 100
def t26():
    b = Base.make(3); s = Sub(4); b.v = 5
    with b as q: w = q.v
    return b.v, s.v, len(b), list(b), b[2], b(1), (b + b)._v, 1 in b, bool(b), w, b.dyn, Base.reg, Base.st(2), hasattr(b, 'zz'), getattr(b, 'zz', 9), isinstance(s, Base), type(s).__name__
def t27():
    d = {}
    d.setdefault('a', []).append(1); d.update(b=2); x = d.pop('b'); k = list(d); return x, k, dict(zip('ab', (1, 2))), {v: k for k, v in {'p': 1}.items()}, dict.fromkeys('ab', 0)
def t28():
    a = [1, 2, 3, 4]; a[1:3] = [9]; del a[0]; a.insert(0, 5); a.extend((6, 7)); a.remove(9); return a, a[-2:], a[::2], a.index(6), a.count(5)
def t29(): return {1, 2} & {2, 3}, {1} | {2}, {1, 2} - {1}, {1} <= {1, 2}, frozenset([1]) == {1}
def t30(): return pd.DataFrame({'a': [1., 2.], 'b': [3., 4.]})['a'].tolist(), pd.DataFrame(A, columns=list('xyz')).loc[1, 'y'], pd.DataFrame(A, columns=list('xyz')).iloc[0].tolist()
def t31():
    df = pd.DataFrame([{'a': 1., 'b': 2.}, {'a': 3., 'b': 0.}]); df['c'] = df['a'] + df['b']; return df['c'].tolist(), df[['a', 'b']].min(axis=1).tolist(), df['a'].idxmax(), list(df.columns), len(df), df.shape
def t32():
    df = pd.DataFrame([[1., 2.], [3., 4.]], columns=['a', 'b']); df = df.rename(columns={'a': 'z'}); df.insert(0, 'p', [7., 8.]); return df.values.tolist(), list(df.columns)
def t33(): return [r.tolist() for _, r in pd.DataFrame([[1., 2.], [3., 4.]], columns=['a', 'b']).iterrows()], pd.DataFrame([[1., 2.]], columns=['a', 'b']).to_dict('records')
def t34(): return pd.concat([pd.DataFrame({'a': [1.]}), pd.DataFrame({'a': [2.]})], ignore_index=True)['a'].tolist(), pd.Series([1., 2.]).apply(lambda x: x * 2).tolist()
def t35():
    df = pd.DataFrame({'a': [1., -2.]}); df['b'] = np.where(df['a'] > 0, 1.0, 2.0); df.loc[df['a'] < 0, 'b'] = 9.0; return df['b'].tolist(), df.a.abs().max()
def t36(): return math.isclose(1.0, 1.0), math.floor(2.5), math.ceil(2.5), abs(-2), divmod(7, 3), 7 // 2, -7 % 3, round(2.675, 1), pow(2, 3), int('5'), float('2.5'), bool(''), str(3)
def t37(): return np.linspace(0., 1., 5), np.arange(3), np.arange(1., 2., .5), np.zeros((2, 2)), np.full(2, 3.), np.eye(2), np.ones(2), np.diag([1., 2.])
def t38():
    x, y = np.meshgrid([1., 2.], [3., 4., 5.]); return x, y, x.ravel(), x.T.shape, np.vstack([A, A]).shape, np.hstack([A[0], A[1]]), np.stack([A[0], A[1]], axis=1), np.concatenate([A, A], axis=0)[4]
def t39(): return A.sum(), A.sum(axis=0), A.max(axis=1), A.argmax(), np.cumsum(A[0]), np.diff(A[0]), A.mean(), A.min(), np.argsort([3., 1., 2.]), np.sort([3., 1., 2.]), np.clip(A[0], 1.5, 2.5), np.sign([-1., 0.])
def t40(): return np.linalg.solve(A, np.array([1., 2., 3.])).shape, A[..., 0], A[None].shape, A[:, np.newaxis, :].shape, A.reshape(-1)[2], A.flatten()[3], A.reshape(1, 9).shape, np.split(np.arange(4.), 2)[1]
def t41():
    f = partial(pow, 2); g = functools.reduce(lambda a, b: a * b, [1, 2, 3]); return f(3), g, list(map(operator.mul, [1, 2], [3, 4])), list(filter(None, [0, 1])), list(accum())
def accum(): return itertools.accumulate([1, 2, 3])
@lru_cache(maxsize=None)
def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
def t42(): return fib(10)
def t43():
    try:
        try: raise KeyError('a')
        except KeyError as e: raise ValueError('b') from e
    except (TypeError, ValueError) as e2: return str(e2), isinstance(e2.__cause__, KeyError), e2.args
def t44():
    assert True, 'x'
    try: assert 1 == 2, 'bad'
    except AssertionError as e: return str(e)
def t45():
    a = b = [1]; b.append(2); c = a[:]; c.append(3); x, (y, z) = 1, (2, 3); return a, c, x + y + z, a is b
def t46():
    def outer():
        c = 0
        def inner():
            nonlocal c
            c += 1
            return c
        inner(); return inner()
    return outer()
class Desc:
    def __set_name__(self, o, n): self.n = '_' + n
    def __get__(self, i, o=None): return self if i is None else getattr(i, self.n)
    def __set__(self, i, v): setattr(i, self.n, v * 3)
class WithD:
    q = Desc()
    __slots__ = ('_q',)
    def __init__(self): self.q = 2
def t47(): return WithD().q
class NT(typing.NamedTuple):
    a: int
    b: int = 4
def t48(): return NT(1).b, NT(1, 2)[0], list(NT(5, 6)), NT(1)._asdict()
def t49(): return np.array([[1., 0.], [0., 2.]]).nonzero()[0], np.triu(A), np.tril(A, -1), np.outer([1., 2.], [3., 4.]), np.kron([1., 2.], [1., 1.]), np.trace(A), np.dot([1., 2.], [3., 4.])
def t50():
    vals = vars(D(1.0)); return sorted(vals), D(1.0).__dict__['x'], D.__name__, Base.__mro__[0] is Base, callable(fib), id(vals) == id(vals), isinstance(3, (int, float)), issubclass(Sub, Base)
def t51(): return [[a*b for b in range(2)] for a in range(2)], {x: y for x, y in zip('ab', [1, 2])}, {x % 2 for x in range(4)}, [x for r in [[1, 2], [3]] for x in r if x != 2]
def t52(): return '\\pm45'.replace('\\pm', ''), 'a/b'.partition('/'), ' x '.strip(), 'abc'[::-1], 'abc'.find('c'), 'S'.lower(), 'a'.isalpha(), '12'.isdigit(), 'ab'.startswith(('a', 'c')), 'a\nb'.splitlines(), 'ab'.zfill(4), 'x'.ljust(3) + '|', 'a-b'.title(), ord('a'), chr(98), 'aXb'.swapcase()
def t53(): return np.vectorize(lambda x: x + 1)(np.array([1., 2.])), np.apply_along_axis(lambda r: r.sum(), 0, A), np.tensordot(A, A, axes=([1], [0])), np.moveaxis(np.zeros((2, 3, 4)), 0, -1).shape, np.squeeze(np.zeros((1, 3))).shape
def t54():
    out = []
    for i, (a, b) in enumerate(zip([1, 2], [3, 4]), start=1): out.append((i, a, b))
    return out, list(enumerate('ab')), dict(enumerate('ab')), [*zip([1, 2], 'ab')]
def t55():
    B = np.zeros((2, 2)); v = B[0]; v[1] = 5.; w = B.T; w[0, 1] = 7.; r = B.reshape(4); r[0] = 1.; return B
def t56():
    s = slice(0, 2); return A[s].shape, [1, 2, 3][s], A[s, s], np.s_[0:2], A[(0, 1)], A[0][1], A.item(0), float(A[0, 0])
def t57(): return np.array_equal(A, A), np.allclose(A, A + 1e-12), (A == A).all(), (A > 3).any(), np.isnan(A).any(), np.isfinite(A).all(), np.logical_and([True], [False]), ~np.array([True])
def t58(): return warnings.warn is not None, copy.deepcopy({'a': [1]}), copy.copy([1])
def t59():
    class M(type):
        def __call__(cls, *a): return super().__call__(*a)
    class K(metaclass=M):
        def __init__(self, x): self.x = x
    return K(2).x
def t60(): return (1).__add__(2), [].__len__(), 'a'.__eq__('a'), (3).bit_length(), 2.0.is_integer(), (2.5).as_integer_ratio(), float.is_integer(2.0), int.from_bytes(b'a', 'big')
def t61():
    df = pd.DataFrame(dict(zip(['a', 'b'], np.array([[1., 2.], [3., 4.]])))); return df.to_numpy(), df.T.values.tolist(), df.sum(axis=1).tolist(), df.apply(lambda r: r['a'] * r['b'], axis=1).tolist(), df.where(df > 1, 0.0).values.tolist()
def t62():
    df = pd.DataFrame({'a': [1., 2.], 'b': [3., 1.]}); return df.min(axis=1).tolist(), df.min().tolist(), df['b'].min(), df.idxmin(axis=1).tolist(), df.loc[:, 'a'].tolist(), df.iloc[:, 1].tolist(), df.loc[0].to_dict(), df.at[0, 'a'], df.iat[1, 1]
def t63():
    df = pd.DataFrame(index=range(2)); df['x'] = [1., 2.]; df = df.assign(y=lambda d: d.x * 2); return df['y'].tolist(), df.index.tolist(), df.set_index('x').index.tolist(), df.drop(columns='x').columns.tolist(), df.round(1).values.tolist(), [t.x for t in df.itertuples()]
def t64(): return pd.DataFrame.from_dict({'a': [1.]}).a.tolist(), pd.DataFrame.from_records([(1., 2.)], columns=['a', 'b']).b.tolist(), pd.DataFrame([1., 2.], columns=['q']).q.sum(), pd.Series({'a': 1., 'b': 2.})['b'], pd.Series([1., 2.], index=['u', 'v']).u
'''
