"""Exhaustive enumeration of everything a piece of randomised numpy code can do.

`paths(fn)` runs `fn()` once for every distinguishable outcome of its random
draws and yields (probability, result).  A uniform draw is a symbolic `Draw`;
comparing it with a threshold splits the run in two.  `permutation` and
`choice` split n-way.  Nothing is assumed about how many draws the code makes,
in which order, or on which side of a comparison the draw stands.
"""
import itertools
import numpy as np

_names = ['rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform',
          'permutation', 'shuffle', 'choice', 'binomial', 'randint']
_orig = {n: getattr(np.random, n) for n in _names}
_ctx = None


class Unsupported(Exception):
    """the code uses the random source in a way the enumerator cannot follow"""


class TooManyPaths(Exception):
    pass


class _Ctx:
    prune = 0.0               # branches this unlikely are not followed

    def __init__(self):
        self.script = []      # decisions so far: [index, probs]
        self.pos = 0
        self.prob = 1.0

    def branch(self, probs):
        live = [i for i, p in enumerate(probs) if p > self.prune]
        if len(live) == 1:
            return live[0]
        if not live:
            raise Unsupported('no outcome has positive probability: %r' % (probs,))
        if self.pos == len(self.script):
            self.script.append([0, live])
        k, lv = self.script[self.pos]
        self.pos += 1
        i = live[k]
        self.prob *= probs[i]
        return i


class _Core:
    """one uniform number: all that is known of it is the interval it lies in"""
    __slots__ = ('lo', 'hi')

    def __init__(self):
        self.lo, self.hi = 0.0, 1.0

    def below(self, p):                # u < p ?
        if p <= self.lo:
            return False
        if p >= self.hi:
            return True
        w = (p - self.lo) / (self.hi - self.lo)
        if _ctx.branch([w, 1 - w]) == 0:
            self.hi = p
            return True
        self.lo = p
        return False


def _exp(p):
    with np.errstate(over='ignore'):
        return float(np.exp(p))


def _log(p):
    return float(np.log(p)) if p > 0 else -np.inf


class Draw:
    """a strictly monotone function of a uniform number: comparisons with numbers fork the
    run, increasing elementary functions give another Draw, anything else is unsupported"""
    __slots__ = ('core', 'inv', 'up')

    def __init__(self, core=None, inv=float, up=True):
        self.core = core or _Core()
        self.inv = inv                   # threshold on the value -> threshold on u
        self.up = up

    def _less(self, p):
        if isinstance(p, (Draw, np.ndarray)):
            raise Unsupported('comparison of a draw with %s' % type(p).__name__)
        p = float(p)
        if p != p:
            return None
        b = self.core.below(self.inv(p))
        return b if self.up else not b

    def __lt__(self, p):
        if isinstance(p, np.ndarray):
            return np.array([self < q for q in p.flat]).reshape(p.shape)
        return bool(self._less(p))
    __le__ = __lt__

    def __gt__(self, p):
        if isinstance(p, np.ndarray):
            return np.array([self > q for q in p.flat]).reshape(p.shape)
        return self._less(p) is False
    __ge__ = __gt__

    def __eq__(self, p):
        return False

    def __ne__(self, p):
        return True

    def __hash__(self):
        return id(self)

    def _then(self, back, flip=False):
        return Draw(self.core, lambda p, f=self.inv: f(back(p)), self.up != flip)

    @staticmethod
    def _num(c):
        if isinstance(c, (Draw, np.ndarray)) or not isinstance(c, (int, float, np.number, np.bool_)):
            raise Unsupported('arithmetic of a draw with %s' % type(c).__name__)
        c = float(c)
        if c - c != 0:
            raise Unsupported('arithmetic of a draw with %r' % c)
        return c

    def log(self):
        return self._then(_exp)

    def exp(self):
        return self._then(_log)

    def log1p(self):
        return self._then(lambda p: _exp(p) - 1)

    def expm1(self):
        return self._then(lambda p: _log(p + 1))

    def log2(self):
        return self._then(lambda p: _exp(p * np.log(2.0)))

    def log10(self):
        return self._then(lambda p: _exp(p * np.log(10.0)))

    def __neg__(self):
        return self._then(lambda p: -p, True)

    def __pos__(self):
        return self

    def __add__(self, c):
        c = self._num(c)
        return self._then(lambda p: p - c)
    __radd__ = __add__

    def __sub__(self, c):
        return self + -self._num(c)

    def __rsub__(self, c):
        return -self + c

    def __mul__(self, c):
        c = self._num(c)
        if c == 0:
            return 0.0
        return self._then(lambda p: p / c, c < 0)
    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1 / self._num(c))

    def _no(self, *a, **k):
        raise Unsupported('draw used as a number')
    __float__ = __int__ = __bool__ = __index__ = __rtruediv__ = __pow__ = __rpow__ = _no
    __abs__ = __mod__ = __floordiv__ = __round__ = __array__ = _no

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        one = {'log': Draw.log, 'exp': Draw.exp, 'log1p': Draw.log1p, 'expm1': Draw.expm1,
               'log2': Draw.log2, 'log10': Draw.log10, 'negative': Draw.__neg__, 'positive': Draw.__pos__}
        two = {'less': ('__lt__', '__gt__'), 'less_equal': ('__le__', '__ge__'),
               'greater': ('__gt__', '__lt__'), 'greater_equal': ('__ge__', '__le__'),
               'add': ('__add__', '__radd__'), 'subtract': ('__sub__', '__rsub__'),
               'multiply': ('__mul__', '__rmul__'), 'true_divide': ('__truediv__', '__rtruediv__'),
               'divide': ('__truediv__', '__rtruediv__'),
               'equal': ('__eq__', '__eq__'), 'not_equal': ('__ne__', '__ne__')}
        if method != '__call__' or [k for k in kw if k not in ('dtype',)]:
            raise Unsupported('ufunc %s with options on a draw' % ufunc.__name__)
        if len(args) == 1 and ufunc.__name__ in one:
            return one[ufunc.__name__](args[0])
        if len(args) == 2 and ufunc.__name__ in two:
            a, b = args
            fwd, bwd = two[ufunc.__name__]
            arr = a if isinstance(a, np.ndarray) else b if isinstance(b, np.ndarray) else None
            if arr is not None and arr.shape != ():
                f = (lambda x: getattr(b, bwd)(x)) if arr is a else (lambda x: getattr(a, fwd)(x))
                out = np.empty(arr.shape, dtype=object)
                for i in np.ndindex(*arr.shape):
                    out[i] = f(arr[i])
                return out.astype(bool) if fwd in ('__lt__', '__le__', '__gt__', '__ge__') else out
            a, b = (x[()] if isinstance(x, np.ndarray) else x for x in (a, b))
            return getattr(a, fwd)(b) if isinstance(a, Draw) else getattr(b, bwd)(a)
        raise Unsupported('ufunc %s on a draw' % ufunc.__name__)


def _shape(args, size=None):
    if args:
        return tuple(int(a) for a in args)
    if size is None:
        return None
    return tuple(size) if isinstance(size, (tuple, list)) else (int(size),)


def _uni(shape):
    if shape is None or shape == ():
        return Draw()
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = Draw()
    return a


def _rand(*args):
    return _uni(_shape(args))


def _random(size=None):
    return _uni(_shape((), size))


def _uniform(low=0.0, high=1.0, size=None):
    out = _uni(_shape((), size))
    lo, w = float(low), float(high) - float(low)
    if isinstance(out, np.ndarray):
        for i in np.ndindex(*out.shape):
            out[i] = lo + w * out[i]
        return out
    return lo + w * out


def _permutation(x):
    items = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
    n = len(items)
    if n > 1:
        perms = list(itertools.permutations(range(n)))
        items = [items[i] for i in perms[_ctx.branch([1 / len(perms)] * len(perms))]]
    if isinstance(x, (int, np.integer)) or (isinstance(x, np.ndarray) and x.dtype != object):
        return np.array(items, dtype=getattr(x, 'dtype', int)).reshape((n,) + getattr(x, 'shape', (n,))[1:])
    out = np.empty(n, dtype=object)
    for i, it in enumerate(items):
        out[i] = it
    return out


def _shuffle(x):
    y = list(_permutation([np.array(v) if isinstance(v, np.ndarray) else v for v in x]))
    for i, v in enumerate(y):
        x[i] = v


def _choice(a, size=None, replace=True, p=None):
    items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
    pr = [1 / len(items)] * len(items) if p is None else [float(q) for q in p]
    if size is None:
        return items[_ctx.branch(pr)]
    shp = _shape((), size)
    n = int(np.prod(shp))
    if replace:
        return _arr([items[_ctx.branch(pr)] for _ in range(n)], items).reshape(shp)
    if p is not None:
        raise Unsupported('weighted choice without replacement')
    left, out = list(items), []
    for _ in range(n):
        out.append(left.pop(_ctx.branch([1 / len(left)] * len(left))))
    return _arr(out, items).reshape(shp)


def _arr(out, items):
    return np.array(out, dtype=np.asarray(items).dtype)


def _binomial(n, p, size=None):
    if n != 1:
        raise Unsupported('binomial n != 1')
    shp = _shape((), size)
    if shp is None:
        return 1 - _ctx.branch([p, 1 - p])
    return np.array([1 - _ctx.branch([p, 1 - p]) for _ in range(int(np.prod(shp)))]).reshape(shp)


def _randint(low, high=None, size=None, dtype=int):
    # only ever used for throw-away seeds here: keep it real
    return _orig['randint'](low, high, size)


_fake = dict(rand=_rand, random=_random, random_sample=_random, ranf=_random,
             sample=_random, uniform=_uniform, permutation=_permutation,
             shuffle=_shuffle, choice=_choice, binomial=_binomial, randint=_randint)


class _patched:
    def __init__(self, extra=()):
        self.extra = extra

    def __enter__(self):
        for n in _names:
            setattr(np.random, n, _fake[n])
        self.saved = [(m, n, getattr(m, n)) for m, n in self.extra]
        for m, n, _ in self.saved:
            setattr(m, n, _fake[n])

    def __exit__(self, *a):
        for n in _names:
            setattr(np.random, n, _orig[n])
        for m, n, v in self.saved:
            setattr(m, n, v)


def paths(fn, limit=200000, extra=(), prune=0.0, stop=None):
    """list of (probability, fn()) over all outcomes of the random draws in fn; a result that
    satisfies `stop` ends the enumeration (the list is then incomplete)"""
    global _ctx
    assert _ctx is None
    out = []
    script = []
    try:
        with _patched(extra):
            while True:
                _ctx = _Ctx()
                _ctx.script = script
                _ctx.prune = prune
                res = fn()
                out.append((_ctx.prob, res))
                if stop and _ctx.prob > 0 and stop(res):
                    return out
                if len(out) > limit:
                    raise TooManyPaths(limit)
                script = _ctx.script[:_ctx.pos]
                while script and script[-1][0] + 1 == len(script[-1][1]):
                    script.pop()
                if not script:
                    return out
                script[-1][0] += 1
    finally:
        _ctx = None


def threshold(fn, tol=1e-13):
    """Fallback for code that does arithmetic on its draws: every uniform draw returns the
    same number u, permutations are the identity.  Assumes two outcomes separated by a
    single threshold in u; returns [(p, outcome), (1 - p, outcome)]."""
    assert _ctx is None
    state = {}

    def uni(*args, **kw):
        shp = _shape(args, kw.get('size'))
        return state['u'] if not shp else np.full(shp, state['u'])

    def uniform(low=0.0, high=1.0, size=None):
        return low + (high - low) * uni(size=size)

    sub = dict(rand=uni, random=lambda size=None: uni(size=size), uniform=uniform,
               permutation=lambda x: np.array(list(range(x)) if isinstance(x, (int, np.integer)) else list(x) + [None],
                                              dtype=object)[:(x if isinstance(x, (int, np.integer)) else len(x))],
               shuffle=lambda x: None)
    for n in ('random_sample', 'ranf', 'sample'):
        sub[n] = sub['random']
    for n, v in sub.items():
        setattr(np.random, n, v)
    try:
        def at(u):
            state['u'] = u
            return fn()
        lo, hi = 1e-300, 1 - 1e-16
        a, b = at(lo), at(hi)
        if a == b:
            return [(1.0, a)]
        # log-scale bisection first keeps tiny thresholds precise
        while hi / lo > 1 + tol:
            mid = (lo * hi) ** 0.5 if hi / lo > 4 else 0.5 * (lo + hi)
            if not lo < mid < hi:
                break
            m = at(mid)
            if m == a:
                lo = mid
            elif m == b:
                hi = mid
            else:
                raise Unsupported('more than two outcomes')
        return [(hi, a), (1 - hi, b)]
    finally:
        for n in _names:
            setattr(np.random, n, _orig[n])
