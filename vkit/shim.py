"""Runs the real functions of /repo on symbolic values.

`sym(f)` takes the code object that /repo's interpreter would run (f.__code__, nothing re-typed by hand) and rebinds only
its *global* names: numpy / jax.numpy / torch / jax and a few builtins (len, range, abs, ...) become the symbolic
library below; every other function or class of the meent package reached through globals is rebound in the same way, so
helpers are verified together with their callers.  Anything the symbolic library does not model raises Unsupported."""
import builtins, types, functools
import numpy as real_np
from . import alg, scal
from .scal import S, Unsupported, coerce, PI
from .alg import Arr, Mat, Stack, SegVec, Container, Masked, LastStack, Elementwise, ew, ew1, Arange
from .path import Cond

SYM = (S, Elementwise, Cond)


def is_sym(x):
    if isinstance(x, SYM):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    return False


def _mapn(f):
    def g(x, *a, **k):
        if isinstance(x, Elementwise):
            return ew1(f, x)
        return f(coerce(x))
    return g


def _tuple(shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        return tuple(shape[0])
    return tuple(shape)


class Table(dict):
    def add(self, *names):
        def d(f):
            for n in names:
                self[n] = f
            return f
        return d


LIB = Table()
for _n, _f in dict(sin=scal.sin, cos=scal.cos, exp=scal.exp, sqrt=scal.sqrt, conj=scal.conj, conjugate=scal.conj,
                   real=scal.real, imag=scal.imag, abs=scal.absval, absolute=scal.absval, tan=scal.tan,
                   arctan=lambda e: S.const(0) if coerce(e).same(S.const(0)) else scal.fn('arctan', e, real=scal.is_real(e)),
                   square=lambda e: e * e).items():
    LIB[_n] = _mapn(_f)
LIB['atan'] = LIB['arctan']


@LIB.add('eye')
def eye(n, m=None, **k):
    return alg.eye(coerce(n))


@LIB.add('identity')
def identity(n, **k):
    return alg.eye(coerce(n))


@LIB.add('zeros')
def zeros(*shape, **k):
    if 'size' in k:
        shape = k['size']
    return alg.zeros(_tuple(shape))


@LIB.add('ones')
def ones(*shape, **k):
    shape = [alg.dim(s) for s in _tuple(shape)]
    return Arr(tuple((s,) if not alg.is_one(s) else () for s in shape), S.const(1))


@LIB.add('zeros_like')
def zeros_like(a, **k):
    if isinstance(a, Mat):
        return Mat(a.rows, a.cols, [[alg.NC() for _ in a.cols] for _ in a.rows], a.batch)
    if isinstance(a, Container):
        return type(a)([zeros_like(p) for p in a.parts])
    if isinstance(a, Arr):
        return Arr(a.axes, S({}))
    return S({})


@LIB.add('ones_like')
def ones_like(a, **k):
    return full_like(a, 1)


@LIB.add('full_like')
def full_like(a, v, **k):
    if isinstance(a, Container):
        return type(a)([full_like(p, v) for p in a.parts])
    if isinstance(a, Arr):
        return Arr(a.axes, coerce(v))
    if isinstance(a, S):
        return coerce(v)
    raise Unsupported('full_like of a matrix')


@LIB.add('full')
def full(shape, v, **k):
    a = ones(shape)
    return Arr(a.axes, coerce(v))


@LIB.add('diag', 'diagflat')
def diag(v, *a, **k):
    if a and a[0] != 0:
        raise Unsupported('diag offset')
    return alg.diag(v)


@LIB.add('diagonal')
def diagonal(m, *a, **k):
    return m.diagonal()


@LIB.add('block')
def block(rows, **k):
    return alg.block(rows)


@LIB.add('hstack')
def hstack(xs, **k):
    xs = list(xs)
    return alg.concat(xs, 1 if xs[0].ndim == 2 else 0)


@LIB.add('vstack')
def vstack(xs, **k):
    return alg.concat(list(xs), 0)


@LIB.add('concatenate', 'cat')
def concatenate(xs, axis=None, dim=None, **k):
    ax = axis if axis is not None else (dim if dim is not None else 0)
    return alg.concat(list(xs), ax)


@LIB.add('stack')
def stack(xs, axis=0, dim=None, **k):
    ax = dim if dim is not None else axis
    if ax != 0:
        raise Unsupported('stack axis')
    return Stack(list(xs))


@LIB.add('tensor')
def tensor(x, *a, **k):
    scal.cut('torch.tensor', x if isinstance(x, Elementwise) else coerce(x))
    return array(x, *a, **k)


@LIB.add('array', 'asarray', 'as_tensor')
def array(x, *a, **k):
    if isinstance(x, Elementwise):
        return x.copy() if isinstance(x, (Arr, Mat)) else x
    c = coerce(x)
    if c is NotImplemented:
        raise Unsupported('array literal')
    return c


@LIB.add('where')
def where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where(cond)')
    if isinstance(c, (Cond, bool)):
        if not isinstance(a, Elementwise) and not isinstance(b, Elementwise):
            return alg.ite(c, a, b)
        return ew(lambda x, y: alg.ite(c, x, y), a, b)
    if isinstance(c, Container):
        g = lambda v, i: v.parts[i] if isinstance(v, Container) else v
        return type(c)([where(p, g(a, i), g(b, i)) for i, p in enumerate(c.parts)])
    if isinstance(c, Arr):
        ax = alg.unify(alg.unify(c.axes, a.axes if isinstance(a, Arr) else ()), b.axes if isinstance(b, Arr) else ())
        ea = a.expr if isinstance(a, Arr) else coerce(a)
        eb = b.expr if isinstance(b, Arr) else coerce(b)
        return Arr(ax, alg.ite(c.expr, ea, eb))
    raise Unsupported('where')


@LIB.add('tile')
def tile(a, reps):
    return a.tile(*(reps if isinstance(reps, (tuple, list)) else (reps,)))


@LIB.add('reshape')
def reshape(a, *s):
    return a.reshape(*s)


@LIB.add('ravel')
def ravel(a):
    return a.flatten()


@LIB.add('matmul', 'mm', 'dot')
def matmul(a, b, **k):
    return a @ b


@LIB.add('transpose')
def transpose(a, *x):
    return a.T


@LIB.add('squeeze')
def squeeze(a, *x):
    return a.squeeze(*x)


@LIB.add('multiply', 'mul')
def multiply(a, b):
    return a * b


@LIB.add('add')
def add(a, b):
    return a + b


@LIB.add('subtract', 'sub')
def subtract(a, b):
    return a - b


@LIB.add('divide', 'true_divide', 'div')
def divide(a, b):
    return a / b


@LIB.add('negative', 'neg')
def negative(a):
    return -a


@LIB.add('power', 'pow')
def power(a, b):
    return a ** b


@LIB.add('arange')
def arange(*a, **k):
    if len(a) == 1:
        return Arange(coerce(a[0]))
    if len(a) == 2 or (len(a) == 3 and coerce(a[2]).as_int() == 1):
        return alg.arange(coerce(a[0]), coerce(a[1]))
    raise Unsupported('arange')


@LIB.add('float32', 'float64', 'complex64', 'complex128')
def tofloat(a, **k):
    return coerce(a)


@LIB.add('nextafter')
def nextafter(a, b, **k):
    return S.const(1.5707962513)


@LIB.add('outer')
def outer(a, b):
    return a.reshape((-1, 1)) * b.reshape((1, -1))


@LIB.add('broadcast_to')
def broadcast_to(a, shape):
    return ones(shape) * a


@LIB.add('is_complex', 'iscomplexobj')
def is_complex(a):
    return True


@LIB.add('atleast_1d', 'ascontiguousarray', 'clone', 'copy')
def ident(a, *x, **k):
    return a.copy() if hasattr(a, 'copy') else a


@LIB.add('sign')
def sign(a):
    def f(e):
        return alg.ite(e < 0, -1, alg.ite(e > 0, 1, 0))
    return _mapn(f)(a)


LINALG = Table()
LINALG['inv'] = lambda m, **k: alg.inv(m)
LINALG['pinv'] = lambda m, **k: alg.inv(m)


@LINALG.add('solve')
def solve(a, b):
    return alg.inv(a) @ b


@LINALG.add('eig')
def eig(m, **k):
    return alg.eig(m)


class DType:
    """a scalar type that can also be called on symbolic values"""

    def __init__(self, t, impl):
        self._t, self._impl = t, impl

    def __call__(self, *a, **k):
        return self._impl(*a, **k) if is_sym(a) else self._t(*a, **k)

    def __eq__(self, o):
        return o is self._t or (isinstance(o, DType) and o._t is self._t)

    def __hash__(self):
        return hash(self._t)

    def __getattr__(self, n):
        return getattr(self._t, n)


class Shim:
    def __init__(self, real, table, subs=None, prefix=''):
        self._real, self._table, self._subs, self._prefix = real, table, subs or {}, prefix

    def __getattr__(self, n):
        if n in ('pi',):
            return PI
        if n in self._subs:
            return self._subs[n]
        r = getattr(self._real, n)
        if isinstance(r, type) and n not in self._table:
            return r
        if isinstance(r, type) and n in ('float32', 'float64', 'complex64', 'complex128'):
            return DType(r, self._table[n])
        if n in self._table:
            impl = self._table[n]

            def call(*a, **k):
                if is_sym(a) or is_sym(tuple(k.values())):
                    return impl(*a, **k)
                if n in ('array', 'asarray', 'tensor', 'as_tensor') and coerce(a[0]) is not NotImplemented:
                    return coerce(a[0])
                return r(*a, **k)
            return call
        if callable(r):
            def call2(*a, **k):
                if is_sym(a) or is_sym(tuple(k.values())):
                    raise Unsupported(f'library function {self._prefix}{n}')
                return r(*a, **k)
            return call2
        return r


class RangeSym:
    pass


def sym_len(x):
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    return builtins.len(x)


def sym_range(*a):
    if is_sym(a):
        k = [coerce(x).as_int() for x in a]
        if all(x is not None for x in k):
            return builtins.range(*k)
        raise Unsupported('loop with a symbolic number of iterations')
    return builtins.range(*a)


def sym_abs(x):
    return abs(x)


def sym_int(x, *a):
    if isinstance(x, S):
        return x
    return builtins.int(x, *a)


BUILTINS = {'len': sym_len, 'range': sym_range, 'int': sym_int}

_np_lin = None


def _mods():
    global _np_lin
    m = {}
    m['numpy'] = Shim(real_np, LIB, {'linalg': Shim(real_np.linalg, LINALG, prefix='np.linalg.')}, 'np.')
    return m


_shims = {}


def np_shim():
    if 'np' not in _shims:
        _shims['np'] = Shim(real_np, LIB, {'linalg': Shim(real_np.linalg, LINALG, prefix='np.linalg.')}, 'np.')
    return _shims['np']


def torch_shim():
    if 'torch' not in _shims:
        import torch
        _shims['torch'] = Shim(torch, LIB, {'linalg': Shim(torch.linalg, LINALG, prefix='torch.linalg.')}, 'torch.')
    return _shims['torch']


class Lax:
    @staticmethod
    def cond(p, t, f, *ops):
        if isinstance(p, (S, Cond)):
            p = bool(p != 0) if isinstance(p, S) else bool(p)
        return t(*ops) if p else f(*ops)


def jax_shim():
    if 'jax' not in _shims:
        import jax, jax.numpy as jnp
        j = Shim(jnp, LIB, {'linalg': Shim(jnp.linalg, LINALG, prefix='jnp.linalg.')}, 'jnp.')
        t = Table()
        t['jit'] = lambda f, *a, **k: f
        t['ShapeDtypeStruct'] = lambda *a, **k: None
        t['pure_callback'] = lambda f, s, *a: f(*a)
        s = Shim(jax, t, {'numpy': j, 'lax': Lax, 'ShapeDtypeStruct': t['ShapeDtypeStruct'], 'jit': t['jit'],
                          'pure_callback': t['pure_callback']}, 'jax.')
        _shims['jnp'], _shims['jax'] = j, s
    return _shims['jnp'], _shims['jax']


class ClassShim:
    """torch.autograd.Function subclasses: .apply runs the real forward"""

    def __init__(self, cls):
        self.__dict__['_c'] = cls

    def apply(self, *a):
        f = self._c.__dict__['forward']
        f = f.__func__ if isinstance(f, staticmethod) else f
        return sym(f)(*a)

    def __getattr__(self, n):
        return getattr(self._c, n)

    def __setattr__(self, n, v):
        self.__dict__[n] = v


_cache = {}
USED = {}       # functions actually executed symbolically: qualified name -> code object


def unwrap(f):
    """the plain python function under jit / custom_vjp / partial decorators"""
    for _ in range(10):
        if isinstance(f, types.FunctionType) and not hasattr(f, '__wrapped__'):
            return f
        if isinstance(f, (types.MethodType,)):
            f = f.__func__
        elif hasattr(f, '__wrapped__'):
            f = f.__wrapped__
        elif type(f).__name__ == 'custom_vjp' and hasattr(f, 'fun'):
            f = f.fun
        elif isinstance(f, functools.partial):
            f = f.func
        else:
            break
    raise Unsupported(f'cannot reach the python code of {f!r}')


class G(dict):
    """globals of a re-bound function: real globals, symbolic library"""


def _bind(v, extra):
    if v is real_np:
        return np_shim()
    if isinstance(v, types.ModuleType):
        n = v.__name__
        if n == 'torch':
            return torch_shim()
        if n == 'jax':
            return jax_shim()[1]
        if n == 'jax.numpy':
            return jax_shim()[0]
        return v
    mod = getattr(v, '__module__', '') or ''
    if isinstance(v, type):
        if mod.startswith('meent') and hasattr(v, 'apply') and 'forward' in v.__dict__:
            return ClassShim(v)
        return v
    if mod.startswith('meent') and callable(v):
        try:
            unwrap(v)
        except Unsupported:
            return v
        return sym(v, extra)
    return v


class LazyGlobals(dict):
    pass


def sym(f, extra=None):
    f = unwrap(f)
    key = (f, id(extra) if extra else None)
    if key in _cache and _cache[key][1] is extra:
        return _cache[key][0]
    g = {'__builtins__': {**vars(builtins), **BUILTINS}, '__name__': f.__globals__.get('__name__', 'meent')}
    new = types.FunctionType(f.__code__, g, f.__name__, None, f.__closure__)
    new.__kwdefaults__ = f.__kwdefaults__
    new.__defaults__ = f.__defaults__
    _cache[key] = (new, extra)          # keeps extra alive: its id is part of the key
    names = set()

    def scan(code):
        names.update(code.co_names)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                scan(c)
    scan(f.__code__)
    USED[f'{f.__module__}.{f.__qualname__}'] = f.__code__
    for n in names:
        if n in f.__globals__:
            g[n] = _bind(f.__globals__[n], extra)
    if extra:
        for n, v in extra.items():
            g[n] = v
    return new


def symclass(cls, extra, memo):
    """copy of a class of the package (and of its package bases) whose functions and properties run symbolically"""
    if cls in memo:
        return memo[cls]
    if not (getattr(cls, '__module__', '') or '').startswith('meent'):
        return cls
    new = type(cls.__name__, tuple(symclass(b, extra, memo) for b in cls.__bases__), {})
    memo[cls] = new

    def fn(f):
        f = unwrap(f)
        s = sym(f, extra)
        cl = f.__closure__
        if cl and '__class__' in f.__code__.co_freevars:
            i = f.__code__.co_freevars.index('__class__')
            if i < len(cl) and cl[i].cell_contents is cls:
                cl = cl[:i] + (types.CellType(new),) + cl[i + 1:]
                s = types.FunctionType(s.__code__, s.__globals__, s.__name__, s.__defaults__, cl)
                s.__kwdefaults__ = f.__kwdefaults__
        return s
    for n, v in cls.__dict__.items():
        if isinstance(v, property):
            setattr(new, n, property(*[fn(x) if x else None for x in (v.fget, v.fset, v.fdel)]))
        elif isinstance(v, staticmethod):
            setattr(new, n, staticmethod(fn(v.__func__)))
        elif isinstance(v, classmethod):
            setattr(new, n, classmethod(fn(v.__func__)))
        elif isinstance(v, types.FunctionType) or hasattr(v, '__wrapped__'):
            try:
                setattr(new, n, fn(v))
            except Unsupported:
                pass
        elif not n.startswith('__'):
            setattr(new, n, v)
    for v in new.__dict__.values():
        v = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
        for f in ([v.fget, v.fset, v.fdel] if isinstance(v, property) else [v]):
            if isinstance(f, types.FunctionType):
                for n, o in f.__globals__.items():
                    if isinstance(o, type) and o in memo:
                        f.__globals__[n] = memo[o]
    return new
