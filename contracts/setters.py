"""Contracts of the parameter setters and constructors, for all values of every accepted spelling.

The real classes are copied with their functions re-bound (shim.symclass); numpy / jax.numpy / torch are replaced by the small
array library below (construction, stacking, selection, indexing) on symbolic scalars.  `type`, `isinstance` and `int` see a
symbolic number as a Python int or float."""
import builtins, importlib, time
from vkit.contract import *
from vkit import scal, shim, path
from vkit.scal import S, Unsupported, coerce
from vkit.path import PATH, Cond, intsym

REJECT = (ValueError, TypeError, AttributeError, IndexError, KeyError, NotImplementedError, AssertionError, RuntimeError)


def is_int(s):
    ids = [i for t in s.terms for i, _ in t]
    return all(i in path.INT_ATOMS for i in ids) and all(c[0].denominator == 1 and c[1] == 0 for c in s.terms.values())


class Ten:
    """array: scalar or (nested) list of symbolic scalars"""
    __array_ufunc__ = None
    dtype = None
    requires_grad = False

    def __init__(self, v, dt=None):
        self.v, self.dtype = v, dt

    def like(self, v):
        return builtins.type(self)(v, self.dtype)

    @property
    def ndim(self):
        n, v = 0, self.v
        while isinstance(v, list):
            n, v = n + 1, v[0] if v else None
        return n

    def dim(self):
        return self.ndim

    @property
    def shape(self):
        s, v = [], self.v
        while isinstance(v, list):
            s.append(builtins.len(v))
            v = v[0] if v else None
        return tuple(s)

    @property
    def size(self):
        n = 1
        for k in self.shape:
            n *= k
        return n

    def numel(self):
        return self.size

    def __len__(self):
        if not isinstance(self.v, list):
            raise TypeError('len() of a 0-d array')
        return builtins.len(self.v)

    def __iter__(self):
        return iter([self[i] for i in range(builtins.len(self))])

    def __getitem__(self, k):
        if not isinstance(self.v, list):
            if k == () or k is Ellipsis:
                return self
            raise IndexError('too many indices')
        r = self.v[k]
        return self.like(r)

    def tolist(self):
        return self.v

    def item(self):
        v = self.v
        while isinstance(v, list) and builtins.len(v) == 1:
            v = v[0]
        if isinstance(v, list):
            raise ValueError('only one element')
        return v

    def to(self, *a, **k):
        d = k.get('dtype', next((x for x in a if 'float' in str(x) or 'complex' in str(x) or 'int' in str(x)), self.dtype))
        return builtins.type(self)(self.v, d)

    def type(self, d=None):
        return self.to(d)
    astype = to

    def copy(self, *a, **k):
        return self.like(self.v)
    clone = detach = cpu = copy

    def reshape(self, *s):
        s = s[0] if builtins.len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        if tuple(s) == ():
            return self.like(self.item())
        if tuple(s) in ((-1,), (1,)):
            return self.like(flat(self.v))
        raise Unsupported('reshape')

    def flatten(self):
        return self.like(flat(self.v))
    ravel = flatten

    def map(self, f):
        return self.like(tree(f, self.v))

    def bin(self, o, f):
        if isinstance(o, Ten):
            o = o.v
        if isinstance(o, list):
            raise Unsupported('elementwise operation of two arrays')
        c = coerce(o)
        if c is NotImplemented:
            return NotImplemented
        return self.map(lambda x: f(x, c))

    def __add__(self, o): return self.bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self.bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self.bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self.bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self.bin(o, lambda a, b: a / b)
    def __neg__(self): return self.map(lambda a: -a)
    def __abs__(self): return self.map(lambda a: scal.absval(coerce(a)))

    @property
    def real(self):
        return self.map(scal.real)

    def cmp(self, o, f):
        if isinstance(self.v, list):
            raise Unsupported('comparison of an array')
        if isinstance(o, Ten):
            o = o.item()
        c = coerce(o)
        if c is NotImplemented:
            return False
        return f(self.v, c)

    def __eq__(self, o): return self.cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self.cmp(o, lambda a, b: a == b)
        return ~r if isinstance(r, Cond) else not r
    def __lt__(self, o): return self.cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self.cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self.cmp(o, lambda a, b: b < a)
    def __ge__(self, o): return self.cmp(o, lambda a, b: b <= a)
    __hash__ = None

    def __bool__(self):
        if isinstance(self.v, list):
            raise Unsupported('truth of an array')
        return bool(self.v != 0)

    def __repr__(self):
        return f'Ten({self.v})'


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def tree(f, v):
    return [tree(f, x) for x in v] if isinstance(v, list) else f(v)


class NumT(Ten):
    pass


class TorT(Ten):
    pass


class JaxT(Ten):
    pass


class Cell:
    """raster cell: only its shape, rank, scalar type and the equality of its three index components are known"""
    __array_ufunc__ = None

    def __init__(self, name, shape, dtype, eq=None):
        self.name, self.shape, self.dtype, self.eq = name, shape, dtype, eq

    @property
    def ndim(self):
        return builtins.len(self.shape)

    def dim(self):
        return self.ndim

    def to(self, *a, **k):
        d = k.get('dtype', next((x for x in a if x is not None and 'cpu' not in str(x)), self.dtype))
        return builtins.type(self)(self.name, self.shape, d, self.eq)

    def astype(self, dtype, **k):
        return self.to(dtype=dtype)
    type = astype

    def __getitem__(self, k):
        if isinstance(k, tuple) and builtins.len(k) == 2 and k[0] is Ellipsis:
            return Comp(self, k[1])
        raise Unsupported('element of a cell')

    def __len__(self):
        raise Unsupported('len(cell)')

    def sym_len(self):
        return self.shape[0]


class Comp:
    def __init__(self, c, k):
        self.c, self.k = c, k


class NumCell(Cell, NumT):
    __init__ = Cell.__init__
    ndim, dim, to, astype, type, shape = Cell.ndim, Cell.dim, Cell.to, Cell.astype, Cell.type, None
    __getitem__, __len__ = Cell.__getitem__, Cell.__len__


class TorCell(Cell, TorT):
    __init__ = Cell.__init__
    ndim, dim, to, astype, type, shape = Cell.ndim, Cell.dim, Cell.to, Cell.astype, Cell.type, None
    __getitem__, __len__ = Cell.__getitem__, Cell.__len__


class JaxCell(Cell, JaxT):
    __init__ = Cell.__init__
    ndim, dim, to, astype, type, shape = Cell.ndim, Cell.dim, Cell.to, Cell.astype, Cell.type, None
    __getitem__, __len__ = Cell.__getitem__, Cell.__len__


CELLS = {NumT: NumCell, TorT: TorCell, JaxT: JaxCell}


def entry(x):
    if isinstance(x, Ten):
        return x.v
    if isinstance(x, (list, tuple)):
        return [entry(y) for y in x]
    if x is None or isinstance(x, (str, dict)):
        raise TypeError(f'not a number: {x!r}')
    c = coerce(x)
    if c is NotImplemented:
        if hasattr(x, 'shape') and builtins.len(x.shape) == 0:
            return coerce(x.item())
        raise TypeError(f'not a number: {x!r}')
    return c


class Lib:
    def __init__(self, real, kind):
        self._r, self._k = real, kind

    def __getattr__(self, n):
        k = self._k
        if n == 'pi':
            return scal.PI
        if n in ('ndarray', 'Tensor'):
            return k if hasattr(self._r, n) else getattr(self._r, n)
        if n in ('array', 'asarray', 'tensor', 'as_tensor', 'from_numpy'):
            def f(x, dtype=None, *a, **kw):
                if isinstance(x, Cell):
                    return CELLS[k](x.name, x.shape, dtype or x.dtype, x.eq)
                return k(entry(x), dtype)
            return f
        if n == 'where':
            def where(c, a, b):
                if isinstance(c, Ten):
                    c = c.v
                t = bool(c)
                return k(entry(a if t else b))
            return where
        if n in ('cat', 'concatenate', 'hstack', 'concat'):
            return lambda xs, *a, **kw: k([e for x in xs for e in flat(entry(x))])
        if n == 'stack':
            return lambda xs, *a, **kw: k([entry(x) for x in xs])
        if n in ('repeat', 'tile'):
            def rep(x, m, *a, **kw):
                v = flat(entry(x))
                return k([e for e in v for _ in range(m)] if n == 'repeat' else v * m)
            return rep
        if n == 'full':
            return lambda s, v, *a, **kw: k([entry(v)] * (s if isinstance(s, int) else s[0]))
        if n == 'atleast_1d':
            return lambda x: k(flat(entry(x)))
        if n in ('size', 'ndim', 'shape'):
            def f(x):
                t = k(entry(x))
                return getattr(t, n)
            return f
        if n == 'allclose':
            def allclose(a, b, *x, **kw):
                if isinstance(a, Comp) and isinstance(b, Comp) and a.c.eq is not None:
                    p, q = sorted((a.k % 3, b.k % 3))
                    return True if p == q else bool(S.sym(f'same{p}{q}_{a.c.name}', real=True) == 0)
                raise Unsupported('allclose')
            return allclose
        if n == 'is_tensor':
            return lambda x: isinstance(x, k)
        if n in ('iscomplexobj', 'is_complex'):
            return lambda x: 'complex' in str(getattr(x, 'dtype', ''))
        r = getattr(self._r, n)
        if callable(r) and not isinstance(r, builtins.type):
            def call(*a, **kw):
                raise Unsupported(f'library function {n}')
            return call
        return r


def pytype(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, S):
        return pyint if is_int(x) else pyfloat
    if builtins.type(x) in (int, float):
        return pyint if builtins.type(x) is int else pyfloat
    for c in (NumCell, TorCell, JaxCell):
        if builtins.type(x) is c:
            return c.__mro__[2] if False else c.__bases__[1]
    return builtins.type(x)


def pyisinstance(x, t):
    ts = tuple({pyint: int, pyfloat: float}.get(c, c) for c in (t if isinstance(t, tuple) else (t,)))
    if isinstance(x, S):
        py = int if is_int(x) else float
        return any(issubclass(py, c) for c in ts if isinstance(c, builtins.type)) or any(c is S for c in ts)
    return isinstance(x, ts)


def pyint(x, *a):
    if isinstance(x, Ten):
        x = x.item()
    if isinstance(x, S):
        if is_int(x):
            return x
        return scal.fn('trunc', x, real=True)
    return int(x, *a)


def pyfloat(x, *a):
    if isinstance(x, Ten):
        x = x.item()
    return x if isinstance(x, S) else float(x, *a)


ROOTS = {'numpy': ('meent.on_numpy.mee', 'MeeNumpy'), 'jax': ('meent.on_jax.mee', 'MeeJax'), 'torch': ('meent.on_torch.mee', 'MeeTorch')}


class World:
    def __init__(self, be):
        import numpy
        self.be = be
        mod, name = ROOTS[be]
        cls = get(importlib.import_module(mod), name)
        self.np = Lib(numpy, NumT)
        ex = dict(np=self.np, type=pytype, isinstance=pyisinstance, int=pyint, float=pyfloat, len=shim.sym_len, print=lambda *a, **k: None)
        self.lib, self.kind = self.np, NumT
        if be == 'torch':
            import torch
            ex['torch'] = self.lib = Lib(torch, TorT)
            self.kind = TorT
        if be == 'jax':
            import jax, jax.numpy as jnp
            ex['jnp'] = self.lib = Lib(jnp, JaxT)
            ex['jax'] = jax
            self.kind = JaxT
        self.extra = ex
        memo = {}
        self.cls = shim.symclass(cls, ex, memo)

    def new(self, **kw):
        m = object.__new__(self.cls)
        m.__init__(**kw)
        return m


def state(m):
    return dict(m.__dict__)


def plain(v):
    """comparable value: symbolic scalars, lists, constants"""
    if isinstance(v, Cell):
        return ('cell', v.name, str(v.dtype))
    if isinstance(v, Ten):
        return plain(v.v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def equal_goals(name, a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
            yield name, False
            return
        for i, (x, y) in enumerate(zip(a, b)):
            yield from equal_goals(f'{name}[{i}]', x, y)
        return
    if a is None or b is None or isinstance(a, (str, tuple, bool)) or isinstance(b, (str, tuple, bool)):
        yield name, a == b and (a is None) == (b is None)
        return
    ca, cb = coerce(a), coerce(b)
    if ca is NotImplemented or cb is NotImplemented:
        yield name, a is b or str(a) == str(b)
        return
    yield name, ca, cb


def spellings(w, param):
    """(label, spelled value, value that must be in force)"""
    f, i = S.sym('v', real=True), intsym('n')
    g, j = S.sym('u', real=True), intsym('m')
    T = w.kind
    arr = [('ndarray', NumT)] + ([('native array', T)] if T is not NumT else [])
    if param == 'fto':
        tr = lambda x: scal.fn('trunc', x, real=True)
        out = [('int', i, [i, 0]), ('float', f, [tr(f), 0]), ('[int]', [i], [i, 0]), ('(int,)', (i,), [i, 0]), ('[int, int]', [i, j], [i, j]),
               ('(int, int)', (i, j), [i, j]), ('[float, float]', [f, g], [tr(f), tr(g)]), ('(float,)', (f,), [tr(f), 0])]
        for nm, A in arr:
            out += [(f'{nm} of one', A([i]), [i, 0]), (f'{nm} of two', A([i, j]), [i, j]), (f'0-d {nm}', A(i), [i, 0]), (f'float {nm}', A([f, g]), [tr(f), tr(g)])]
        return out
    if param == 'period':
        out = [('int', i, [i, i]), ('float', f, [f, f]), ('[x]', [f], [f, f]), ('(x,)', (f,), [f, f]), ('[x, y]', [f, g], [f, g]), ('(x, y)', (f, g), [f, g]),
               ('(int, int)', (i, j), [i, j])]
        for nm, A in arr:
            out += [(f'{nm} of one', A([f]), [f, f]), (f'{nm} of two', A([f, g]), [f, g])]
        return out
    if param == 'thickness':
        out = [('int', i, [i]), ('float', f, [f]), ('[x]', [f], [f]), ('(x, y)', (f, g), [f, g]), ('[x, y, int]', [f, g, i], [f, g, i])]
        for nm, A in arr:
            out += [(f'{nm} of one', A([f]), [f]), (f'{nm} of three', A([f, g, i]), [f, g, i])]
        if w.be == 'torch':
            out.append(('list with a tensor', [TorT(f), g], [f, g]))
        return out
    if param in ('theta', 'phi', 'psi'):
        pert = S.sym('pert', real=True)
        out = [('float', f, f), ('int', i, i)] + [(f'0-d {nm}', A(f), f) for nm, A in arr]
        if param != 'psi':
            out.append(('None', None, None))
        return out
    if param == 'pol':
        return [('float', f, f), ('int', i, i)]
    if param in ('n_top', 'n_bot', 'wavelength'):
        return [('float', f, f), ('int', i, i), ('complex', S.sym('z'), S.sym('z'))]
    if param in ('fourier_type',):
        return [('0', 0, 0), ('1', 1, 1)]
    if param in ('enhanced_dfs', 'use_pinv'):
        return [('True', True, True), ('False', False, False)]
    if param == 'connecting_algo':
        return [('TMM', 'TMM', 'TMM')]
    raise KeyError(param)


PARAMS = ('fto', 'period', 'thickness', 'theta', 'phi', 'psi', 'pol', 'n_top', 'n_bot', 'wavelength', 'fourier_type', 'enhanced_dfs', 'use_pinv', 'connecting_algo')
GROUP = {'pol': {'pol', 'psi'}, 'psi': {'pol', 'psi'}}
EPS = 1e-6           # jax accepts pol up to this margin outside [0, 1] and uses the border value


def in_range(w, v):
    """pol accepted"""
    lo, hi = (0, 1) if w.be != 'jax' else (-EPS, 1 + EPS)
    return (coerce(v) >= lo) & (coerce(v) <= hi) if not coerce(v).is_const() else lo <= v <= hi


def read_goals(w, m, param, want, val, what):
    if param == 'theta' and want is not None:
        zero = coerce(want) == 0
        if (zero if isinstance(zero, bool) else bool(zero)):
            want = m.perturbation
    if param == 'pol' and w.be == 'jax':
        c = coerce(want)
        if c < 0:
            want = S.const(0)
        elif c > 1:
            want = S.const(1)
    yield from equal_goals(f'{what}: {param} reads back the value', getattr(m, param), want)
    if param == 'pol':
        yield from equal_goals(f'{what}: psi follows pol', m.psi, scal.PI / 2 * (1 - coerce(want)))
    if param == 'psi':
        yield from equal_goals(f'{what}: pol follows psi', m.pol, 1 - 2 * coerce(want) / scal.PI)


DEFAULTS = dict(theta='#t', phi='#p', period=['#x', '#y'], thickness=['#d', '#e'], wavelength='#w', n_top='#nt', n_bot='#nb')


def base_kw():
    mk = lambda v: [S.sym(x, real=True) for x in v] if isinstance(v, list) else S.sym(v, real=True)
    kw = {k: mk(v) for k, v in DEFAULTS.items()}
    kw['fto'] = [intsym('#fx'), intsym('#fy')]
    kw['pol'] = S.const(0)
    PATH.assume(~(kw['theta'] == 0))
    return kw


def prove_params(rep, be):
    for param in PARAMS:
        try:
            labels = [s[0] for s in spellings(World(be), param)]
        except Unsupported as e:
            rep.ob(f'{be}.{param}', 'unsupported', '-', 0, str(e))
            continue
        for q, lab in enumerate(labels):
            def run(q=q):
                w = World(be)
                _, val, want = spellings(w, param)[q]
                if param == 'pol' and not coerce(val).is_const():
                    PATH.assume(~(coerce(val) < 0) & ~(S.const(1) < coerce(val)))
                m = w.new(**base_kw())
                before = state(m)
                setattr(m, param, val)
                yield from read_goals(w, m, param, want, val, 'assigned')
                after = state(m)
                yield 'no parameter appears or disappears', set(before) == set(after)
                mine = {param, '_' + param} | {x for n in GROUP.get(param, ()) for x in (n, '_' + n)}
                for k in before:
                    if k not in mine and k in after:
                        yield from equal_goals(f'frame: {k} is untouched', after[k], before[k])
                kw = base_kw()
                kw[param] = val
                m2 = w.new(**kw)
                yield from read_goals(w, m2, param, want, val, 'constructor argument')
                for k in sorted(set(after) | set(m2.__dict__)):
                    yield from equal_goals(f'constructor argument and later assignment agree: {k}', m2.__dict__.get(k), after.get(k))
            prove_run(rep, f'{be}.{param}[{lab}]', run)


def prove_pol_psi(rep, be):
    def run():
        w = World(be)
        p = S.sym('p', real=True)
        PATH.assume(~(p < 0) & ~(S.const(1) < p))
        a, b = w.new(**base_kw()), w.new(**base_kw())
        a.pol = p
        b.psi = scal.PI / 2 * (1 - p)
        for k in sorted(set(a.__dict__) | set(b.__dict__)):
            yield from equal_goals(f'pol = p and psi = (1 - p) pi/2 leave the same state: {k}', a.__dict__.get(k), b.__dict__.get(k))
        kw = base_kw()
        kw.update(psi=scal.PI / 2 * (1 - p))
        c = w.new(**kw)
        for k in sorted(set(a.__dict__) | set(c.__dict__)):
            yield from equal_goals(f'psi as constructor argument: {k}', a.__dict__.get(k), c.__dict__.get(k))
    prove_run(rep, f'{be}.pol/psi', run)


def prove_reject(rep, be):
    f = S.sym('v', real=True)
    i, j, k = intsym('n'), intsym('m'), intsym('l')

    def run_pol():
        w = World(be)
        m = w.new(**base_kw())
        before = state(m)
        try:
            m.pol = f
        except REJECT:
            yield 'a value in [0, 1] is never refused', (f < 0) | (S.const(1) < f)
            for n in before:
                yield from equal_goals(f'refused: {n} keeps its value', m.__dict__.get(n), before[n])
        else:
            yield 'a value outside [0, 1] is never accepted', in_range(w, f)
    prove_run(rep, f'{be}.pol[any real]', run_pol)
    bad = dict(fto=[('three orders', [i, j, k]), ('no orders', []), ('string', 'abc'), ('None', None), ('ndarray of three', NumT([i, j, k]))],
               period=[('string', 'abc'), ('None', None), ('dict', {})], thickness=[('string', 'abc'), ('None', None), ('dict', {})],
               type_complex=[('string', 'abc'), ('2', 2), ('None', None)], ucell=[('string', 'abc'), ('number', 1.5), ('dict', {}), ('tuple', (1, 2))])
    if be == 'torch':
        bad['ucell'] += [('two-dimensional array', NumT([[i, j]])), ]
    for param, cases in bad.items():
        for lab, val in cases:
            def run(param=param, val=val):
                w = World(be)
                m = w.new(**base_kw())
                before = state(m)
                try:
                    setattr(m, param, val)
                except REJECT:
                    yield 'refused', True
                else:
                    yield 'refused', False
                for n in before:
                    if n == '_modeling_type_assigned':
                        continue
                    yield from equal_goals(f'refused: {n} keeps its value', m.__dict__.get(n), before[n])
            prove_run(rep, f'{be}.{param}[invalid: {lab}]', run)


def prove_cell(rep, be):
    """raster cells are stored in the precision of the calculation, integer and float cells alike, and mark the object as raster"""
    w0 = World(be)
    import numpy
    dts = [(NumCell, d) for d in (numpy.float64, numpy.float32, numpy.int64, numpy.int32, numpy.complex128, numpy.complex64)]
    if be == 'torch':
        import torch
        dts = [(TorCell, d) for d in (torch.float64, torch.float32, torch.int64, torch.int32, torch.complex128, torch.complex64)]
    if be == 'jax':
        dts += [(JaxCell, d) for d in (numpy.float64, numpy.float32, numpy.int64, numpy.int32, numpy.complex128, numpy.complex64)]
    for C, d in dts:
        def run(C=C, d=d):
            w = World(be)
            m = w.new(**base_kw())
            before = state(m)
            m.ucell = C('U', (intsym('L'), intsym('H'), intsym('W')), d)
            yield 'the cell is stored', isinstance(m.ucell, Cell) and m.ucell.name == 'U'
            want = m.type_complex if 'complex' in str(d) else m.type_float
            yield 'scalar type of the calculation', m.ucell.dtype == want
            yield 'marked as raster', m.modeling_type_assigned == 0
            for n in before:
                if n not in ('_ucell', '_modeling_type_assigned'):
                    yield from equal_goals(f'frame: {n} is untouched', m.__dict__.get(n), before[n])
            m.ucell = [[1.5, []]]
            yield 'a list is a vector description', m.modeling_type_assigned == 1 and m.ucell == [[1.5, []]]
            m.ucell = C('U', (intsym('L'), intsym('H'), intsym('W')), d)
            yield 'marked as raster again', m.modeling_type_assigned == 0
        prove_run(rep, f'{be}.ucell[{C.__name__} {d}]', run)


def prove_types(rep, be):
    import numpy
    names = {'numpy': numpy}
    if be == 'torch':
        import torch as nat
    elif be == 'jax':
        import jax.numpy as nat
    else:
        nat = numpy
    for lab, val, want in (('0', 0, 128), ('1', 1, 64), ('np.complex128', numpy.complex128, 128), ('np.complex64', numpy.complex64, 64),
                           ('native complex128', nat.complex128, 128), ('native complex64', nat.complex64, 64)):
        def run(val=val, want=want):
            w = World(be)
            m = w.new(**base_kw())
            before = state(m)
            m.type_complex = val
            yield 'complex type in force', m.type_complex == getattr(nat, f'complex{want}')
            yield 'float type in force', m.type_float == getattr(nat, f'float{want // 2}')
            yield 'int type in force', m.type_int == getattr(nat, f'int{want // 2}')
            for n in before:
                if n not in ('_type_complex', '_type_float', '_type_int'):
                    yield from equal_goals(f'frame: {n} keeps its value', m.__dict__.get(n), before[n])
            kw = base_kw()
            m2 = w.new(type_complex=val, **kw)
            for n in ('type_complex', 'type_float', 'type_int'):
                yield f'constructor argument: {n}', getattr(m2, n) == getattr(m, n)
        prove_run(rep, f'{be}.type_complex[{lab}]', run)


def form_name(k):
    return {0: '1D', 1: '1D conical', 2: '2D'}.get(k, str(k))


def prove_dispatch(rep, be):
    """which formulation is chosen, for all values of phi, pol, orders and cell shapes"""
    for raster in (True, False):
        for phi_none in (True, False):
            for four in ((False, True) if be == 'torch' and raster else (False,)):
                def run(raster=raster, phi_none=phi_none, four=four):
                    w = World(be)
                    kw = base_kw()
                    pol, phi = S.sym('pol', real=True), S.sym('phi', real=True)
                    PATH.assume(~(pol < 0) & ~(S.const(1) < pol))
                    L, H, W = intsym('L'), intsym('H'), intsym('W')
                    for v in (L, H, W):
                        PATH.assume(~(v < 1))
                    kw.update(pol=pol, phi=None if phi_none else phi)
                    fy = kw['fto'][1]
                    PATH.assume(~(fy < 0))
                    C = CELLS[w.kind]
                    dt = {'numpy': 'float64', 'jax': 'float64', 'torch': 'float64'}[be]
                    cell = C('U', (L, H, W) + ((3,) if four else ()), getattr(w.lib._r, dt), True if four else None) if raster else [[1.5, []]]
                    m = w.new(ucell=cell, **kw)
                    called = []
                    for f in ('solve_1d', 'solve_1d_conical', 'solve_2d'):
                        object.__getattribute__(m, '__dict__')[f] = (lambda *a, f=f, **k: called.append((f, a, k)) or {})
                    args = tuple(S.sym(x) for x in ('wl', 'ex', 'ey', 'ez'))
                    m.solve_for_conv(*args)
                    yield 'exactly one formulation is run', len(called) == 1
                    if len(called) != 1:
                        return
                    f, a, k = called[0]
                    yield 'with the convolution matrices of the structure', all(coerce(x).same(coerce(y)) for x, y in zip(list(a) + list(k.values()), args)) and len(a) + len(k) == 4
                    pure = (pol == 0) | (pol == 1)
                    row = (H == 1)
                    nophi = True if phi_none else (phi == 0)
                    if not raster:
                        yield 'vector structures: 2D', f == 'solve_2d'
                        return
                    one = row & pure & (fy == 0)
                    one = (one & nophi) if nophi is not True else one
                    # every formulation is run only where it applies; the 2D one always does
                    if f == 'solve_1d':
                        yield '1D only for a one-row cell, pure polarisation, no azimuth and no y orders', one
                    elif f == 'solve_1d_conical':
                        yield 'conical only for a one-row cell', row
                        if four:
                            yield 'conical not for anisotropic cells', not m.is_aniso
                    else:
                        yield '2D: applies to every cell', True
                prove_run(rep, f'{be}.formulation[{"raster" if raster else "vector"}, phi {"None" if phi_none else "given"}{", anisotropic cell" if four else ""}]', run)


def task(be):
    def t(rep):
        prove_params(rep, be)
        prove_pol_psi(rep, be)
        prove_reject(rep, be)
        prove_cell(rep, be)
        prove_types(rep, be)
        rep.assume('contract of array construction, stacking, where and casting in numpy/jax/torch (values preserved)')
    return t


def dispatch_task(be):
    def t(rep):
        prove_dispatch(rep, be)
    return t
