"""Tensors of symbolic shape as index functions.

A tensor is  sum over its pending bound axes of  body(index, bound).  A dimension is a list of atomic axes (row-major merged);
a dimension of size 1 has none.  Elements are scalars of the scal algebra, evaluated at symbolic integer indices under the path
explorer, so an element that is defined by cases (concatenation, roll, masked assignment) splits the path.
Used to execute the real Fourier-analysis code for all cell sizes and truncation orders."""
import weakref
from . import scal, path, shim
from .scal import S, Unsupported, coerce
from .path import PATH, Cond, intsym

SAFE = []          # index-in-range obligations met on the current path
MODS = {}
WRITES = []        # (array, first index) of element assignments
_depth = [0]
_fresh = [0]


def reset():
    SAFE.clear()
    WRITES.clear()
    MODS.clear()
    _depth[0] = 0
    _fresh[0] = 0


def one(e):
    return coerce(e).as_int() == 1


def same(a, b):
    return (coerce(a) - coerce(b)).is_zero()


def prod(xs):
    r = S.const(1)
    for x in xs:
        r = r * x
    return r


def dim(n):
    """a dimension of size n"""
    n = coerce(n)
    return [] if one(n) else [n]


def generic(name, n):
    """an index symbol with 0 <= i < n assumed"""
    i = intsym(name)
    PATH.assume(~(i < 0))
    PATH.assume(i < coerce(n))
    return i


def bvar(d, n):
    """canonical bound index at nesting depth d for a range of size n (variables of different ranges are different)"""
    return generic(f'#b{d}[{coerce(n)}]', n)


def delta(i, j):
    return scal.delta(coerce(i) - coerce(j))


def ind(c):
    """1 where the integer condition c = (e < 0) holds"""
    if isinstance(c, bool):
        return S.const(1 if c else 0)
    if c.op == 'not':
        return 1 - ind(c.args[0])
    if c.op != 'lt':
        raise Unsupported('indicator')
    v = settled(c)
    return S.const(1 if v else 0) if v is not None else scal.lt0(c.args[0])


def settled(c):
    """truth value of c if the facts of the path decide it"""
    if isinstance(c, bool):
        return c
    v = PATH.known.get(c.ckey())
    if v is not None:
        return v
    if path.check(PATH.facts + [~c])[0] == 'unsat':
        return True
    if path.check(PATH.facts + [c])[0] == 'unsat':
        return False
    return None


def isbound(k):
    return any(a.kind == 'sym' and str(a.args[0]).startswith('#b') for a in scal.atoms_of(coerce(k)))


def lin(idx, sizes):
    r = S.const(0)
    for i, n in zip(idx, sizes):
        r = r * n + i
    return r


def split(k, sizes):
    """atomic indices of a linear index: only single-axis dimensions"""
    if len(sizes) == 0:
        return ()
    if len(sizes) == 1:
        return (k,)
    raise Unsupported('integer index into a merged dimension')


def _has(a, d):
    """does atom a contain the bound index d"""
    if a is d:
        return True
    for z in a.args:
        if isinstance(z, S):
            if d in scal.atoms_of(z):
                return True
        elif a.kind == 'conj' and d in scal.atoms_of(S.of_atom(scal._by_id[z])):
            return True
    return False


def pinned(v, b, ba, n):
    """the value of v where the path fixes the bound index to its first or last value (the comparison of two sums on such a path is
    the comparison of their bodies there)"""
    nf = [f for f in PATH.facts if ba in cond_atoms(f)]
    if len(nf) <= 2:
        return v
    for c in (S.const(0), n - 1):
        try:
            if path.check(PATH.facts + [~(b == c)])[0] == 'unsat':
                return scal.subst(v, {ba: c})
        except Unsupported:
            pass
    return v


def cond_atoms(c):
    out = set()
    for z in c.args:
        if isinstance(z, S):
            scal.atoms_of(z, out)
        elif isinstance(z, Cond):
            out |= cond_atoms(z)
    return out


def bsum(sizes, body):
    """closed form of a pending sum (first axis innermost), distributed by linearity; each sum of a monomial is an opaque atom keyed by
    its body at canonical bound indices"""
    if not sizes:
        return body(())
    n = sizes[-1]
    if coerce(n).as_int() is not None and coerce(n).as_int() <= 8:
        v = S.const(0)
        for q in range(coerce(n).as_int()):
            v = v + coerce(bsum(sizes[:-1], lambda r: body(tuple(r) + (S.const(q),))))
        return v
    d = _depth[0]
    _depth[0] += 1
    try:
        b = bvar(d, n)
        v = coerce(bsum(sizes[:-1], lambda r: body(tuple(r) + (b,))))
    finally:
        _depth[0] = d
    ba = scal._by_id[next(iter(b.terms))[0][0]]
    if FLAT[0]:
        return fsum(v, b, ba, n)
    v = pinned(v, b, ba, n)
    out = S({})
    for m, c in v.terms.items():
        o, i = S({(): c}), []
        for aid, ex in m:
            a = scal._by_id[aid]
            if a.kind == 'exp' and ex == 1 and _has(a, ba):
                dep, ind = S({}), S({})
                for m2, c2 in a.args[0].terms.items():
                    t = S({m2: c2})
                    if any(_has(scal._by_id[q], ba) for q, _ in m2):
                        dep = dep + t
                    else:
                        ind = ind + t
                if ind.terms:
                    o = o * scal.exp(ind)
                    e2 = scal.exp(dep)
                    if len(e2.terms) != 1 or next(iter(e2.terms.values())) != (scal.ONE, scal.ZERO):
                        raise Unsupported('exponent of a summand')
                    i += list(next(iter(e2.terms)))
                    continue
            if _has(a, ba):
                i.append((aid, ex))
            else:
                o = o * S({((aid, ex),): (scal.ONE, scal.ZERO)})
        if i:
            out = out + o * scal.fn('sum', n, S({tuple(sorted(i)): (scal.ONE, scal.ZERO)}))
        else:
            out = out + o * n
    return out


FLAT = [False]


def fsum(v, b, ba, n):
    """sum of v over b in flattened normal form: Kronecker deltas are eliminated, constant factors pulled out, nested sums merged
    into one sum over several indices whose numbering is canonical"""
    out = S({})
    for m, c in v.terms.items():
        done = False
        for q, (aid, ex) in enumerate(m):
            a = scal._by_id[aid]
            if a.kind != 'delta' or not _has(a, ba):
                continue
            e = a.args[0]
            cf = e.terms.get(((ba.id, 1),))
            if cf is None or cf[1] != 0 or abs(cf[0]) != 1:
                continue
            r = b - e / S({(): cf})
            if ba in scal.atoms_of(r):
                continue
            if settled(r < 0) is not False or settled(r < n) is not True:
                continue
            rest = S({m[:q] + m[q + 1:]: c})
            out = out + scal.subst(rest, {ba: r})
            done = True
            break
        if done:
            continue
        o, i = S({(): c}), S.const(1)
        inner = []
        for aid, ex in m:
            a = scal._by_id[aid]
            one_ = S({((aid, ex),): (scal.ONE, scal.ZERO)})
            if a.kind == 'exp' and ex == 1 and _has(a, ba):
                dep, indep = S({}), S({})
                for m2, c2 in a.args[0].terms.items():
                    t = S({m2: c2})
                    if any(_has(scal._by_id[q], ba) for q, _ in m2):
                        dep = dep + t
                    else:
                        indep = indep + t
                o = o * scal.exp(indep)
                i = i * scal.exp(dep)
            elif not _has(a, ba):
                o = o * one_
            elif a.kind == 'msum' and ex == 1:
                inner.append(a)
            else:
                i = i * one_
        if not inner and i.same(S.const(1)):
            out = out + o * n
            continue
        vs = [(ba, n)]
        for a in inner:
            env = {}
            for sz, var in zip(a.args[0::2][:-1] if len(a.args) % 2 == 0 else a.args[0:-1:2], a.args[1:-1:2]):
                _fresh[0] += 1
                w = intsym(f'#m{_fresh[0]}')
                wa = scal._by_id[next(iter(w.terms))[0][0]]
                env[scal._by_id[next(iter(var.terms))[0][0]]] = w
                vs.append((wa, sz))
            i = i * scal.subst(a.args[-1], env)
        out = out + o * canon_sum(vs, i)
    return out


def canon_sum(vs, body):
    import itertools
    vs = sorted(vs, key=lambda t: repr(coerce(t[1])))
    groups = [list(g) for _, g in itertools.groupby(vs, key=lambda t: repr(coerce(t[1])))]
    import math
    if math.prod(math.factorial(len(g)) for g in groups) > 144:
        raise Unsupported('sum over too many indices')
    best = None
    names = [intsym(f'#s{j}') for j in range(len(vs))]
    for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
        order = [t for g in perm for t in g]
        t = scal.subst(body, {a: names[j] for j, (a, _) in enumerate(order)})
        k = repr(t.key())
        if best is None or k < best[0]:
            best = (k, t, order)
    _, t, order = best
    args = []
    for j, (_, sz) in enumerate(order):
        args += [coerce(sz), names[j]]
    # a body that is a sum of monomials (cannot happen for monomials, except through renormalisation) is kept whole
    return scal.fn('msum', *args, t)


def conj_msum(a):
    vs = [(scal._by_id[next(iter(v.terms))[0][0]], n) for n, v in zip(a.args[0:-1:2], a.args[1:-1:2])]
    return canon_sum(vs, scal.conj(a.args[-1]))


scal.CONJ['msum'] = conj_msum


class Ix:
    __array_priority__ = 1000

    def __init__(self, dims, fn, bound=(), periodic=None, cond=False):
        self.dims = [list(d) for d in dims]
        self.fn = fn
        self.bound = tuple(bound)
        self.periodic = periodic or {}
        self.iscond = cond

        self.base, self.views = None, []

    def snap(self):
        return Ix(self.dims, self.fn, self.bound, self.periodic, self.iscond)

    def view_(self, v):
        """v shares memory with self (numpy, torch): writing to either while both live is outside the engine"""
        v.base = self
        self.views = [w for w in self.views if w() is not None] + [weakref.ref(v)]
        return v

    # ------------------------------------------------------------------ structure
    @property
    def shape(self):
        return tuple(prod(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def sym_len(self):
        return self.shape[0]

    def elem(self, k):
        return self[k]

    @property
    def requires_grad(self):
        """differentiated or not: both cases are explored"""
        return bool(S.sym('requires_grad', real=True) < 0)

    @property
    def dtype(self):
        return complex

    @property
    def device(self):
        return None

    def flat(self):
        return [n for d in self.dims for n in d]

    def unflat(self, idx):
        out, p = [], 0
        for d in self.dims:
            out.append(tuple(idx[p:p + len(d)]))
            p += len(d)
        return out

    def at_(self, idx, bnd=()):
        return self.fn(tuple(coerce(i) for i in idx), tuple(bnd))

    def el(self, *idx):
        """closed scalar at atomic indices"""
        idx = tuple(coerce(i) for i in idx)
        return bsum(self.bound, lambda b: self.fn(idx, b))

    def close(self):
        if not self.bound:
            return self
        return Ix(self.dims, lambda i, b, s=self.snap(): s.el(*i))

    def astype(self, *_a, **_k):
        return self
    type = to = copy = clone = contiguous = detach = conj_physical = resolve_conj = requires_grad_ = astype

    def squeeze(self, axis=None, dim=None, **k):
        ax = axis if axis is not None else dim
        if ax is None or k or not isinstance(ax, int):
            raise Unsupported('squeeze')
        ax %= self.ndim
        if self.dims[ax]:
            raise Unsupported('squeeze of a dimension that is not 1')
        return self.view_(Ix(self.dims[:ax] + self.dims[ax + 1:], self.fn, self.bound, None, self.iscond))

    def unsqueeze(self, ax):
        ax = ax % (self.ndim + 1)
        return self.view_(Ix(self.dims[:ax] + [[]] + self.dims[ax:], self.fn, self.bound, None, self.iscond))

    @property
    def T(self):
        return self.transpose()

    def t(self):
        return self.transpose()

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        n = self.ndim
        if not ax:
            ax = tuple(range(n))[::-1]
        ax = [int(coerce(a).as_int()) % n for a in ax]
        if MODE[0] == 'torch' and len(ax) == 2 and n >= 2:         # Tensor.transpose(d0, d1) exchanges two dimensions
            p = list(range(n))
            p[ax[0]], p[ax[1]] = ax[1], ax[0]
            return self._perm(p)
        if sorted(ax) != list(range(n)):
            raise Unsupported('transpose')
        return self._perm(ax)

    def permute(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        ax = [int(coerce(a).as_int()) % self.ndim for a in ax]
        if sorted(ax) != list(range(self.ndim)):
            raise Unsupported('permute')
        return self._perm(ax)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self._perm(ax)

    @property
    def mT(self):
        return self.swapaxes(-1, -2)

    def _perm(self, ax):
        old = self.dims
        nd = [old[a] for a in ax]

        def f(i, b, s=self.snap()):
            parts = Ix(nd, None).unflat(i)
            o = [None] * len(ax)
            for k, a in enumerate(ax):
                o[a] = parts[k]
            return s.fn(tuple(x for p in o for x in p), b)
        return Ix(nd, f, self.bound, {k: self.periodic[a] for k, a in enumerate(ax) if a in self.periodic}, self.iscond)

    def moveaxis(self, a, b):
        n = self.ndim
        a, b = a % n, b % n
        ax = [x for x in range(n) if x != a]
        ax.insert(b, a)
        return self._perm(ax)
    movedim = moveaxis

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = [coerce(x) for x in s]
        fl = self.flat()
        neg = [k for k, x in enumerate(s) if x.as_int() == -1]
        if len(neg) > 1:
            raise Unsupported('reshape')

        def take(sizes, atoms):
            """match sizes to consecutive atoms"""
            out, p = [], 0
            for n in sizes:
                g = []
                acc = S.const(1)
                while not same(acc, n):
                    if p >= len(atoms):
                        return None
                    g.append(atoms[p])
                    acc = acc * atoms[p]
                    p += 1
                    if len(g) > 4:
                        return None
                out.append(g)
            return out, p
        if neg:
            k = neg[0]
            head = take(s[:k], fl)
            if head is None:
                raise Unsupported(f'reshape to {s}')
            tail = take(s[k + 1:][::-1], fl[::-1])
            if tail is None or head[1] + tail[1] > len(fl):
                raise Unsupported(f'reshape to {s}')
            mid = fl[head[1]:len(fl) - tail[1]]
            nd = head[0] + [mid] + [g[::-1] for g in tail[0][::-1]]
        else:
            r = take(s, fl)
            if r is None or r[1] != len(fl):
                raise Unsupported(f'reshape {self.shape} to {s}')
            nd = r[0]
        return Ix(nd, self.fn, self.bound, None, self.iscond)
    view = reshape

    def flatten(self, *a):
        return Ix([self.flat()], self.fn, self.bound, None, self.iscond)
    ravel = flatten

    # ------------------------------------------------------------------ element-wise
    def _align(self, o):
        n = max(self.ndim, o.ndim)
        A = [[]] * (n - self.ndim) + self.dims
        B = [[]] * (n - o.ndim) + o.dims
        out = []
        for a, b in zip(A, B):
            if not a or not b:
                out.append(a or b)
            elif len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)):
                out.append(a)
            else:
                raise Unsupported(f'shapes {self.shape} and {o.shape}')

        def sel(dims, i):
            parts = Ix(out, None).unflat(i)
            return tuple(x for p, d in zip(parts, dims) if d for x in p)
        return out, (lambda i: sel(A, i)), (lambda i: sel(B, i))

    def _bin(self, o, op, linear=False, mul=False, div=False, cond=False):
        if isinstance(o, Masked):
            return NotImplemented
        if not isinstance(o, Ix):
            c = coerce(o)
            if c is NotImplemented:
                return NotImplemented
            o = Ix([], lambda i, b, c=c: c)
        a, b_ = self.snap(), o.snap()
        if mul:
            pass
        elif div:
            b_ = b_.close()
        elif linear:
            if a.bound != b_.bound and not (len(a.bound) == len(b_.bound) and all(same(x, y) for x, y in zip(a.bound, b_.bound))):
                a, b_ = a.close(), b_.close()
        else:
            a, b_ = a.close(), b_.close()
        dims, sa, sb = a._align(b_)
        na = len(a.bound)
        if mul or div:
            return Ix(dims, lambda i, b: op(a.fn(sa(i), b[:na]), b_.fn(sb(i), b[na:])), a.bound + b_.bound)
        return Ix(dims, lambda i, b: op(a.fn(sa(i), b), b_.fn(sb(i), b)), a.bound, None, cond)

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y, linear=True)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y, linear=True)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return Ix(self.dims, lambda i, b, f=self.fn: -f(i, b), self.bound)

    def __pos__(self):
        return self

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y, mul=True)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda x, y: x / y, div=True)

    def __rtruediv__(self, o):
        s = self.close().snap()
        return Ix(s.dims, lambda i, b: coerce(o) / s.fn(i, b))

    def __pow__(self, e):
        s = self.close().snap()
        return Ix(s.dims, lambda i, b: s.fn(i, b) ** coerce(e))

    def square(self):
        return self ** 2

    def conj(self):
        return self.map(scal.conj)

    def map(self, f):
        s = self.close().snap()
        memo = {}

        def g(i, b):
            k = tuple(z.key() for z in i)
            if k not in memo:
                memo[k] = f(s.fn(i, b))
            return memo[k]
        return Ix(s.dims, g)

    def __eq__(self, o):
        return self._bin(o, lambda x, y: x == y, cond=True)

    def __ne__(self, o):
        return self._bin(o, lambda x, y: x != y, cond=True)

    def __lt__(self, o):
        return self._bin(o, lambda x, y: x < y, cond=True)

    def __gt__(self, o):
        return self._bin(o, lambda x, y: x > y, cond=True)

    def __le__(self, o):
        return self._bin(o, lambda x, y: x <= y, cond=True)

    def __ge__(self, o):
        return self._bin(o, lambda x, y: x >= y, cond=True)

    def __mod__(self, o):
        return self.map(lambda x: mod(x, coerce(o)))

    def __abs__(self):
        return self.map(absolute)
    abs = __abs__

    @property
    def real(self):
        return self.map(scal.real)

    @property
    def imag(self):
        return self.map(scal.imag)
    __hash__ = object.__hash__

    def __invert__(self):
        if not self.iscond:
            raise Unsupported('~ of a numeric tensor')
        return Ix(self.dims, lambda i, b, f=self.fn: (not f(i, b)) if isinstance(f(i, b), bool) else ~f(i, b), (), None, True)

    def all(self, *a, **k):
        if not self.iscond or a or k:
            raise Unsupported('all')
        return quant('all', self)

    def any(self, *a, **k):
        if not self.iscond or a or k:
            raise Unsupported('any')
        r = quant('all', ~self)
        return (not r) if isinstance(r, bool) else ~r

    def item(self):
        if any(self.dims):
            raise Unsupported('item')
        return self.el()

    def __float__(self):
        raise Unsupported('float of a tensor')

    def __iter__(self):
        n = self.shape[0].as_int() if self.ndim else None
        if n is None or n > 8:
            raise Unsupported('iteration over a tensor outside a for statement')
        return iter([self[k] for k in range(n)])

    def __bool__(self):
        if any(self.dims):
            raise Unsupported('truth value of a tensor')
        return bool(self.fn((), ()) if self.iscond else (self.el() != 0))

    # ------------------------------------------------------------------ products
    def __matmul__(self, o):
        if self.ndim == 0 or o.ndim == 0:
            raise Unsupported('matmul')
        a, b_ = self.snap(), o.snap()
        va, vb = a.ndim == 1, b_.ndim == 1
        ka, kb = a.dims[-1], b_.dims[0 if vb else -2]
        single = lambda k: k
        pa = pb = single
        if not (len(ka) == len(kb) and all(same(x, y) for x, y in zip(ka, kb))):
            if not same(prod(ka), prod(kb)):
                raise Unsupported(f'matmul {self.shape} @ {o.shape}')
            if len(ka) == 1:
                pa, kk = (lambda k: (lin(k, kb),)), kb
            elif len(kb) == 1:
                pb, kk = (lambda k: (lin(k, ka),)), ka
            else:
                raise Unsupported('matmul over differently merged dimensions')
        else:
            kk = ka
        A, B = Ix([] if va else a.dims[:-2], None), Ix([] if vb else b_.dims[:-2], None)
        bat, sa, sb = A._align(B)
        row = [] if va else [a.dims[-2]]
        col = [] if vb else [b_.dims[-1]]
        w = sum(len(d) for d in bat)
        wr = len(row[0]) if row else 0
        na, nb = len(a.bound), len(b_.bound)

        def f(i, b):
            ba, bb, k = b[:na], b[na:na + nb], b[na + nb:]
            h, r, c = i[:w], i[w:w + wr], i[w + wr:]
            return a.fn(tuple(sa(h)) + tuple(r) + tuple(pa(k)), ba) * b_.fn(tuple(sb(h)) + tuple(pb(k)) + tuple(c), bb)
        return Ix(bat + row + col, f, a.bound + b_.bound + tuple(kk))

    def sum(self, axis=None, dim=None, **k):
        ax = axis if axis is not None else dim
        if ax is None or k or not isinstance(ax, int):
            raise Unsupported('sum')
        ax %= self.ndim
        d = self.dims[ax]
        nd = self.dims[:ax] + self.dims[ax + 1:]
        p = sum(len(x) for x in self.dims[:ax])
        nb = len(self.bound)

        def f(i, b, fn=self.fn):
            return fn(tuple(i[:p]) + tuple(b[nb:]) + tuple(i[p:]), b[:nb])
        return Ix(nd, f, self.bound + tuple(d))

    # ------------------------------------------------------------------ indexing
    def _norm(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        n = sum(1 for x in ix if x is not None and x is not Ellipsis)
        out = []
        for x in ix:
            if x is Ellipsis:
                out += [slice(None)] * (self.ndim - n)
            else:
                out.append(x)
        m = sum(1 for x in out if x is not None)
        return out + [slice(None)] * (self.ndim - m)

    def __getitem__(self, ix):
        if isinstance(ix, (list, Sel)):
            sel = [q for q, v in enumerate(ix) if v is True or v is False or isinstance(v, int)]
            if len(sel) == len(ix) and ix and all(isinstance(v, bool) for v in ix):
                n = self.shape[0].as_int() if self.ndim else None
                if n is None or n != len(ix):
                    raise Unsupported('selection')
                pos = [q for q, v in enumerate(ix) if v]
                lead = len(self.dims[0])
                old = self.snap()
                nd = [dim(S.const(len(pos)))] + self.dims[1:]
                lw = len(nd[0])

                def g(i, b):
                    k = i[0].as_int() if lw else 0
                    if k is None:
                        for q in range(len(pos) - 1):
                            if i[0] == q:
                                k = q
                                break
                        else:
                            k = len(pos) - 1
                    return old.fn(((S.const(pos[k]),) if lead else ()) + tuple(i[lw:]), b)
                return Ix(nd, g, self.bound)
            raise Unsupported('list index')
        ix = self._norm(ix)
        pr = self._pair(ix)
        if pr:
            d, n = pr
            old = self.snap()
            p = sum(len(x) for x in self.dims[:d])
            if len(self.dims[d]) != len(self.dims[d + 1]):
                raise Unsupported('diagonal of differently merged dimensions')
            w = len(self.dims[d])

            def g(i, b):
                return old.fn(tuple(i[:p + w]) + tuple(i[p:p + w]) + tuple(i[p + w:]), b)
            return Ix(self.dims[:d + 1] + self.dims[d + 2:], g, self.bound)
        masks = [x for x in ix if isinstance(x, Ix) and x.iscond]
        if masks:
            if len(masks) > 1 or any(not (isinstance(x, slice) and x == slice(None)) and x is not masks[0] for x in ix):
                raise Unsupported('mixed masked indexing')
            return Masked(self, [k for k, x in enumerate(ix) if x is masks[0]][0], masks[0])
        nd, pick = [], []          # pick: functions index-parts -> atomic indices of one source dimension
        d = 0
        per = {}
        for x in ix:
            if x is None:
                nd.append([])
                continue
            src = self.dims[d]
            N = prod(src)
            if isinstance(x, slice):
                if x == slice(None):
                    q = len(nd)
                    nd.append(src)
                    if d in self.periodic:
                        per[q] = self.periodic[d]
                    pick.append(lambda parts, q=q: parts[q])
                else:
                    lo, n, st = slice_range(x, N)
                    q = len(nd)
                    if len(src) > 1:
                        raise Unsupported('slice of a merged dimension')
                    nd.append(dim(n))
                    pick.append(lambda parts, q=q, lo=lo, st=st, src=src: ((lo + st * (parts[q][0] if parts[q] else S.const(0)),) if src else ()))
            elif isinstance(x, Ix):
                if x.bound:
                    raise Unsupported('index tensor with a sum')
                q = len(nd)
                nd += x.dims
                pick.append(lambda parts, q=q, x=x, src=src, N=N, p=d in self.periodic: self._wrap(x.fn(tuple(y for z in parts[q:q + x.ndim] for y in z), ()), src, N, p))
            else:
                k = coerce(x)
                if k is NotImplemented:
                    raise Unsupported(f'index {x!r}')
                pick.append(lambda parts, k=k, src=src, N=N, p=d in self.periodic: self._wrap(k, src, N, p))
            d += 1
        if sum(1 for x in ix if isinstance(x, Ix)) > 1:
            raise Unsupported('several index tensors')
        shape = Ix(nd, None)

        def f(i, b, fn=self.fn):
            parts = shape.unflat(i)
            return fn(tuple(y for p in pick for y in p(parts)), b)
        r = Ix(nd, f, self.bound, per, self.iscond)
        if not nd and not self.iscond:
            return r.el()
        return r if any(isinstance(x, Ix) for x in ix) else self.view_(r)

    def _pair(self, ix):
        """x[..., idx, idx, ...] with idx = 0..n-1: the diagonal of two adjacent axes"""
        t = [k for k, x in enumerate(ix) if isinstance(x, Ix) and not x.iscond]
        if len(t) != 2 or t[1] != t[0] + 1 or any(not (isinstance(x, slice) and x == slice(None)) for k, x in enumerate(ix) if k not in t):
            return None
        for k in t:
            x = ix[k]
            if x.ndim != 1 or x.bound or not same(prod(x.dims[0]), prod(self.dims[k])):
                return None
            if len(x.dims[0]) == 1:
                z = intsym('#diag')
                if not same(x.fn((z,), ()), z):
                    return None
        return t[0], prod(self.dims[t[0]])

    def _wrap(self, k, src, N, periodic):
        k = coerce(k)
        SAFE.append(('index in range', (~(k < -N)) if not isinstance(k < -N, bool) else not (k < -N),
                     (k < N)))
        if not src:
            return ()
        if periodic:
            return (k,)          # the axis is N-periodic (discrete Fourier transform): no wrap needed
        if k < 0:
            k = k + N
        return split(k, src)

    def __setitem__(self, ix, v):
        if self.base is not None or any(w() is not None for w in self.views):
            raise Unsupported('assignment to a tensor that shares memory with another')
        new = self._set(ix, v)
        self.fn, self.bound = new.fn, new.bound

    def _set(self, ix, v):
        ix = self._norm(ix)
        pr = self._pair(ix)
        if pr:
            d, n = pr
            oc = self.snap().close()
            vc = ix_(v).close()
            p = sum(len(x) for x in self.dims[:d])
            w = len(self.dims[d])
            if w > 1 or len(self.dims[d + 1]) != w:
                raise Unsupported('assignment to the diagonal of merged dimensions')
            tgt = Ix(self.dims[:d + 1] + self.dims[d + 2:], lambda i, b: S.const(0))
            dims, _, sv = tgt._align(vc)

            def g(i, b):
                if w and (isbound(i[p]) or isbound(i[p + w])):
                    q = delta(i[p], i[p + w])
                    if not q.is_const():
                        return coerce(oc.fn(i, ())) * (1 - q) + coerce(vc.fn(sv(tuple(i[:p + w]) + tuple(i[p + 2 * w:])), ())) * q
                if w and not i[p] == i[p + w]:
                    return oc.fn(i, ())
                return vc.fn(sv(tuple(i[:p + w]) + tuple(i[p + 2 * w:])), ())
            WRITES.append((self, None))
            return Ix(self.dims, g, (), None, self.iscond)
        old = Ix(self.dims, self.fn, self.bound, self.periodic, self.iscond)
        if old.bound and not any(isinstance(x, Ix) and x.iscond for x in ix):
            old = old.close()
        masks = [k for k, x in enumerate(ix) if isinstance(x, Ix) and x.iscond]
        if masks:
            if len(masks) > 1 or any(not (isinstance(x, slice) and x == slice(None)) for k, x in enumerate(ix) if k not in masks):
                raise Unsupported('masked assignment')
            d, m = masks[0], ix[masks[0]].snap()
            if isinstance(v, Masked):
                if v.mask is not m and v.mask.fn is not m.fn:
                    raise Unsupported('assignment between different masks')
                v = v.t
            elif isinstance(v, Ix):
                raise Unsupported('masked assignment of an unmasked tensor')
            else:
                c = coerce(v)
                v = Ix([], lambda i, b: c)
            oc, vc = old.close(), v.close()
            dims, sa, sb = oc._align(vc)
            p = sum(len(x) for x in self.dims[:d])
            w = len(self.dims[d])
            return Ix(self.dims, lambda i, b: vc.fn(sb(i), ()) if m.fn(tuple(i[p:p + w]), ()) else oc.fn(i, ()), (), None, self.iscond)
        if any(isinstance(x, Ix) for x in ix) or any(x is None for x in ix):
            raise Unsupported('assignment through an index tensor')
        if not isinstance(v, Ix):
            if isinstance(v, bool) or (isinstance(v, S) is False and coerce(v) is NotImplemented):
                c = v
            else:
                c = coerce(v)
            v = Ix([], lambda i, b, c=c: c)
        v = v.close()
        keep = []            # dims kept (slices), others fixed
        fixed = []
        part = {}            # dims with a partial slice: (first, length)
        for d, x in enumerate(ix):
            if isinstance(x, slice):
                if x != slice(None):
                    lo, n, st = slice_range(x, prod(self.dims[d]))
                    if st != 1 or len(self.dims[d]) != 1:
                        raise Unsupported('partial slice assignment')
                    part[d] = (lo, n)
                keep.append(d)
            else:
                k = coerce(x)
                N = prod(self.dims[d])
                ki = k.as_int()
                if ki is not None and ki < 0:
                    k = N + k
                fixed.append((d, k))
                SAFE.append(('index in range', ~(k < -N) if not isinstance(k < -N, bool) else not (k < -N), k < N))
        if fixed and fixed[0][0] == 0:
            WRITES.append((self, fixed[0][1]))
        else:
            WRITES.append((self, None))
        tgt = Ix([dim(part[d][1]) if d in part else self.dims[d] for d in keep], lambda i, b: S.const(0))
        if v.ndim > len(keep) and not any(v.dims[:v.ndim - len(keep)]):
            v = Ix(v.dims[v.ndim - len(keep):], v.fn)
        dims, st, sv = tgt._align(v)
        if len(dims) != len(keep) or any(len(a) != len(t) for a, t in zip(dims, tgt.dims)):
            raise Unsupported('assignment shapes')
        off = [sum(len(x) for x in self.dims[:d]) for d in range(self.ndim)]

        def f(i, b):
            for d, k in fixed:
                if len(self.dims[d]) > 1:
                    raise Unsupported('assignment into a merged dimension')
                if self.dims[d] and not i[off[d]] == k:
                    return old.fn(i, ())
            at = []
            for d in keep:
                if d in part:
                    lo, n = part[d]
                    if i[off[d]] < lo or not i[off[d]] < lo + n:
                        return old.fn(i, ())
                    at += [i[off[d]] - lo] if not one(n) else []
                else:
                    at += i[off[d]:off[d] + len(self.dims[d])]
            return v.fn(sv(tuple(at)), ())
        return Ix(self.dims, f, (), None, self.iscond)

    @property
    def at(self):
        return At(self)

    def repeat_interleave(self, n, dim=None, axis=None, **k):
        return repeat(self, n, dim if dim is not None else axis)

    def repeat(self, *a, **k):
        if 'axis' in k or len(a) == 2:
            return repeat(self, *a, **k)
        raise Unsupported('repeat')


class At:
    def __init__(self, t):
        self.t = t

    def __getitem__(self, ix):
        return AtIx(self.t, ix)


class AtIx:
    def __init__(self, t, ix):
        self.t, self.ix = t, ix

    def set(self, v, **k):
        new = self.t._set(self.ix, v)
        return new

    def add(self, v, **k):
        if isinstance(v, (list, tuple)):
            v = array(v)
        return self.t._set(self.ix, self.t[self.ix] + v)


class Masked:
    """t[..., mask, ...]: positions outside the mask are irrelevant"""

    def __init__(self, t, d, mask):
        self.t, self.d, self.mask = t.snap(), d, mask

    def _op(self, o, f):
        if isinstance(o, Masked):
            if o.mask is not self.mask and o.mask.fn is not self.mask.fn:
                raise Unsupported('different masks')
            return Masked(f(self.t, o.t), self.d, self.mask)
        if isinstance(o, Ix):
            raise Unsupported('masked with unmasked')
        return Masked(f(self.t, o), self.d, self.mask)

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __rtruediv__(self, o):
        return Masked(o / self.t, self.d, self.mask)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __neg__(self):
        return Masked(-self.t, self.d, self.mask)


def slice_range(x, N):
    st = coerce(x.step).as_int() if x.step is not None else 1

    def end(e, dflt):
        if e is None:
            return dflt
        e = coerce(e)
        k = e.as_int()
        if k is not None and k < 0:
            return N + e
        return e
    if st == 1:
        lo = end(x.start, S.const(0))
        hi = end(x.stop, N)
        return lo, hi - lo, 1
    if st == -1 and x.start is None and x.stop is None:
        return N - 1, N, -1
    raise Unsupported('slice')


def quant(name, c):
    """for-all over the elements of a condition tensor: an opaque proposition keyed by its body"""
    sizes = c.flat()
    d = _depth[0]
    _depth[0] += len(sizes)
    try:
        b = tuple(bvar(d + i, n) for i, n in enumerate(sizes))
        v = c.fn(b, ())
    finally:
        _depth[0] = d
    if isinstance(v, bool):
        return v
    return scal.fn('forall', *sizes, path.as_num(v), real=True) == 1


def tensor(name, *sizes, real=False):
    """an arbitrary tensor"""
    return Ix([dim(n) for n in sizes], lambda i, b: scal.fn('el_' + name, *i, real=real))


# ------------------------------------------------------------------------------------------ library
class LibError(Unsupported):
    pass


def ix(x):
    if isinstance(x, Ix):
        return x
    if type(x).__name__ == 'Arr' and all(n == 1 for d in x.shape for n in [coerce(d).as_int()]):        # a scalar reshaped to a one-element array
        return Ix([[] for _ in range(x.ndim)], lambda i, b: x.expr)
    c = coerce(x)
    if c is NotImplemented:
        raise Unsupported(f'not a tensor: {type(x).__name__}')
    return Ix([], lambda i, b: c)


ix_ = ix


class Sel(list):
    """array of booleans of known length"""


def diag(v, k=0, **kw):
    if not isinstance(v, Ix) or v.ndim != 1 or coerce(k).as_int() != 0:
        raise Unsupported('diag')
    v = v.close().snap()
    w = len(v.dims[0])

    def f(i, b):
        d = prod([delta(p, q) for p, q in zip(i[:w], i[w:])])
        return d * v.fn(tuple(i[:w]), ()) if d.terms else d
    return Ix([v.dims[0], v.dims[0]], f)


def eye(n, m=None, **k):
    n = coerce(n)
    if m is not None and not same(n, m):
        raise Unsupported('eye')
    return Ix([dim(n), dim(n)], lambda i, b: delta(i[0], i[1]) if i else S.const(1))


def block(rows, **k):
    if not isinstance(rows, (list, tuple)):
        return rows
    if rows and not isinstance(rows[0], (list, tuple)):
        return concat(list(rows), -1)
    return concat([concat(list(r), -1) for r in rows], -2)


def linspace(lo, hi, n=None, num=None, steps=None, **k):
    n = coerce(n if n is not None else num if num is not None else steps)
    if k.get('endpoint', True) is not True:
        raise Unsupported('linspace')
    lo, hi = coerce(lo), coerce(hi)

    def f(i, b):
        if not i:
            return lo
        # frac(i, n) = i/(n-1), 0 for a single sample
        return lo + (hi - lo) * frac(i[0], n)
    return Ix([dim(n)], f)


def frac(i, n):
    return scal.fn('frac', coerce(i), coerce(n), real=True)


def tile(a, reps, *more, **k):
    a = a.snap()
    if more:
        reps = (reps,) + more
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    reps = [coerce(r) for r in reps]
    nd = max(a.ndim, len(reps))
    D = [[]] * (nd - a.ndim) + a.dims
    reps = [S.const(1)] * (nd - len(reps)) + reps
    out = [([] if one(r) else [r]) + d for r, d in zip(reps, D)]

    def f(i, b):
        parts = Ix(out, None).unflat(i)
        return a.fn(tuple(x for q, d in zip(parts, D) for x in (q[len(q) - len(d):] if d else ())), b)
    return Ix(out, f, a.bound)


def diag_indices_from(a):
    n = prod(a.dims[0])
    return (arange(n),) * a.ndim


def shape_of(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return [coerce(x) for x in s]


def roll(a, shifts=None, axis=None, dims=None, shift=None, **k):
    a = a.snap()
    sh = coerce(shifts if shifts is not None else shift).as_int()
    ax = axis if axis is not None else dims
    if isinstance(ax, (tuple, list)):
        ax = ax[0]
    if ax is None and sum(1 for d in a.dims if d) == 1:
        ax = [k for k, d in enumerate(a.dims) if d][0]
    if ax is None or sh not in (1, -1):
        raise Unsupported('roll')
    ax %= a.ndim
    src = a.dims[ax]
    if len(src) == 0:
        return a
    if len(src) > 1:
        raise Unsupported('roll of a merged dimension')
    N = src[0]
    p = sum(len(x) for x in a.dims[:ax])

    def f(i, b):
        k = i[p] - sh
        if sh == -1:
            if k == N:
                k = S.const(0)
        elif k < 0:
            k = k + N
        return a.fn(tuple(i[:p]) + (k,) + tuple(i[p + 1:]), b)
    return Ix(a.dims, f, a.bound, None, a.iscond)


def arange(*a, **k):
    a = [coerce(x) for x in a]
    lo, hi = (S.const(0), a[0]) if len(a) == 1 else (a[0], a[1])
    st = a[2].as_int() if len(a) == 3 else 1
    if st not in (1, -1):
        raise Unsupported('arange step')
    n = (hi - lo) if st == 1 else (lo - hi)
    return Ix([dim(n)], lambda i, b: lo + st * (i[0] if i else S.const(0)))


def full(shape, v, **k):
    s = shape_of((shape,))
    if isinstance(v, bool):
        return Ix([dim(n) for n in s], lambda i, b: v, cond=True)
    v = coerce(v)
    return Ix([dim(n) for n in s], lambda i, b: v)


def is_tensor(x):
    return isinstance(x, Ix)


def _isbool(k):
    d = k.get('dtype')
    return d is bool or getattr(d, '__name__', '') in ('bool', 'bool_') or str(d) == 'torch.bool'


class OnesLike(Ix):
    """ones(...).type(bool)"""
    def type(self, t=None, *a, **k):
        if _isbool({'dtype': t}):
            return Ix(self.dims, lambda i, b: True, cond=True)
        return self
    astype = to = type

    def bool(self):
        return Ix(self.dims, lambda i, b: True, cond=True)


def ones(*s, **k):
    s = shape_of(s)
    if _isbool(k):
        return Ix([dim(n) for n in s], lambda i, b: True, cond=True)
    return OnesLike([dim(n) for n in s], lambda i, b: S.const(1))


def zeros(*s, **k):
    dt = [x for x in s if not isinstance(x, (S, int, tuple, list))]
    s = [x for x in s if isinstance(x, (S, int, tuple, list))]
    return Ix([dim(n) for n in shape_of(s)], lambda i, b: S.const(0))


def vstack(xs, **k):
    xs = [ix(x) if not isinstance(x, Ix) else x for x in xs]
    xs = [Ix([[]] + x.dims, x.fn, x.bound) if x.ndim == 1 else x for x in xs]
    return concat(xs, 0)


def concat(xs, axis=0, dim=None, **k):
    if dim is not None:
        axis = dim
    xs = [x.close().snap() for x in xs]
    n = xs[0].ndim
    axis %= n
    sizes = [prod(x.dims[axis]) for x in xs]
    for x in xs[1:]:
        if x.ndim != n or any(len(a) != len(b) or not all(same(p, q) for p, q in zip(a, b))
                              for k2, (a, b) in enumerate(zip(x.dims, xs[0].dims)) if k2 != axis):
            raise Unsupported('concatenate shapes')
    tot = sizes[0]
    for s in sizes[1:]:
        tot = tot + s
    nd = list(xs[0].dims)
    nd[axis] = globals()['dim'](tot)
    p = sum(len(d) for d in xs[0].dims[:axis])

    def f(i, b):
        if len(nd[axis]) == 0:
            for x, s in zip(xs, sizes):
                if not same(s, 0):
                    return x.fn(i, ())
        k = i[p]
        if FLAT[0] and isbound(k):
            tot_, lo_ = S({}), S.const(0)
            for j, (x, s) in enumerate(zip(xs, sizes)):
                w = S.const(1)
                if j:
                    w = w * (1 - ind(k < lo_))
                if j < len(xs) - 1:
                    w = w * ind(k < lo_ + s)
                if w.terms:
                    if len(x.dims[axis]) > 1:
                        raise Unsupported('concatenate along a merged dimension')
                    tot_ = tot_ + w * coerce(x.fn(tuple(i[:p]) + ((k - lo_,) if x.dims[axis] else ()) + tuple(i[p + 1:]), ()))
                lo_ = lo_ + s
            return tot_
        for j, (x, s) in enumerate(zip(xs, sizes)):
            last = j == len(xs) - 1
            if last or k < s:
                if len(x.dims[axis]) > 1:
                    raise Unsupported('concatenate along a merged dimension')
                return x.fn(tuple(i[:p]) + ((k,) if x.dims[axis] else ()) + tuple(i[p + 1:]), ())
            k = k - s
    return Ix(nd, f)


def exp(a, **k):
    if isinstance(a, Ix):
        if a.bound and all(n is None for n in a.bound):
            pass
        return a.map(scal.exp)
    return scal.exp(coerce(a))


def fft(a, n=None, axis=-1, dim=None, norm=None, **k):
    a = a.snap()
    if n is not None or norm is not None or k:
        raise Unsupported('fft options')
    ax = (dim if dim is not None else axis) % a.ndim
    if ax != a.ndim - 1:
        perm = list(range(a.ndim))
        perm[ax], perm[-1] = perm[-1], perm[ax]
        return fft(a._perm(perm))._perm(perm)
    N = a.dims[-1]
    Nt = prod(N)
    la = sum(len(d) for d in a.dims[:-1])
    nb = len(a.bound)

    def f(i, b):
        y = b[nb:]
        k = lin(i[la:], N) if len(N) > 1 else (i[la] if N else S.const(0))
        return a.fn(tuple(i[:la]) + tuple(y), b[:nb]) * scal.exp(S.const(-2j) * shim.PI * lin(y, N) * k / Nt)
    out = [Nt] if N else []
    return Ix(a.dims[:-1] + [out], f, a.bound + tuple(N), {a.ndim - 1: True})


def inv(a, **k):
    a = a.snap()
    if a.ndim < 2:
        raise Unsupported('inv')
    a = a.close()
    r, c = a.dims[-2], a.dims[-1]
    if len(r) != len(c) or not all(same(x, y) for x, y in zip(r, c)):
        raise Unsupported('inverse of a non-square matrix')
    la = sum(len(d) for d in a.dims[:-2])
    w = len(r)

    def f(i, b):
        lead = tuple(i[:la])
        d = _depth[0]
        _depth[0] += 2 * w
        try:
            bb = tuple(bvar(d + j, n) for j, n in enumerate(list(r) + list(c)))
            body = coerce(a.fn(lead + bb, ()))
        finally:
            _depth[0] = d
        return scal.fn('minv', prod(r), body, *i[la:])
    return Ix(a.dims, f)


def repeat(a, n=None, axis=None, dim=None, repeats=None, total_repeat_length=None, **k):
    a = a.snap()
    n = coerce(n if n is not None else repeats)
    ax = axis if axis is not None else dim
    if ax is None:
        raise Unsupported('repeat without an axis')
    ax %= a.ndim
    if total_repeat_length is not None and not same(coerce(total_repeat_length), a.shape[ax] * n):
        raise Unsupported('repeat with a different total length')
    nd = list(a.dims)
    nd[ax] = list(a.dims[ax]) + ([] if one(n) else [n])
    p = sum(len(d) for d in a.dims[:ax + 1])
    x = 0 if one(n) else 1

    def f(i, b):
        return a.fn(tuple(i[:p]) + tuple(i[p + x:]), b)
    return Ix(nd, f, a.bound)


def flipud(a):
    return a[::-1]


def flip(a, axis=None, dims=None):
    ax = axis if axis is not None else dims
    if isinstance(ax, (tuple, list)):
        if len(ax) != 1:
            raise Unsupported('flip')
        ax = ax[0]
    if ax is None:
        raise Unsupported('flip')
    ax %= a.ndim
    return a[tuple([slice(None)] * ax + [slice(None, None, -1)])]


class Generic:
    """the generic item of a list built by a loop: item(b) for block b, n of them"""

    def __init__(self, n, item):
        self.n, self.item = n, item


def _lst(x):
    return isinstance(x, list) and len(x) == 1 and isinstance(x[0], Generic)


def stack_generic(g, cat=False):
    it = g.item(S.const(0))
    if isinstance(it, S):
        return Ix([dim(g.n)], lambda i, b: g.item(i[0] if i else S.const(0)))
    dims = it.dims
    if cat:
        if dims[0]:
            raise Unsupported('concatenation of blocks')
        dims = dims[1:]
    nd = [dim(g.n)] + dims
    w = len(nd[0])
    return Ix(nd, lambda i, b: g.item(i[0] if w else S.const(0)).el(*i[w:]))


class Small(tuple):
    """array of a few scalars"""
    def __rtruediv__(self, o):
        return Small(coerce(o) / x for x in self)

    def __truediv__(self, o):
        return Small(x / o for x in self)

    def __mul__(self, o):
        return Small(x * o for x in self)
    __rmul__ = __mul__

    def astype(self, *a, **k):
        return self
    type = to = astype


def array(x, *a, **k):
    if isinstance(x, (Ix, S)):
        return x
    if _lst(x):
        return stack_generic(x[0])
    if isinstance(x, (tuple, list)) and x and all(isinstance(y, bool) for y in x):
        return Sel(x)
    if isinstance(x, (tuple, list)) and x and all(coerce(y) is not NotImplemented for y in x):
        return Small(coerce(y) for y in x)
    if isinstance(x, (tuple, list)) and len(x) == 1 and isinstance(x[0], Ix):
        return Ix([[]] + x[0].dims, x[0].fn, x[0].bound)
    if isinstance(x, (tuple, list)) and x and all(isinstance(y, (tuple, list, Ix)) for y in x):
        xs = [y if isinstance(y, Ix) else column(y) for y in x]
        nd = xs[0].dims
        if any(len(y.dims) != len(nd) or [len(d) for d in y.dims] != [len(d) for d in nd] for y in xs):
            raise Unsupported('array of different shapes')
        return Ix([dim(S.const(len(xs)))] + nd, lambda i, b: pick(xs, i, len(xs) > 1))
    raise Unsupported('array')


def pick(xs, i, lead):
    if not lead:
        return xs[0].el(*i)
    k = i[0].as_int()
    if k is not None:
        return xs[k].el(*i[1:])
    for q in range(len(xs) - 1):
        if i[0] == q:
            return xs[q].el(*i[1:])
    return xs[-1].el(*i[1:])


def column(y):
    """1-D tensor of a few scalars"""
    y = [z if isinstance(z, Ix) else ix(z) for z in y]
    if any(any(z.dims) for z in y):
        raise Unsupported('array')
    y = [Ix([], lambda i, b, z=z.snap(): z.el()) for z in y]
    return Ix([dim(S.const(len(y)))], lambda i, b: pick(y, i, len(y) > 1))


def mod(x, m):
    """x % m as an opaque real r with 0 <= r < m (r = x when x is already in range)"""
    x = coerce(x)
    k = (x.key(), coerce(m).key())
    if k not in MODS:
        MODS[k] = _mod(x, m)
    return MODS[k]


def _mod(x, m):
    try:
        if path.check(PATH.facts + [(x < 0) | ~(x < m)])[0] == 'unsat':
            return x
    except Unsupported:
        pass
    r = scal.fn('mod', x, m, real=True)
    PATH.assume(~(r < 0))
    PATH.assume(r < m)
    return r


def absolute(x):
    x = coerce(x)
    try:
        if path.check(PATH.facts + [x < 0])[0] == 'unsat':
            return x
    except Unsupported:
        pass
    return scal.absval(x)


def cat(xs, dim=0, axis=None, **k):
    if axis is not None:
        dim = axis
    if _lst(xs):
        if dim != 0:
            raise Unsupported('cat')
        return stack_generic(xs[0], True)
    return concat(list(xs), dim)


def stack(xs, dim=0, axis=None, **k):
    if _lst(xs) and (dim if axis is None else axis) == 0:
        return stack_generic(xs[0])
    if isinstance(xs, (tuple, list)) and (dim if axis is None else axis) == 0 and xs:
        return array([ix(x) for x in xs])
    raise Unsupported('stack')


def dev(*a, **k):
    return 'cpu'


def method(name):
    def call(a, *x, **k):
        if not isinstance(a, Ix):
            raise Unsupported(name)
        return getattr(a, name)(*x, **k)
    return call


def isclose(a, b, *x, **k):
    """equal, or merely near (an uninterpreted relation): nothing exact follows from it"""
    return ix(a)._bin(b, lambda u, v: (u == v) | (scal.fn('near', u, v, real=True) == 0), cond=True)


def equal(a, b):
    return (ix(a) == b).all()


class Lib:
    """numpy / jax.numpy / torch on index-function tensors"""

    def __init__(self, real, table, subs=None):
        self._r, self._t, self._s = real, table, subs or {}

    def __getattr__(self, n):
        if n == 'pi':
            return shim.PI
        if n in self._s:
            return self._s[n]
        if n in self._t:
            return self._t[n]
        r = getattr(self._r, n)
        if callable(r) and not isinstance(r, type):
            def call(*a, **k):
                raise Unsupported(f'library function {n}')
            return call
        return r


TABLE = dict(diag=diag, eye=eye, identity=eye, block=block, linspace=linspace, tile=tile, diag_indices_from=diag_indices_from,
             squeeze=method('squeeze'), hstack=lambda xs, **k: concat(list(xs), 0 if xs[0].ndim == 1 else 1),
             roll=roll, arange=arange, ones=ones, zeros=zeros, full=full, vstack=vstack, concatenate=concat, concat=concat,
             cos=lambda a: a.map(scal.cos) if isinstance(a, Ix) else scal.cos(coerce(a)), sin=lambda a: a.map(scal.sin) if isinstance(a, Ix) else scal.sin(coerce(a)),
             real=lambda a: a.real,  exp=exp, repeat=repeat,
             repeat_interleave=repeat, flipud=flipud, flip=flip, array=array, asarray=array, tensor=array, as_tensor=array, cat=cat,
             stack=stack, device=dev, moveaxis=method('moveaxis'), movedim=method('moveaxis'), transpose=method('transpose'),
             swapaxes=method('swapaxes'), permute=method('permute'), reshape=method('reshape'), conj=method('conj'), square=method('square'),
             matmul=lambda a, b: a @ b, dot=lambda a, b: a @ b, sum=method('sum'), empty=zeros,
             isclose=isclose, allclose=lambda a, b, *x, **k: isclose(a, b).all(), array_equal=equal, not_equal=lambda a, b: ix(a) != b,
             is_tensor=is_tensor, abs=abs, all=lambda c: c.all(), any=lambda c: c.any(), divide=lambda a, b: a / b, multiply=lambda a, b: a * b)
FFT = dict(fft=fft)
LIN = dict(inv=inv)


def lib(real):
    return Lib(real, TABLE, {'fft': Lib(real.fft, FFT), 'linalg': Lib(real.linalg, LIN)})


MODE = ['numpy']


def extra(be, **kw):
    """globals for executing the code of one backend"""
    MODE[0] = be
    import numpy as np
    d = dict(np=lib(np))
    if be == 'torch':
        import torch
        d['torch'] = lib(torch)
    if be == 'jax':
        import jax.numpy as jnp
        d['jnp'] = lib(jnp)
    d.update(kw)
    return d


def equal_goal(name, a, fn, names=None):
    """goals: tensor a equals fn(index, bound) at a generic index, with every index in range.  fn returns (bound sizes, body) or
    a closed scalar"""
    idx = tuple(generic(f'#i{k}' if names is None else names[k], n) for k, n in enumerate(a.flat()))
    return idx
