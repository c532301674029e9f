"""Symbolic tensors for the solver code.

Arr   element-wise array: axes (each a product of symbolic sizes) + the value at the generic index (a scal.S)
Mat   matrix over symbolic dimensions, split into blocks; entries are polynomials in a free (non-commutative)
      algebra whose letters are matrix atoms, diagonal monomials (which commute with each other) and columns.
Hypotheses (contracts of inv / eig / callers' preconditions) are polynomial equations; goals are discharged by
oriented rewriting, each step recorded so that the result is an explicit ideal-membership certificate.
"""
from fractions import Fraction
from .scal import (S, Unsupported, coerce, atom, _by_id, _k, PI, I as IMAG, sin, cos, exp, sqrt, conj, real, imag,
                   absval, atoms_of, map_atoms, is_real, fn, ONE, ZERO, subst, _atoms)
from . import scal
from .path import Cond, cond, PATH, as_num

_names = []


def _newname(n):
    _names.append(n)
    return len(_names) - 1


# --------------------------------------------------------------------------- index variables
def IV(size, occ=0):
    return ('i', _k(coerce(size)), occ)


def _is_iv(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'i'


_indexed_cache = {}


def has_index(a):
    r = _indexed_cache.get(a.id)
    if r is not None:
        return r
    r = False
    if a.kind in ('sym', 'el'):
        r = bool(a.args[1])
    elif a.kind == 'conj':
        r = has_index(_by_id[a.args[0]])
    else:
        for z in a.args:
            if isinstance(z, S):
                if any(has_index(_by_id[x]) for m in z.terms for x, _ in m):
                    r = True
            elif isinstance(z, Cond):
                if _cond_indexed(z):
                    r = True
    _indexed_cache[a.id] = r
    return r


def _cond_indexed(c):
    for z in c.args:
        if isinstance(z, Cond):
            if _cond_indexed(z):
                return True
        elif isinstance(z, S):
            if any(has_index(_by_id[x]) for m in z.terms for x, _ in m):
                return True
    return False


def split_mono(m):
    """(scalar part, indexed part)"""
    a = tuple(x for x in m if not has_index(_by_id[x[0]]))
    b = tuple(x for x in m if has_index(_by_id[x[0]]))
    return a, b


def mono_S(m):
    return S({m: (ONE, ZERO)})


# --------------------------------------------------------------------------- noncommutative polynomials
class NC:
    """sum of coef(S) * word; word = tuple of letters: ('M', id) | ('D', mono) | ('C', id) | ('R', id)"""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t or {}

    def __repr__(self):
        if not self.t:
            return '0'
        return ' + '.join(f'({c})·{word_str(w)}' for w, c in self.t.items())

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        t = dict(self.t)
        for w, c in o.t.items():
            if w in t:
                n = t[w] + c
                if n.is_zero():
                    del t[w]
                else:
                    t[w] = n
            else:
                t[w] = c
        return NC(t)

    def __neg__(self):
        return NC({w: -c for w, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, s):
        s = coerce(s)
        if s.is_zero():
            return NC()
        t = {}
        for w, c in self.t.items():
            n = c * s
            if not n.is_zero():
                t[w] = n
        return NC(t)

    def __mul__(self, o):
        r = NC()
        acc = {}
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                for w, c in word_mul(w1, w2):
                    x = c1 * c2 * c if c is not None else c1 * c2
                    if w in acc:
                        acc[w] = acc[w] + x
                    else:
                        acc[w] = x
        return NC({w: c for w, c in acc.items() if not c.is_zero()})

    def key(self):
        return frozenset((w, _k(c)) for w, c in self.t.items())

    def is_diag(self):
        return all(len(w) == 0 or (len(w) == 1 and w[0][0] == 'D') for w in self.t)

    def diag_expr(self):
        r = S({})
        for w, c in self.t.items():
            r = r + (c if not w else c * mono_S(w[0][1]))
        return r


def word_str(w):
    out = []
    for k, x in w:
        if k == 'D':
            out.append('<' + '*'.join(repr(_by_id[a]) + (f'^{e}' if e != 1 else '') for a, e in x) + '>')
        else:
            out.append(_names[x])
    return '.'.join(out) or '1'


def word_mul(w1, w2):
    """concatenate, merging adjacent diagonals; yields (word, extra coefficient)"""
    if w1 and w2 and w1[-1][0] == 'D' and w2[0][0] == 'D':
        prod = mono_S(w1[-1][1]) * mono_S(w2[0][1])
        for m, c in prod.terms.items():
            sc, ix = split_mono(m)
            mid = (('D', ix),) if ix else ()
            co = S({sc: c})
            yield w1[:-1] + mid + w2[1:], co
        return
    yield w1 + w2, None


def nc_one():
    return NC({(): S.const(1)})


def nc_diag(expr):
    r = {}
    for m, c in expr.terms.items():
        sc, ix = split_mono(m)
        w = (('D', ix),) if ix else ()
        x = S({sc: c})
        r[w] = r[w] + x if w in r else x
    return NC({w: c for w, c in r.items() if not c.is_zero()})


def nc_atom(name):
    return NC({(('M', _newname(name)),): S.const(1)})


# --------------------------------------------------------------------------- hypotheses and rewriting
class Ctx:
    def __init__(self):
        self.rules = []       # (lhs word, NC rhs, name)
        self.hyps = []        # (name, NC)   meaning NC = 0
        self.invs = {}
        self.eigs = {}
        self.trusted = set()
        self.derived = []
        self.uniq = 0

    def hyp(self, name, nc):
        """assume nc = 0 (a precondition or a library contract)"""
        if nc.is_zero():
            return
        self.hyps.append((name, nc))
        self._orient(name, nc)

    def _orient(self, name, nc):
        nc = reduce_nc(nc, self)
        if nc.is_zero():
            return
        lead = max(nc.t, key=word_weight)
        c = nc.t[lead]
        if len(c.terms) != 1:
            # choose another word with invertible coefficient
            cands = [w for w in nc.t if len(nc.t[w].terms) == 1]
            if not cands:
                raise Unsupported('hypothesis without invertible leading coefficient')
            lead = max(cands, key=word_weight)
            c = nc.t[lead]
        rest = NC({w: x for w, x in nc.t.items() if w != lead}).scale(-(c.recip()))
        self.rules.append((lead, rest, name))

    def complete(self, rounds=2, max_new=40, maxlen=8):
        """add consequences of overlapping hypotheses (S-polynomials); sound: every new rule is in the ideal"""
        done = set()
        for _ in range(rounds):
            new = []
            rules = list(self.rules)
            for i, r1 in enumerate(rules):
                for j, r2 in enumerate(rules):
                    if (i, j) in done:
                        continue
                    done.add((i, j))
                    for ov in overlaps(r1[0], r2[0]):
                        l, r = ov          # word = r1.lhs + r  = l + r2.lhs
                        a = mul_ctx((), r1[1], r)
                        b = mul_ctx(l, r2[1], ())
                        d = reduce_nc(a - b, self)
                        if d.is_zero():
                            continue
                        if max(len(w) for w in d.t) > maxlen:
                            continue
                        new.append((r1[2] + '*' + r2[2], d))
                        if len(new) > max_new:
                            break
            if not new:
                return
            for n, d in new:
                try:
                    self._orient('derived:' + n, d)
                except Unsupported:
                    pass


CTX = Ctx()


def new_ctx():
    global CTX
    CTX = Ctx()
    return CTX


def word_weight(w):
    n = 0
    lex = []
    for k, x in w:
        if k == 'D':
            n += sum(abs(e) for _, e in x)
            lex.append((1, max(a for a, _ in x)))
        else:
            n += 2
            lex.append((2, x))
    return (n, lex)


def mono_div(m, d):
    """m/d if d divides m (all exponents), else None"""
    mm = dict(m)
    for a, e in d:
        x = mm.get(a, 0)
        if e > 0:
            if x < e:
                return None
        else:
            if x > e:
                return None
        x -= e
        if x:
            mm[a] = x
        else:
            mm.pop(a, None)
    return tuple(sorted(mm.items()))


def match(lhs, w, i):
    """try to match lhs inside w starting at letter i; returns (left word, right word) or None"""
    k = len(lhs)
    if i + k > len(w):
        return None
    left_extra = right_extra = ()
    for j in range(k):
        a, b = lhs[j], w[i + j]
        if a == b:
            continue
        if a[0] == 'D' and b[0] == 'D' and (j == 0 or j == k - 1):
            q = mono_div(b[1], a[1])
            if q is None:
                return None
            if q:
                if j == 0:
                    left_extra = (('D', q),)
                else:
                    right_extra = (('D', q),)
            continue
        return None
    return w[:i] + left_extra, right_extra + w[i + k:]


def overlaps(l1, l2):
    for n in range(1, min(len(l1), len(l2))):
        if l1[-n:] == l2[:n]:
            yield l1[:-n], l2[n:]


def mul_ctx(l, nc, r):
    return NC({l: S.const(1)}) * nc * NC({r: S.const(1)})


def reduce_nc(nc, ctx=None, trace=None, limit=20000):
    ctx = ctx or CTX
    index = {}
    for ri, (lhs, rhs, name) in enumerate(ctx.rules):
        index.setdefault(lhs[0] if lhs[0][0] != 'D' else 'D', []).append((lhs, rhs, ri))
    todo = dict(nc.t)
    done = {}
    steps = 0
    while todo:
        w, c = todo.popitem()
        hit = None
        for i, letter in enumerate(w):
            for lhs, rhs, ri in index.get(letter if letter[0] != 'D' else 'D', ()):
                m = match(lhs, w, i)
                if m is not None:
                    hit = (m, rhs, ri)
                    break
            if hit:
                break
        if hit is None:
            if w in done:
                n = done[w] + c
                if n.is_zero():
                    del done[w]
                else:
                    done[w] = n
            else:
                done[w] = c
            continue
        steps += 1
        if steps > limit:
            raise Unsupported('rewriting limit')
        (l, r), rhs, ri = hit
        if trace is not None:
            trace.append((c, l, ri, r))
        for w2, c2 in mul_ctx(l, rhs, r).t.items():
            x = c * c2
            if w2 in todo:
                n = todo[w2] + x
                if n.is_zero():
                    del todo[w2]
                else:
                    todo[w2] = n
            elif not x.is_zero():
                todo[w2] = x
    # coefficients may hide zero behind denominators
    out = {}
    for w, c in done.items():
        if not scal.prove_zero(c):
            out[w] = c
    return NC(out)


# --------------------------------------------------------------------------- shapes helpers
class PyInt:
    pass


def dim(x):
    return coerce(x) if not isinstance(x, S) else x


def dims_same(a, b):
    return dim(a).same(dim(b))


def prod(fs):
    r = S.const(1)
    for f in fs:
        r = r * f
    return r


def is_one(d):
    return dim(d).as_int() == 1


class Elementwise:
    __array_ufunc__ = None
    __array_priority__ = 1000
    device = 'cpu'
    requires_grad = False
    is_cuda = False

    def __add__(self, o): return ew(lambda a, b: a + b, self, o)
    def __radd__(self, o): return ew(lambda a, b: b + a, self, o)
    def __sub__(self, o): return ew(lambda a, b: a - b, self, o)
    def __rsub__(self, o): return ew(lambda a, b: b - a, self, o)
    def __mul__(self, o): return ew(lambda a, b: a * b, self, o)
    def __rmul__(self, o): return ew(lambda a, b: b * a, self, o)
    def __truediv__(self, o): return ew(lambda a, b: a / b, self, o)
    def __rtruediv__(self, o): return ew(lambda a, b: b / a, self, o)
    def __pow__(self, o): return ew(lambda a, b: a ** b, self, o)
    def __neg__(self): return ew1(lambda a: -a, self)
    def __pos__(self): return self
    def __abs__(self): return ew1(absval, self)
    def abs(self): return ew1(absval, self)
    def conj(self): return ew1(conj, self)
    def exp(self): return ew1(exp, self)
    def sin(self): return ew1(sin, self)
    def cos(self): return ew1(cos, self)
    conjugate = conj

    @property
    def real(self): return ew1(real, self)

    @property
    def imag(self): return ew1(imag, self)

    def __lt__(self, o): return ew(lambda a, b: a < b, self, o)
    def __le__(self, o): return ew(lambda a, b: a <= b, self, o)
    def __gt__(self, o): return ew(lambda a, b: a > b, self, o)
    def __ge__(self, o): return ew(lambda a, b: a >= b, self, o)
    def __eq__(self, o): return ew(lambda a, b: a == b, self, o)
    def __ne__(self, o): return ew(lambda a, b: a != b, self, o)
    __hash__ = object.__hash__

    def astype(self, *_a, **_k): return self
    def to(self, *_a, **_k): return self
    def type(self, *_a, **_k): return self
    def contiguous(self): return self
    def detach(self): return scal.cut('detach', self)
    def cpu(self): return self
    def is_complex(self): return True

    @property
    def dtype(self): return 'sym'

    def copy(self):
        import copy as _c
        return _c.copy(self)

    clone = copy

    def ravel(self): return self.flatten()

    def view(self, *s): return self.reshape(*s)


class Arr(Elementwise):
    """axes: tuple of tuples of S sizes (factors); expr: S | Cond at the generic index"""

    def __init__(self, axes, expr):
        self.axes = tuple(axes)
        seen = [_k(f) for ax in self.axes for f in ax if f.as_int() is None]
        if len(set(seen)) != len(seen):
            raise Unsupported('two axes of the same symbolic length')     # generic indices are named by their length
        self.expr = expr if isinstance(expr, (Cond, bool)) else coerce(expr)

    def __repr__(self):
        return f'Arr{self.shape}:{self.expr}'

    @property
    def shape(self):
        return tuple(prod(a) for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    def sym_len(self):
        if not self.axes:
            raise TypeError('len of 0-d')
        return self.shape[0]

    def flatten(self, *_a):
        return Arr((tuple(f for a in self.axes for f in a),), self.expr)

    def squeeze(self, axis=None):
        if axis is None:
            return Arr(tuple(a for a in self.axes if not is_one(prod(a))), self.expr)
        ax = list(self.axes)
        if not is_one(prod(ax[axis])):
            raise Unsupported('squeeze of non-unit axis')
        del ax[axis]
        return Arr(ax, self.expr)

    @property
    def T(self):
        if self.ndim <= 1:
            return self
        raise Unsupported('transpose of element-wise array')

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [dim(s) for s in shape]
        factors = [f for a in self.axes for f in a if not is_one(f)]
        neg = [i for i, s in enumerate(shape) if s.as_int() == -1]
        if len(neg) > 1:
            raise Unsupported('reshape')
        if neg:
            i = neg[0]
            total = prod(factors)
            known = prod([s for j, s in enumerate(shape) if j != i])
            q = divide_exact(total, known)
            shape[i] = q
        axes = []
        expr = self.expr
        k = 0
        pend = list(factors)
        for s in shape:
            if s.as_int() == 1:
                axes.append(())
                continue
            grp = []
            while True:
                p = prod(grp)
                if grp and p.same(s):
                    break
                if not pend:
                    raise Unsupported(f'reshape {self.shape} to {shape}')
                nxt = pend.pop(0)
                if not grp and not nxt.same(s) and divides(s, nxt):
                    # split an opaque factor: nxt = s * rest
                    rest = divide_exact(nxt, s)
                    expr = split_index(expr, nxt, s, rest)
                    grp = [s]
                    pend.insert(0, rest)
                    continue
                grp.append(nxt)
                if len(grp) > 6:
                    raise Unsupported('reshape')
            axes.append(tuple(grp))
        if pend:
            raise Unsupported(f'reshape {self.shape} to {shape}')
        return Arr(axes, expr)

    def tile(self, *reps):
        if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
            reps = tuple(reps[0])
        reps = tuple(dim(r) for r in reps)
        axes = [a for a in self.axes]
        n = max(len(axes), len(reps))
        axes = [()] * (n - len(axes)) + axes
        reps = (S.const(1),) * (n - len(reps)) + reps
        out = []
        for a, r in zip(axes, reps):
            if r.as_int() == 1:
                out.append(a)
            else:
                out.append((r,) + tuple(f for f in a))
        return Arr(out, self.expr)

    def __getitem__(self, ix):
        if isinstance(ix, Arr) and isinstance(ix.expr, (Cond, bool)):
            return Masked(self, ix)
        if not isinstance(ix, tuple):
            ix = (ix,)
        n_real = sum(1 for i in ix if i is not None and i is not Ellipsis)
        if Ellipsis in [i for i in ix if not isinstance(i, (Arr, S))]:
            k = [j for j, i in enumerate(ix) if i is Ellipsis][0]
            ix = ix[:k] + (slice(None),) * (self.ndim - n_real) + ix[k + 1:]
        axes = []
        expr = self.expr
        pos = 0
        src = list(self.axes)
        for i in ix:
            if i is None:
                axes.append(())
                continue
            if pos >= len(src):
                raise IndexError('too many indices')
            if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None:
                axes.append(src[pos])
                pos += 1
                continue
            if isinstance(i, slice) and i.start is None and i.stop is None and i.step == -1:
                expr = rev_index(expr, src[pos])
                axes.append(src[pos])
                pos += 1
                continue
            if isinstance(i, (int, S)) and not isinstance(i, bool):
                expr = fix_index(expr, src[pos], dim(i))
                pos += 1
                continue
            raise Unsupported(f'index {i!r}')
        axes += src[pos:]
        if not axes:
            return expr
        return Arr(axes, expr)

    def __setitem__(self, ix, val):
        if isinstance(ix, Arr) and isinstance(ix.expr, (Cond, bool)):
            v = val.arr.expr if isinstance(val, Masked) else (val.expr if isinstance(val, Arr) else coerce(val))
            self.expr = ite(ix.expr, v, self.expr)
            return
        if not isinstance(ix, tuple):
            ix = (ix,)
        if isinstance(self.expr, S) and self.expr.is_zero() and self.ndim == len(ix) and coerce(val) is not NotImplemented:
            live = [(a, i) for a, i in zip(self.axes, ix) if not is_one(prod(a))]
            if len(live) == 1:
                a, i = live[0]
                for a2, i2 in zip(self.axes, ix):
                    if is_one(prod(a2)) and not (coerce(i2) is not NotImplemented and coerce(i2).as_int() in (0, -1)):
                        raise Unsupported('index into unit axis')
                self.expr = unit_el(prod(a), dim(i)) * coerce(val)
                return
        raise Unsupported('assignment into element-wise array')

    @property
    def at(self):
        return At(self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __iter__(self):
        raise Unsupported('iteration over symbolic array')

    def sum(self, *a, **k):
        raise Unsupported('sum')

    def tolist(self):
        raise Unsupported('tolist')


class At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, ix):
        a = self.a

        class _Set:
            def set(s, v):
                c = a.copy()
                c[ix] = v
                return c
        return _Set()


class Masked(Elementwise):
    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask


class Container(Elementwise):
    """Stack: concrete first axis of Arr;  SegVec: concatenation of 1-d Arr"""

    def __init__(self, parts):
        self.parts = list(parts)

    def __repr__(self):
        return f'{type(self).__name__}({self.parts})'

    @property
    def at(self):
        return At(self)


class SegVec(Container):
    @property
    def shape(self):
        r = S.const(0)
        for p in self.parts:
            r = r + p.shape[0]
        return (r,)

    ndim = 1

    def sym_len(self):
        return self.shape[0]

    def flatten(self):
        return self

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[0], slice) and ix[0] == slice(None) and ix[1] is None:
            return col_mat(self)
        if isinstance(ix, slice) and ix.step is None:
            segs = cut([p.shape[0] for p in self.parts], ix)
            ps = [self.parts[i] for i in segs]
            return ps[0] if len(ps) == 1 else SegVec(ps)
        raise Unsupported(f'SegVec index {ix}')

    def reshape(self, *s):
        raise Unsupported('reshape of concatenated vector')

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)


class Stack(Container):
    @property
    def shape(self):
        return (len(self.parts),) + tuple(self.parts[0].shape)

    @property
    def ndim(self):
        return 1 + self.parts[0].ndim

    def sym_len(self):
        return S.const(len(self.parts))

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        if len(ix) == 1 and isinstance(ix[0], (list,)):
            sel = ix[0]
            if all(isinstance(b, bool) for b in sel):
                return Stack([p for p, b in zip(self.parts, sel) if b])
            return Stack([self.parts[i] for i in sel])
        f = ix[0]
        if isinstance(f, S):
            f = f.as_int()
        if isinstance(f, int) and not isinstance(f, bool):
            r = self.parts[f]
            return r[ix[1:]] if len(ix) > 1 else r
        if isinstance(f, slice):
            ps = self.parts[f]
            return Stack([p[ix[1:]] if len(ix) > 1 else p for p in ps])
        raise Unsupported(f'Stack index {ix}')

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        n = dim(shape[0]).as_int()
        if n != len(self.parts):
            raise Unsupported('reshape of stack')
        return Stack([p.reshape(*shape[1:]) for p in self.parts])

    def __matmul__(self, o):
        return Stack([p @ o for p in self.parts])

    def __rmatmul__(self, o):
        return Stack([matmul(o, p) for p in self.parts])

    def __iter__(self):
        return iter(self.parts)


ITE_HOOK = None       # case split fixed by a contract: cond -> True/False/None


def ite(c, a, b):
    if ITE_HOOK is not None and isinstance(c, Cond):
        v = ITE_HOOK(c)
        if v is not None:
            return coerce(a if v else b)
    if c is True:
        return a
    if c is False:
        return b
    a, b = coerce(a), coerce(b)
    if a.same(b):
        return a
    # sign functions: ite(c, -1, 1) -> +-1 atom
    if a.is_const() and b.is_const():
        va, vb = a.const_value(), b.const_value()
        if va == (-1, 0) and vb == (1, 0):
            return S.of_atom(atom('sgn', (c,), True))
        if va == (1, 0) and vb == (-1, 0):
            return -S.of_atom(atom('sgn', (c,), True))
    return S.of_atom(atom('ite', (c, a, b), is_real(a) and is_real(b)))


def divides(s, n):
    try:
        divide_exact(n, s)
        return True
    except Unsupported:
        return False


def divide_exact(n, d):
    if d.as_int() == 1:
        return n
    if len(d.terms) == 1:
        q = n * d.recip()
        if all(e >= 0 for m in q.terms for _, e in m):
            return q
    if n.same(d):
        return S.const(1)
    # exact multivariate division (graded-lex leading terms)
    key = lambda m: (sum(e for _, e in m), m)
    dl = max(d.terms, key=key)
    dlc = S({(): d.terms[dl]}).recip()
    rest, q = n, S({})
    for _ in range(200):
        if rest.is_zero():
            return q
        rl = max(rest.terms, key=key)
        mq = mono_div(rl, dl)
        if mq is None or any(e < 0 for _, e in mq):
            break
        t = S({mq: rest.terms[rl]}) * dlc
        q = q + t
        rest = rest - t * d
    raise Unsupported(f'{n} not divisible by {d}')


def _map_idx(expr, f, whole=False):
    """apply f to every index tuple entry inside expr"""
    cache = {}

    def g(a):
        if a.id in cache:
            return cache[a.id]
        r = None
        if not has_index(a):
            return None
        if a.kind in ('sym', 'el'):
            idx = tuple(f(i) if whole else _f_idx(i, f) for i in a.args[1])
            r = S.of_atom(atom(a.kind, (a.args[0], idx), a.real, a.pos))
            if a.args[0] == '#' and a.kind == 'sym':
                r = index_value(idx[0])
        elif a.kind == 'conj':
            r = conj(g(_by_id[a.args[0]]))
        elif a.kind in ('sin', 'cos', 'exp', 'sqrt', 'recip', 'abs'):
            x = map_atoms(a.args[0], g)
            r = {'sin': sin, 'cos': cos, 'exp': exp, 'sqrt': sqrt, 'recip': lambda z: z.recip(), 'abs': absval}[a.kind](x)
        else:
            na = tuple(map_atoms(z, g) if isinstance(z, S) else (z.map(lambda q: map_atoms(q, g)) if isinstance(z, Cond) else z)
                       for z in a.args)
            r = S.of_atom(atom(a.kind, na, a.real, a.pos))
        cache[a.id] = r
        return r
    if isinstance(expr, Cond):
        return expr.map(lambda q: map_atoms(q, g))
    return map_atoms(expr, g)


def index_value(i):
    """the number an index stands for"""
    if i[0] == 'sub':
        return S(dict(i[1][1]))
    if i[0] == 'rev':
        return S(dict(i[1][1][1])) - 1 - index_value(i[1])
    return S.sym('#', (i,), real=True)


def _f_idx(i, f):
    if _is_iv(i):
        return f(i)
    if isinstance(i, tuple) and i and i[0] in ('rev', 'flat', 'sub'):
        return (i[0],) + tuple(_f_idx(j, f) if isinstance(j, tuple) else j for j in i[1:])
    return i


def split_index(expr, n, s, rest):
    iv = IV(n)
    return _map_idx(expr, lambda i: ('flat', IV(s), IV(rest)) if i == iv else i)


def join_index(expr):
    """('flat', i, j) row-major composite of generic indices -> the generic index of the product axis"""
    def g(i):
        if isinstance(i, tuple) and i and i[0] == 'flat' and all(_is_iv(x) for x in i[1:]):
            n = S.const(1)
            for x in i[1:]:
                n = n * S(dict(x[1][1]))
            return IV(n)
        return i
    return _map_idx(expr, g, whole=True)


def rev_index(expr, axis):
    if len(axis) != 1:
        raise Unsupported('reversal of composite axis')
    iv = IV(axis[0])
    return _map_idx(expr, lambda i: ('rev', i) if i == iv else i)


def fix_index(expr, axis, k):
    fs = [f for f in axis if not is_one(f)]
    if len(fs) == 0:
        return expr
    if len(fs) > 1:
        if k.as_int() == 0:
            out = expr
            for f in fs:
                out = fix_index(out, (f,), S.const(0))
            return out
        raise Unsupported('constant index into composite axis')
    iv = IV(fs[0])
    kk = k.as_int()
    if kk is not None and kk < 0:
        k = k + fs[0]
    return _map_idx(expr, lambda i: ('sub', _k(k)) if i == iv else i)


# --- element atoms of algebraic columns
def el_word(word, idx):
    """generic element of a column word"""
    if word and word[0][0] == 'D':
        return mono_S(word[0][1]) * el_word(word[1:], idx)
    return S.of_atom(atom('el', (WordRef(word), idx)))


class WordRef:
    __slots__ = ('w',)

    def __init__(self, w):
        self.w = w

    def ckey(self):
        return ('W', self.w)

    def map(self, f):
        return self

    def __repr__(self):
        return word_str(self.w)


def el_nc(nc, size):
    r = S({})
    for w, c in nc.t.items():
        r = r + c * el_word(w, (IV(size),))
    return r


_units = {}


def unit_nc(size, k):
    key = (_k(size), _k(k))
    if key not in _units:
        _units[key] = _newname(f'e[{k}]')
    return NC({(('C', _units[key]),): S.const(1)})


def unit_el(size, k):
    return el_nc(unit_nc(size, k), size)


_ones = {}


def ones_nc(size):
    key = _k(size)
    if key not in _ones:
        _ones[key] = _newname('ones')
    return NC({(('C', _ones[key]),): S.const(1)})


def to_col(expr, size):
    """element-wise vector -> column NC"""
    r = NC()
    for m, c in expr.terms.items():
        els = [(a, e) for a, e in m if _by_id[a].kind == 'el']
        rest = tuple(x for x in m if x not in els)
        sc, ix = split_mono(rest)
        if len(els) == 1 and els[0][1] == 1:
            if _by_id[els[0][0]].args[1] != (IV(size),):
                raise Unsupported('column element at a foreign index')
            base = NC({_by_id[els[0][0]].args[0].w: S.const(1)})
        elif not els:
            base = ones_nc(size)
        else:
            sc, ix = split_mono(m)
            base = ones_nc(size)
        d = NC({((('D', ix),) if ix else ()): S({sc: c})})
        r = r + d * base
    return r


def unify(a, b):
    """broadcast axes"""
    n = max(len(a), len(b))
    a = ((),) * (n - len(a)) + tuple(a)
    b = ((),) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        x1 = tuple(f for f in x if not is_one(f))
        y1 = tuple(f for f in y if not is_one(f))
        if not x1:
            out.append(y1)
        elif not y1:
            out.append(x1)
        elif _k(x1) == _k(y1):
            out.append(x1)
        elif prod(x1).same(prod(y1)):
            out.append(x1 if len(x1) >= len(y1) else y1)
        else:
            raise ValueError(f'shapes do not broadcast: {a} {b}')
    return tuple(out)


def ew1(f, a):
    if isinstance(a, Arr):
        return Arr(a.axes, f(a.expr))
    if isinstance(a, Masked):
        return Masked(Arr(a.arr.axes, f(a.arr.expr)), a.mask)
    if isinstance(a, Container):
        return type(a)([ew1(f, p) for p in a.parts])
    if isinstance(a, Mat):
        if a.is_diag_blocks():
            if f(S({})).is_zero():
                return a.map_diag(f)
        if f in (conj,):
            return a.conj()
        raise Unsupported('element-wise function of a full matrix')
    return f(coerce(a))


def ew(f, a, b):
    if isinstance(a, Mat) or isinstance(b, Mat):
        return NotImplemented if not isinstance(a, Mat) else a._ew(f, b)
    if isinstance(a, Masked) or isinstance(b, Masked):
        x = a.arr if isinstance(a, Masked) else a
        y = b.arr if isinstance(b, Masked) else b
        return Masked(ew(f, x, y), (a if isinstance(a, Masked) else b).mask)
    if isinstance(a, Container) or isinstance(b, Container):
        if isinstance(a, Container) and isinstance(b, Container):
            if type(a) is type(b) and len(a.parts) == len(b.parts):
                return type(a)([ew(f, x, y) for x, y in zip(a.parts, b.parts)])
            raise Unsupported('mixed containers')
        if isinstance(a, Container):
            if isinstance(a, SegVec) and isinstance(b, Arr) and b.ndim and not all(is_one(s) for s in b.shape):
                raise Unsupported('concat vs array')
            return type(a)([ew(f, x, b) for x in a.parts])
        if isinstance(b, SegVec) and isinstance(a, Arr) and a.ndim and not all(is_one(s) for s in a.shape):
            raise Unsupported('concat vs array')
        return type(b)([ew(f, a, y) for y in b.parts])
    ax, ex = (a.axes, a.expr) if isinstance(a, Arr) else ((), None)
    bx, ey = (b.axes, b.expr) if isinstance(b, Arr) else ((), None)
    if ex is None:
        ex = coerce(a)
    if ey is None:
        ey = coerce(b)
    if ex is NotImplemented or ey is NotImplemented:
        return NotImplemented
    axes = unify(ax, bx)
    return Arr(axes, f(ex, ey))


# --------------------------------------------------------------------------- matrices
def cut(sizes, sl):
    """indices of segments selected by a slice whose ends fall on segment boundaries"""
    bounds = [S.const(0)]
    for s in sizes:
        bounds.append(bounds[-1] + dim(s))
    total = bounds[-1]

    def norm(x, default):
        if x is None:
            return default
        x = dim(x)
        k = x.as_int()
        if k is not None and k < 0:
            x = total + x
        return x
    lo, hi = norm(sl.start, bounds[0]), norm(sl.stop, total)
    if sl.step is not None:
        raise Unsupported('strided slice')
    i = [j for j, b in enumerate(bounds) if b.same(lo)]
    h = [j for j, b in enumerate(bounds) if b.same(hi)]
    if not i or not h:
        raise Unsupported(f'slice {lo}:{hi} not on block boundary {bounds}')
    return list(range(i[0], h[-1]))


class Mat(Elementwise):
    """rows/cols: list of segment sizes; b[i][j]: NC; batch: tuple of leading axes (element-wise indices)"""

    def __init__(self, rows, cols, b, batch=()):
        self.rows, self.cols, self.b, self.batch = [dim(r) for r in rows], [dim(c) for c in cols], b, tuple(batch)

    def __repr__(self):
        return f'Mat{self.rows}x{self.cols}:{self.b}'

    @property
    def shape(self):
        r = S.const(0)
        for x in self.rows:
            r = r + x
        c = S.const(0)
        for x in self.cols:
            c = c + x
        return tuple(prod(a) for a in self.batch) + (r, c)

    @property
    def ndim(self):
        return 2 + len(self.batch)

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    def sym_len(self):
        return self.shape[0]

    def map(self, f):
        return Mat(self.rows, self.cols, [[f(x) for x in r] for r in self.b], self.batch)

    def is_diag_blocks(self):
        return len(self.rows) == len(self.cols) and all(
            (x.is_diag() if i == j else x.is_zero()) for i, r in enumerate(self.b) for j, x in enumerate(r))

    def map_diag(self, f):
        return Mat(self.rows, self.cols, [[nc_diag(f(x.diag_expr())) if i == j else x for j, x in enumerate(r)]
                                          for i, r in enumerate(self.b)], self.batch)

    def conj(self):
        def cj(x):
            out = NC()
            for w, c in x.t.items():
                nw = NC({(): conj(c)})
                for l in w:
                    nw = nw * conj_letter(l)
                out = out + nw
            return out
        return self.map(cj)

    conjugate = conj

    @property
    def real(self):
        return (self + self.conj()) * S.const(Fraction(1, 2))

    def _ew(self, f, o, swap=False):
        if isinstance(o, Mat):
            a, b = align(self, o)
            batch = unify(a.batch, b.batch)
            probe = f(S.sym('__a'), S.sym('__b'))
            if _linear(f):
                ca, cb = _linear(f)
                return Mat(a.rows, a.cols, [[x.scale(ca) + y.scale(cb) for x, y in zip(r, s)] for r, s in zip(a.b, b.b)], batch)
            if a.is_diag_blocks() and b.is_diag_blocks() and f(S({}), S({})).is_zero():
                return Mat(a.rows, a.cols, [[nc_diag(f(x.diag_expr(), y.diag_expr())) if i == j else NC()
                                             for j, (x, y) in enumerate(zip(r, s))] for i, (r, s) in enumerate(zip(a.b, b.b))], batch)
            raise Unsupported('element-wise matrix product')
        if isinstance(o, Arr):
            # batch broadcasting (z,1,1) or scalar-like
            if all(is_one(s) for s in o.shape[-2:]):
                sc = o.expr
                batch = unify(self.batch, o.axes[:-2] if o.ndim > 2 else ())
                return self._scal(f, sc, batch)
            if is_col(self) and o.ndim == 2 and is_one(o.shape[1]):
                return self._ew(f, as_mat(o))
            return self._bcast(f, o)
        if isinstance(o, SegVec):
            return self._bcast(f, o)
        s = coerce(o)
        if s is NotImplemented:
            return NotImplemented
        return self._scal(f, s, self.batch)

    def _bcast(self, f, o):
        """M * v, M * v[None, :] (columns scaled: M diag(g(v))) and M * v[:, None] (rows scaled: diag(g(v)) M)"""
        row = isinstance(o, Arr) and o.ndim == 2 and is_one(o.shape[1])
        if self.batch or o.ndim > 2 or (o.ndim == 2 and not row and not is_one(o.shape[0])):
            raise Unsupported('matrix (op) array')
        k = self.shape[-2] if row else self.shape[-1]
        v = o
        if isinstance(o, Arr):
            v = Arr((o.axes[0 if row or o.ndim == 1 else 1],), o.expr)
        if not v.shape[0].same(k):
            raise Unsupported('broadcast of a matrix against an array')

        def g(e):
            x = S.sym('__probe_a')
            lin = f(x, e) / x
            i = _by_id[next(iter(x.terms))[0][0]]
            if not f(S({}), e).is_zero() or any(_by_id[a] is i for m in lin.terms for a, _ in m):
                raise Unsupported('matrix (op) array: not a scaling')
            return lin
        d = diag(type(v)([Arr(p.axes, g(p.expr)) for p in v.parts]) if isinstance(v, SegVec) else Arr(v.axes, g(v.expr)))
        return matmul(d, self) if row else matmul(self, d)

    def _scal(self, f, sc, batch):
        x = S.sym('__probe_a')
        r = f(x, sc)
        # only f(0, sc) == 0 operations are entry-wise scalings
        if f(S({}), sc).is_zero():
            lin = r / x
            if all(_by_id[a] is not _by_id[next(iter(x.terms))[0][0]] for m in lin.terms for a, _ in m):
                return Mat(self.rows, self.cols, [[y.scale(lin) for y in row] for row in self.b], batch)
            if self.is_diag_blocks():
                m = self.map_diag(lambda e: f(e, sc))
                m.batch = tuple(batch)
                return m
        if is_col(self) and len(self.cols) == 1:
            raise Unsupported('affine op on column')
        raise Unsupported('element-wise matrix (op) scalar')

    def __radd__(self, o): return self + o

    def __rsub__(self, o): return (-self) + o

    def __rmul__(self, o): return self * o

    def __rtruediv__(self, o): raise Unsupported('scalar / matrix')

    def __neg__(self): return self.map(lambda x: -x)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def copy(self):
        return Mat(list(self.rows), list(self.cols), [list(r) for r in self.b], self.batch)

    clone = copy

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        if any(i is Ellipsis for i in ix):
            k = [j for j, i in enumerate(ix) if i is Ellipsis][0]
            nreal = sum(1 for i in ix if i is not None and i is not Ellipsis)
            ix = ix[:k] + (slice(None),) * (self.ndim - nreal) + ix[k + 1:]
        full = slice(None)
        if self.batch or any(i is None for i in ix):
            # batch manipulation: leading indices slices/None, last two full
            nreal = sum(1 for i in ix if i is not None)
            ix = ix + (full,) * (self.ndim - nreal)
            if ix[-2:] == (full, full) and all(i is None or i == full for i in ix[:-2]):
                out = []
                src = list(self.batch)
                for i in ix[:-2]:
                    out.append(() if i is None else src.pop(0))
                return Mat(self.rows, self.cols, self.b, tuple(out) + tuple(src))
            if len(ix) == 3 and ix[0] == full and isinstance(ix[1], Arange) and isinstance(ix[2], Arange) and self.is_diag_blocks():
                if len(self.rows) == 1:
                    return Arr(self.batch + ((self.rows[0],),), self.b[0][0].diag_expr())
            if len(self.batch) == 1 and all(isinstance(i, slice) for i in ix) and ix[0] == full:
                m = Mat(self.rows, self.cols, self.b)[ix[1:]]
                m = as_mat(m)
                return Mat(m.rows, m.cols, m.b, self.batch)
            raise Unsupported(f'batched matrix index {ix}')
        if len(ix) == 1:
            ix = ix + (full,)
        r, c = ix
        if isinstance(r, Arange) and isinstance(c, Arange) and self.is_diag_blocks() and len(self.rows) == 1:
            return Arr(((self.rows[0],),), self.b[0][0].diag_expr())
        ri = self._sel(self.rows, r)
        ci = self._sel(self.cols, c)
        m = Mat([self.rows[i] for i in ri], [self.cols[j] for j in ci], [[self.b[i][j] for j in ci] for i in ri])
        if isinstance(c, (int, S)) and not isinstance(c, bool):
            return vec_of(m)
        return m

    def _sel(self, segs, i):
        if isinstance(i, slice):
            return cut(segs, i)
        if isinstance(i, (int, S)) and not isinstance(i, bool):
            k = dim(i).as_int()
            if k is not None and all(is_one(s) for s in segs):
                if k < 0:
                    k += len(segs)
                return [k]
        raise Unsupported(f'matrix index {i!r}')

    def __setitem__(self, ix, val):
        if isinstance(ix, tuple) and len(ix) == 3 and isinstance(ix[1], Arange) and isinstance(ix[2], Arange) and len(self.rows) == 1:
            if not all(x.is_zero() for r in self.b for x in r) and not self.is_diag_blocks():
                raise Unsupported('diagonal assignment on full matrix')
            v = val.expr if isinstance(val, Arr) else coerce(val)
            self.b[0][0] = nc_diag(v)
            return
        if isinstance(ix, tuple) and len(ix) == 2 and len(self.rows) == 1 and len(self.cols) == 1 and is_one(self.cols[0]) \
                and self.b[0][0].is_zero() and not isinstance(ix[0], slice):
            if dim(ix[1]).as_int() not in (0, -1):
                raise Unsupported('column index')
            self.b[0][0] = unit_nc(self.rows[0], dim(ix[0])).scale(coerce(val))
            return
        raise Unsupported('matrix assignment')

    @property
    def at(self):
        return At(self)

    @property
    def T(self):
        if all(is_one(c) for c in self.cols) and len(self.rows) == 1 and not self.batch:
            return Stack([Arr(((self.rows[0],),), el_nc(self.b[0][j], self.rows[0])) for j in range(len(self.cols))])
        return Mat(self.cols, self.rows, [[transpose_nc(self.b[i][j]) for i in range(len(self.rows))] for j in range(len(self.cols))],
                   self.batch)

    def transpose(self, *a):
        return self.T

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if is_col(self) and len(self.rows) == 1:
            return Arr(((self.rows[0],),), el_nc(self.b[0][0], self.rows[0])).reshape(*shape)
        raise Unsupported('reshape of matrix')

    def flatten(self):
        if is_col(self):
            return vec_of(self)
        raise Unsupported('flatten of matrix')

    def squeeze(self, axis=None):
        if is_col(self) and axis in (None, -1, 1):
            return vec_of(self)
        raise Unsupported('squeeze')

    def diagonal(self, *a, **k):
        if self.is_diag_blocks() and len(self.rows) == 1:
            return Arr(((self.rows[0],),), self.b[0][0].diag_expr())
        raise Unsupported('diagonal')


def conj_letter(l):
    k, x = l
    if k == 'D':
        return nc_diag(conj(mono_S(x)))
    key = ('conj', k, x)
    if key not in _conj:
        n = _newname('conj(' + _names[x] + ')')
        _conj[key] = (k, n)
        _conj[('conj', k, n)] = (k, x)
    return NC({(_conj[key],): S.const(1)})


_conj = {}
_trans = {}


def transpose_nc(nc):
    out = NC()
    for w, c in nc.t.items():
        nw = NC({(): c})
        for k, x in reversed(w):
            if k == 'D':
                nw = nw * NC({((k, x),): S.const(1)})
                continue
            k2 = {'M': 'M', 'C': 'R', 'R': 'C'}[k]
            key = (k, x)
            if key not in _trans:
                n = _newname(_names[x] + 'ᵀ')
                _trans[key] = (k2, n)
                _trans[(k2, n)] = (k, x)
            nw = nw * NC({(_trans[key],): S.const(1)})
        out = out + nw
    return out


def is_col(m):
    return len(m.cols) == 1 and is_one(m.cols[0])


_lin_cache = {}


def _linear(f):
    a, b = S.sym('__la'), S.sym('__lb')
    try:
        r = f(a, b)
    except Exception:
        return None
    ma, mb = next(iter(a.terms)), next(iter(b.terms))
    if isinstance(r, S) and set(r.terms) <= {ma, mb}:
        z = (ZERO, ZERO)
        return S({(): r.terms[ma]}) if ma in r.terms else S({}), S({(): r.terms[mb]}) if mb in r.terms else S({})
    return None


def vec_of(m):
    """single-column matrix -> 1-d vector"""
    parts = [Arr(((m.rows[i],),), el_nc(m.b[i][0], m.rows[i])) for i in range(len(m.rows))]
    return parts[0] if len(parts) == 1 else SegVec(parts)


def col_mat(v):
    if isinstance(v, SegVec):
        return Mat([p.shape[0] for p in v.parts], [1], [[to_col(p.expr, p.shape[0])] for p in v.parts])
    return Mat([v.shape[0]], [1], [[to_col(v.expr, v.shape[0])]])


def as_mat(o):
    if isinstance(o, Mat):
        return o
    if isinstance(o, Arr) and o.ndim == 2 and is_one(o.shape[1]):
        return Mat([o.shape[0]], [1], [[to_col(o.expr, o.shape[0])]])
    if isinstance(o, (Arr, SegVec)) and o.ndim == 1:
        return col_mat(o)
    raise Unsupported(f'not a matrix: {o!r}')


def refine(m, rows, cols):
    if _k(tuple(m.rows)) == _k(tuple(rows)) and _k(tuple(m.cols)) == _k(tuple(cols)):
        return m
    tot = lambda xs: sum(xs, S.const(0))
    if not tot(m.rows).same(tot(rows)) or not tot(m.cols).same(tot(cols)):
        raise ValueError(f'shape mismatch {m.rows}x{m.cols} vs {rows}x{cols}')
    if all(x.is_zero() for r in m.b for x in r):
        return Mat(rows, cols, [[NC() for _ in cols] for _ in rows], m.batch)
    if len(m.rows) == 1 and len(m.cols) == 1 and set(m.b[0][0].t) <= {()} and _k(tuple(rows)) == _k(tuple(cols)):
        return Mat(rows, cols, [[m.b[0][0] if i == j else NC() for j in range(len(cols))] for i in range(len(rows))], m.batch)
    raise Unsupported('cannot split an opaque matrix into blocks')


def align(a, b):
    rows = a.rows if len(a.rows) >= len(b.rows) else b.rows
    cols = a.cols if len(a.cols) >= len(b.cols) else b.cols
    if not a.shape[-1].same(b.shape[-1]) or not a.shape[-2].same(b.shape[-2]):
        # column broadcasting is not used by the code
        raise ValueError(f'matrix shapes {a.shape} {b.shape}')
    return refine(a, rows, cols), refine(b, rows, cols)


def matmul(a, b):
    if isinstance(a, Stack):
        return Stack([matmul(p, b) for p in a.parts])
    if isinstance(b, Stack):
        return Stack([matmul(a, p) for p in b.parts])
    if isinstance(a, RowArr) or isinstance(b, RowArr):
        raise Unsupported('row product')
    vec = isinstance(b, (Arr, SegVec)) and b.ndim == 1
    if not isinstance(a, Mat):
        if isinstance(a, Arr):
            return rowmul(a, b)
        raise Unsupported(f'left operand of @: {a!r}')
    bm = as_mat(b)
    mid_a, mid_b = a.cols, bm.rows
    tot = lambda xs: sum(xs, S.const(0))
    if not tot(mid_a).same(tot(mid_b)):
        raise ValueError(f'matmul: shapes {a.shape} @ {bm.shape}')
    if len(mid_a) < len(mid_b):
        a = refine(a, mid_b if _k(tuple(a.rows)) == _k(tuple(a.cols)) else a.rows, mid_b)
    elif len(mid_b) < len(mid_a):
        bm = refine(bm, mid_a, mid_a if _k(tuple(bm.rows)) == _k(tuple(bm.cols)) else bm.cols)
    n = len(a.cols)
    out = []
    for i in range(len(a.rows)):
        row = []
        for j in range(len(bm.cols)):
            acc = NC()
            for k in range(n):
                if a.b[i][k].is_zero() or bm.b[k][j].is_zero():
                    continue
                acc = acc + a.b[i][k] * bm.b[k][j]
            row.append(acc)
        out.append(row)
    r = Mat(a.rows, bm.cols, out, unify(a.batch, bm.batch))
    return vec_of(r) if vec else r


class RowArr:
    pass


_dotcache = {}


def rowmul(a, b):
    """element-wise array with last axis contracted against a column: sum_n a[...,n]*b[n] -> 'dot' atom per word
    (a: Arr (..., n);  b: Mat (.., n, 1)); result has axes of broadcast batch + (1-axes)."""
    if not isinstance(b, Mat):
        b = as_mat(b)
    if len(b.rows) != 1 or not is_col(b):
        raise Unsupported('row contraction with blocked matrix')
    if not a.shape[-1].same(b.rows[0]):
        raise ValueError(f'matmul: shapes {a.shape} @ {b.shape}')
    r = S({})
    for w, c in b.b[0][0].t.items():
        for m, ca in a.expr.terms.items():
            free, bound = [], []
            fs = {IV(f) for f in a.axes[-1] if not is_one(f)} | {IV(b.rows[0])}
            for x in m:
                (bound if _mentions(_by_id[x[0]], fs) else free).append(x)
            word = w
            bm = tuple(bound)
            if word and word[0][0] == 'D':
                prodm = mono_S(bm) * mono_S(word[0][1])
                word = word[1:]
            else:
                prodm = mono_S(bm)
            for pm, pc in prodm.terms.items():
                fr2, bd2 = [], []
                for x in pm:
                    (bd2 if _mentions(_by_id[x[0]], fs) else fr2).append(x)
                dot = S.of_atom(atom('dot', (S({tuple(sorted(bd2)): (ONE, ZERO)}), WordRef(word), 'over')))
                r = r + S({tuple(sorted(free)): ca}) * S({tuple(sorted(fr2)): pc}) * dot * c
    batch = unify(a.axes[:-2], b.batch)
    return Arr(batch + (a.axes[-2], ()), r)


def _mentions(a, ivs):
    if a.kind in ('sym', 'el'):
        return any(_idx_mentions(i, ivs) for i in a.args[1])
    if a.kind == 'conj':
        return _mentions(_by_id[a.args[0]], ivs)
    for z in a.args:
        if isinstance(z, S):
            if any(_mentions(_by_id[x], ivs) for m in z.terms for x, _ in m):
                return True
    return False


def _idx_mentions(i, ivs):
    if _is_iv(i):
        return i in ivs
    if isinstance(i, tuple):
        return any(_idx_mentions(j, ivs) for j in i if isinstance(j, tuple))
    return False


def arange(lo, hi):
    """lo, lo+1, ..., hi-1: value lo + generic index"""
    n = hi - lo
    return Arr(((n,),), lo + S.sym('#', (IV(n),), real=True))


class Arange:
    def __init__(self, n):
        self.n = n


# --------------------------------------------------------------------------- library contracts (assumed)
def mat_key(m):
    return (_k(tuple(m.rows)), _k(tuple(m.cols)), tuple(tuple(x.key() for x in r) for r in m.b))


def n_blocks(m):
    return len(m.rows)


def inv(m, name='inv'):
    """contract of linalg.inv / solve / pinv on an invertible square matrix: two-sided inverse"""
    m = as_mat(m)
    if len(m.rows) != len(m.cols):
        if len(m.rows) < len(m.cols):
            m = refine(m, m.cols, m.cols)
        else:
            m = refine(m, m.rows, m.rows)
    if m.is_diag_blocks():
        return m.map_diag(lambda e: e.recip())
    m = m.map(lambda x: reduce_nc(x))
    k = mat_key(m)
    if k in CTX.invs:
        return CTX.invs[k]
    for d in getattr(CTX, 'rfac', ()):            # (M d)^-1 = d^-1 M^-1, (d^-1 M)^-1 = M^-1 d
        if m is d or len(d.rows) != n_blocks(m):
            continue
        di = d.map_diag(lambda e: e.recip())
        for x, f in ((m @ di, lambda y: di @ y), (d @ m, lambda y: y @ d)):
            k2 = mat_key(x.map(lambda e: reduce_nc(e)))
            if k2 in CTX.invs:
                return f(CTX.invs[k2])
    CTX.uniq += 1
    nm = f'{name}{CTX.uniq}'
    n = len(m.rows)
    ai = Mat(m.cols, m.rows, [[nc_atom(f'{nm}_{i}{j}' if n > 1 else nm) for j in range(n)] for i in range(n)], m.batch)
    CTX.trusted.add('linalg.inv/pinv/solve of an invertible matrix returns its two-sided inverse (exact arithmetic)')
    one = lambda i, j: nc_one() if i == j else NC()
    p1, p2 = m @ ai, ai @ m
    for i in range(n):
        for j in range(n):
            CTX.hyp(f'{nm}:right[{i}{j}]', p1.b[i][j] - one(i, j))
    for i in range(n):
        for j in range(n):
            CTX.hyp(f'{nm}:left[{i}{j}]', p2.b[i][j] - one(i, j))
    CTX.invs[k] = ai
    CTX.invs[mat_key(ai)] = m
    return ai


def eig(m):
    """contract of linalg.eig on a diagonalisable matrix: M W = W diag(lam), W invertible"""
    m = as_mat(m)
    k = mat_key(m)
    if k in CTX.eigs:
        return CTX.eigs[k]
    CTX.uniq += 1
    nm = f'eig{CTX.uniq}'
    n = len(m.rows)
    W = Mat(m.rows, m.cols, [[nc_atom(f'{nm}.W{i}{j}' if n > 1 else f'{nm}.W') for j in range(n)] for i in range(n)])
    lam = [Arr(((s,),), S.sym(f'{nm}.lam{j}', (IV(s),))) for j, s in enumerate(m.cols)]
    CTX.trusted.add('linalg.eig returns W, lam with M W = W diag(lam) and W invertible (M diagonalisable, exact arithmetic)')
    p = m @ W
    for i in range(n):
        for j in range(n):
            CTX.hyp(f'{nm}[{i}{j}]', p.b[i][j] - W.b[i][j] * nc_diag(lam[j].expr))
    r = (lam[0] if n == 1 else SegVec(lam), W)
    CTX.eigs[k] = r
    return r


def diag(v):
    if isinstance(v, SegVec):
        n = len(v.parts)
        return Mat([p.shape[0] for p in v.parts], [p.shape[0] for p in v.parts],
                   [[nc_diag(v.parts[i].expr) if i == j else NC() for j in range(n)] for i in range(n)])
    if isinstance(v, Arr) and v.ndim == 1:
        return Mat([v.shape[0]], [v.shape[0]], [[nc_diag(v.expr)]])
    if isinstance(v, Mat):
        return v.diagonal()
    raise Unsupported('diag')


def eye(n):
    return Mat([n], [n], [[nc_one()]])


def zeros(shape):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = [dim(s) for s in shape]
    if len(shape) == 2 and not is_one(shape[1]) and not is_one(shape[0]):
        return Mat([shape[0]], [shape[1]], [[NC()]])
    if len(shape) == 2 and is_one(shape[1]) and shape[0].as_int() is None:
        return Mat([shape[0]], [1], [[NC()]])
    return Arr(tuple((s,) if not is_one(s) else () for s in shape), S({}))


def block(rows):
    if not isinstance(rows[0], (list, tuple)):
        rows = [rows]
    ms = [[as_mat(x) for x in r] for r in rows]
    rs, cs, out = [], [], []
    # column partition: concatenation of the first row's partitions, refined by other rows
    ncol = len(ms[0])
    for j in range(ncol):
        best = max((r[j].cols for r in ms), key=len)
        cs.append(best)
    for r in ms:
        best = max((m.rows for m in r), key=len)
        rs.append(best)
    for i, r in enumerate(ms):
        rr = [refine(m, rs[i] if len(m.rows) != len(rs[i]) else m.rows, cs[j] if len(m.cols) != len(cs[j]) else m.cols)
              for j, m in enumerate(r)]
        for m in rr:
            if _k(tuple(m.rows)) != _k(tuple(rs[i])):
                raise ValueError('block: row sizes differ')
        for k in range(len(rs[i])):
            out.append([x for m in rr for x in m.b[k]])
    for r in ms:
        for j, m in enumerate(r):
            if not sum(m.cols, S.const(0)).same(sum(cs[j], S.const(0))):
                raise ValueError('block: column sizes differ')
    return Mat([s for r in rs for s in r], [s for c in cs for s in c], out)


def concat(xs, axis=0):
    xs = list(xs)
    if isinstance(axis, S):
        axis = axis.as_int()
    if all(isinstance(x, (Arr, SegVec)) and x.ndim == 1 for x in xs):
        parts = []
        for x in xs:
            parts += x.parts if isinstance(x, SegVec) else [x]
        return SegVec(parts) if len(parts) > 1 else parts[0]
    if all(isinstance(x, Arr) and x.ndim > 2 for x in xs):
        if axis in (-1, xs[0].ndim - 1) and all(is_one(x.shape[-1]) for x in xs):
            return LastStack(xs)
        raise Unsupported('concatenate')
    ms = [as_mat(x) for x in xs]
    if axis in (1, -1):
        return block([ms])
    return block([[m] for m in ms])


class LastStack(Elementwise):
    """arrays concatenated along a last unit axis"""

    def __init__(self, parts):
        self.parts = parts

    @property
    def shape(self):
        return self.parts[0].shape[:-1] + (len(self.parts),)

    @property
    def ndim(self):
        return self.parts[0].ndim


# --------------------------------------------------------------------------- proof entry points
class Goal:
    def __init__(self, name, status, detail=''):
        self.name, self.status, self.detail = name, status, detail


def intertwine(X, Y, B, A, Bi, Ai):
    """lemma: B X = Y A, Bi B = 1 and A Ai = 1 (all three proved here) give X Ai = Bi Y, which becomes a hypothesis"""
    I1 = eye(sum(Bi.rows, S.const(0)))
    for l, r in ((B @ X, Y @ A), (Bi @ B, I1), (A @ Ai, I1)):
        ok, det = mat_equal(l, r)
        if not ok:
            return False
    d = X @ Ai - Bi @ Y
    for row in d.b:
        for nc in row:
            CTX.hyp('lemma', nc)
    return True


def nc_equal(a, b, complete=True):
    d = reduce_nc(a - b)
    if d.is_zero():
        return True, ''
    if complete:
        CTX.complete()
        d = reduce_nc(d)
        if d.is_zero():
            return True, ''
    return False, str(d)[:600]


def mat_equal(a, b, complete=True):
    a, b = align(as_mat(a), as_mat(b))
    for i in range(len(a.rows)):
        for j in range(len(a.cols)):
            ok, det = nc_equal(a.b[i][j], b.b[i][j], complete)
            if not ok:
                return False, f'block[{i}{j}]: {det}'
    return True, ''


def norm_expr(e):
    """reduce words inside el/dot atoms"""
    def f(a):
        if a.kind == 'el':
            nc = reduce_nc(NC({a.args[0].w: S.const(1)}))
            r = S({})
            for w, c in nc.t.items():
                r = r + c * el_word(w, a.args[1])
            return r
        if a.kind == 'conj':
            x = f(_by_id[a.args[0]])
            return conj(x) if x is not None else None
        return None
    return map_atoms(e, f)


def arr_equal(a, b):
    if isinstance(a, Container) or isinstance(b, Container):
        if type(a) is not type(b) or len(a.parts) != len(b.parts):
            return False, 'structure differs'
        for x, y in zip(a.parts, b.parts):
            ok, d = arr_equal(x, y)
            if not ok:
                return ok, d
        return True, ''
    ea = a.expr if isinstance(a, Arr) else coerce(a)
    eb = b.expr if isinstance(b, Arr) else coerce(b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        sa, sb = a.shape, b.shape
        if len(sa) != len(sb) or not all(x.same(y) for x, y in zip(sa, sb)):
            return False, f'shape {sa} vs {sb}'
    ea, eb = join_index(ea), join_index(eb)
    d = norm_expr(ea - eb)
    if scal.prove_zero(d):
        return True, ''
    for x in (a, b):
        if isinstance(x, Arr) and x.ndim == 1:
            try:
                ok, det = nc_equal(to_col(ea - eb, x.shape[0]), NC())
            except Unsupported:
                break
            if ok:
                return True, ''
            return False, det
    return False, str(d)[:600]


def equal(a, b):
    if isinstance(a, Mat) or isinstance(b, Mat):
        return mat_equal(a, b)
    return arr_equal(a, b)
