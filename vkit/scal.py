"""Commutative symbolic scalars: Laurent polynomials with Gaussian-rational coefficients over
interned atoms.  Used both for 0-d values and for the generic element of element-wise arrays
(then atoms carry bound index variables).  Every operation is exact; anything outside the
fragment raises Unsupported, which the runner treats as "not decided", never as a failure."""
from fractions import Fraction
import numbers, math, os, sys


class Unsupported(BaseException):
    pass


_atoms = {}
_by_id = []


class Atom:
    __slots__ = ('kind', 'args', 'real', 'id', 'pos')

    def __repr__(self):
        if self.kind == 'sym':
            n, idx = self.args
            return n + (('[' + ','.join(map(str, idx)) + ']') if idx else '')
        return f"{self.kind}({', '.join(map(str, self.args))})"


def _k(x):
    if isinstance(x, S):
        return ('S', frozenset(x.terms.items()))
    if isinstance(x, tuple):
        return tuple(_k(y) for y in x)
    if hasattr(x, 'ckey'):
        return x.ckey()
    return x


def atom(kind, args, real=False, pos=False):
    key = (kind, _k(args), real)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.real, a.pos = kind, args, real, pos
        a.id = len(_by_id)
        _by_id.append(a)
        _atoms[key] = a
    return a


ZERO = Fraction(0)
ONE = Fraction(1)


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    if isinstance(x, numbers.Real):
        x = float(x)
        if not math.isfinite(x):
            raise Unsupported('non-finite constant')
        # recognise multiples of pi so that np.pi-derived literals stay exact
        return Fraction(x)
    raise Unsupported(f'constant {x!r}')


CUTS = []            # values taken out of the differentiation graph while code was executed symbolically


def cut(how, x):
    if not (isinstance(x, S) and all(a == PI_ATOM for t in x.terms for a, _ in t)):
        CUTS.append(how)
    return x


class S:
    """immutable polynomial: terms = {mono: (re, im)}, mono = tuple((atom_id, exp), ...) sorted"""
    __slots__ = ('terms', '_h')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, terms):
        self.terms = terms
        self._h = None

    # ---- construction
    @staticmethod
    def const(c):
        if isinstance(c, S):
            return c
        if isinstance(c, complex) or type(c).__name__ in ('complex128', 'complex64'):
            re, im = _frac(c.real), _frac(c.imag)
        else:
            if isinstance(c, float):
                s = _pi_literal(c)
                if s is not None:
                    return s
            re, im = _frac(c), ZERO
        if re == 0 and im == 0:
            return S({})
        return S({(): (re, im)})

    @staticmethod
    def of_atom(a, e=1):
        return S({((a.id, e),): (ONE, ZERO)})

    @staticmethod
    def sym(name, idx=(), real=False, pos=False):
        return S.of_atom(atom('sym', (name, tuple(idx)), real, pos))

    # ---- basics
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.terms.items()))
        return self._h

    def key(self):
        return self

    def same(self, o):
        return isinstance(o, S) and self.terms == o.terms

    def __repr__(self):
        if not self.terms:
            return '0'
        out = []
        for m, (re, im) in sorted(self.terms.items(), key=lambda t: t[0]):
            c = f'{re}' if im == 0 else (f'{im}i' if re == 0 else f'({re}+{im}i)')
            ms = '*'.join(repr(_by_id[a]) + (f'^{e}' if e != 1 else '') for a, e in m)
            out.append(c if not ms else (ms if c == '1' else f'{c}*{ms}'))
        return ' + '.join(out)

    def is_zero(self):
        return not self.terms

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and () in self.terms)

    def const_value(self):
        if not self.terms:
            return (ZERO, ZERO)
        return self.terms[()]

    def as_int(self):
        if self.is_const():
            re, im = self.const_value()
            if im == 0 and re.denominator == 1:
                return int(re)
        return None

    def __add__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        t = dict(self.terms)
        for m, (a, b) in o.terms.items():
            if m in t:
                re, im = t[m]
                re, im = re + a, im + b
                if re == 0 and im == 0:
                    del t[m]
                else:
                    t[m] = (re, im)
            else:
                t[m] = (a, b)
        return S(t)

    __radd__ = __add__

    def __neg__(self):
        return S({m: (-a, -b) for m, (a, b) in self.terms.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if len(o.terms) == 1 and () in o.terms:
            a, b = o.terms[()]
            if b == 0:
                return S({m: (x * a, y * a) for m, (x, y) in self.terms.items()})
        acc = {}
        extra = None
        for m1, (a, b) in self.terms.items():
            for m2, (c, d) in o.terms.items():
                re, im = a * c - b * d, a * d + b * c
                m, red = _mono_mul(m1, m2)
                if red is None:
                    if m in acc:
                        x, y = acc[m]
                        acc[m] = (x + re, y + im)
                    else:
                        acc[m] = (re, im)
                else:
                    t = red * S({m: (re, im)}) if m or True else red
                    extra = t if extra is None else extra + t
        r = S({m: v for m, v in acc.items() if v[0] != 0 or v[1] != 0})
        return r if extra is None else r + extra

    __rmul__ = __mul__

    def recip(self):
        if not self.terms:
            raise ZeroDivisionError('symbolic division by zero')
        if len(self.terms) == 1:
            (m, (a, b)), = self.terms.items()
            n = a * a + b * b
            r = S({(): (a / n, -b / n)})
            for aid, e in m:
                r = r * _pow_atom(aid, -e)
            return r
        # canonical: divide by leading coefficient
        lead = min(self.terms)
        a, b = self.terms[lead]
        n = a * a + b * b
        c = S({(): (a / n, -b / n)})
        body = self * c
        return S.of_atom(atom('recip', (body,))) * c

    def __truediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return self * o.recip()

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o * self.recip()

    def __pow__(self, e):
        if isinstance(e, S):
            k = e.as_int()
            if k is None:
                if e.is_const() and e.const_value() == (Fraction(1, 2), ZERO):
                    return sqrt(self)
                raise Unsupported(f'power {e}')
            e = k
        if isinstance(e, float) and e == 0.5:
            return sqrt(self)
        if isinstance(e, float) and e == -0.5:
            return sqrt(self).recip()
        if isinstance(e, (int,)) or (isinstance(e, float) and e == int(e)):
            e = int(e)
            if e < 0:
                return (self ** (-e)).recip()
            r = S.const(1)
            for _ in range(e):
                r = r * self
            return r
        raise Unsupported(f'power {e}')

    def __floordiv__(self, o):
        return intdiv(self, coerce(o))

    def __rfloordiv__(self, o):
        return intdiv(coerce(o), self)

    def __mod__(self, o):
        o = coerce(o)
        return self - o * intdiv(self, o)

    # numpy-scalar-ish interface -------------------------------------------------
    def conj(self):
        return conj(self)

    conjugate = conj

    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        return 'sym'

    device = 'cpu'
    requires_grad = False

    def astype(self, *_a, **_k):
        return self

    def to(self, *_a, **_k):
        return self

    def type(self, *_a, **_k):
        return self

    def clone(self):
        return self

    copy = clone

    def detach(self):
        return cut('detach', self)

    @property
    def data(self):
        return cut('data', self)

    def item(self):
        return cut('item', self)

    def reshape(self, *s):
        from .alg import Arr
        return Arr((), self).reshape(*s)

    def __abs__(self):
        return absval(self)

    def abs(self):
        return absval(self)

    # comparisons produce conditions
    def __eq__(self, o):
        from .path import cond
        o = coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return cond('eq', self - o)

    def __ne__(self, o):
        from .path import cond
        o = coerce(o)
        if o is NotImplemented:
            return NotImplemented
        c = cond('eq', self - o)
        return (not c) if isinstance(c, bool) else ~c

    def __lt__(self, o):
        from .path import cond
        o = coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return cond('lt', self - o)

    def __gt__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return o < self

    def __le__(self, o):
        from .path import cond
        o = coerce(o)
        if o is NotImplemented:
            return NotImplemented
        c = cond('lt', o - self)
        return (not c) if isinstance(c, bool) else ~c

    def __ge__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return NotImplemented
        return o <= self

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        k = self.as_int()
        if k is None:
            raise Unsupported(f'symbolic value {self} used as a concrete integer')
        return k

    def __int__(self):
        k = self.as_int()
        if k is None:
            raise Unsupported(f'int({self})')
        return k

    def __format__(self, spec):
        return repr(self)

    def __float__(self):
        raise Unsupported(f'float({self})')

    def __complex__(self):
        raise Unsupported(f'complex({self})')


def _pi_literal(c):
    for num in (1, 2, 4, -1, -2):
        for den in (1, 2, 4):
            if c == num * math.pi / den:
                return PI * S({(): (Fraction(num, den), ZERO)})
    return None


def coerce(o):
    if isinstance(o, S):
        return o
    if isinstance(o, (int, float, complex, Fraction, bool)):
        return S.const(o)
    t = type(o)
    if (t.__module__ == 'numpy' or t.__module__.startswith('jax') or t.__module__ == 'torch') and getattr(o, 'ndim', 1) == 0 and hasattr(o, 'item'):
        if t.__module__ != 'numpy':
            return coerce(o.item())
        return S.const(complex(o) if complex(o).imag else (int(o) if isinstance(o, numbers.Integral) else float(o.real)))
    if type(o).__name__ == 'PyInt':
        return o.s
    return NotImplemented


def _pow_atom(aid, e):
    a = _by_id[aid]
    if e == 0:
        return S.const(1)
    red = _reduce_pow(a, e)
    if red is not None:
        return red
    return S({((aid, e),): (ONE, ZERO)})


def _reduce_pow(a, e):
    """rewrite a**e for function atoms with algebraic relations; None when irreducible"""
    k = a.kind
    if k == 'sqrt':
        if e >= 2:
            return (a.args[0] ** (e // 2)) * _pow_atom(a.id, e % 2)
        if e <= -1:
            # 1/sqrt(x) = sqrt(x)/x
            n = (-e + 1) // 2
            return (a.args[0].recip() ** n) * _pow_atom(a.id, 2 * n + e)
    if k == 'abs':
        q = a.args[0] * conj(a.args[0])
        if e >= 2:
            return (q ** (e // 2)) * _pow_atom(a.id, e % 2)
        if e <= -1:
            n = (-e + 1) // 2
            return (q.recip() ** n) * _pow_atom(a.id, 2 * n + e)
    if k == 'sin' and e >= 2:
        c = S.of_atom(atom('cos', a.args, a.real))
        return ((S.const(1) - c * c) ** (e // 2)) * _pow_atom(a.id, e % 2)
    if k == 'exp' and e != 1:
        return exp(a.args[0] * S.const(e))
    if k == 'recip' and e < 0:
        return a.args[0] ** (-e)
    if k == 'sgn' and (e >= 2 or e < 0):      # branch sign: +-1
        return _pow_atom(a.id, e % 2)
    if k in ('bool', 'delta', 'lt0') and e >= 2:
        return _pow_atom(a.id, 1)
    return None


def _mono_mul(m1, m2):
    """returns (mono, None) or (mono_rest, S factor)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    special = None
    out = []
    exps = []
    for a, e in d.items():
        if e == 0:
            continue
        at = _by_id[a]
        k = at.kind
        if k == 'exp':
            exps.append((a, e))
            continue
        if k in ('sqrt', 'sin', 'recip', 'sgn', 'bool', 'abs', 'delta', 'lt0') and (e >= 2 or e < 0):
            r = _reduce_pow(at, e)
            if r is not None:
                special = r if special is None else special * r
                continue
        out.append((a, e))
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            out.append(exps[0])
        else:
            arg = S({})
            for a, e in exps:
                arg = arg + _by_id[a].args[0] * S.const(e)
            ex = exp(arg)
            if len(ex.terms) == 1:
                (m, c), = ex.terms.items()
                if c == (ONE, ZERO):
                    out.extend(m)
                else:
                    special = ex if special is None else special * ex
            else:
                special = ex if special is None else special * ex
    out.sort()
    return tuple(out), special


PI = S.sym('pi', real=True, pos=True)
PI_ATOM = next(iter(PI.terms))[0][0]
I = S({(): (ZERO, ONE)})


def _neg_canon(e):
    """canonical sign: returns (sign, e') with e = sign*e'"""
    if not e.terms:
        return 1, e
    lead = min(e.terms)
    a, b = e.terms[lead]
    if a < 0 or (a == 0 and b < 0):
        return -1, -e
    return 1, e


def _pi_multiple(e):
    if not e.terms:
        return Fraction(0)
    pid = next(iter(PI.terms))
    if len(e.terms) == 1 and pid in e.terms and e.terms[pid][1] == 0:
        return e.terms[pid][0]
    return None


def _quarter(e):
    """e = k*pi/2 + rest with rest != 0 -> (k mod 4, rest), else None"""
    pid = next(iter(PI.terms))
    c = e.terms.get(pid)
    if c is None or c[1] != 0 or len(e.terms) < 2 or (c[0] * 2).denominator != 1:
        return None
    return int(c[0] * 2) % 4, S({m: v for m, v in e.terms.items() if m != pid})


def sin(e):
    e = coerce(e)
    p = _pi_multiple(e)
    if p is not None and (p * 2).denominator == 1:
        return S.const([0, 1, 0, -1][int(p * 2) % 4])
    q = _quarter(e)
    if q is not None:
        k, r = q
        return [sin, cos, lambda x: -sin(x), lambda x: -cos(x)][k](r)
    s, e = _neg_canon(e)
    x = _single_atom(e, 'arctan')
    if x is not None:
        return x.args[0] * S.of_atom(atom('cos', (e,), is_real(e))) * s
    return S.of_atom(atom('sin', (e,), is_real(e))) * s


def _single_atom(e, kind):
    if len(e.terms) == 1:
        (m, c), = e.terms.items()
        if c == (1, 0) and len(m) == 1 and m[0][1] == 1 and _by_id[m[0][0]].kind == kind:
            return _by_id[m[0][0]]
    return None


def cos(e):
    e = coerce(e)
    p = _pi_multiple(e)
    if p is not None and (p * 2).denominator == 1:
        return S.const([1, 0, -1, 0][int(p * 2) % 4])
    q = _quarter(e)
    if q is not None:
        k, r = q
        return [cos, lambda x: -sin(x), lambda x: -cos(x), sin][k](r)
    s, e = _neg_canon(e)
    return S.of_atom(atom('cos', (e,), is_real(e)))


def tan(e):
    return sin(e) / cos(e)


def exp(e):
    e = coerce(e)
    if not e.terms:
        return S.const(1)
    q = e * S({(): (ZERO, Fraction(-1))})     # e/i
    p = _pi_multiple(q)
    if p is not None and (p * 2).denominator == 1:
        return [S.const(1), I, S.const(-1), -I][int(p * 2) % 4]
    return S.of_atom(atom('exp', (e,), is_real(e), is_real(e)))


def sqrt(e):
    e = coerce(e)
    if not e.terms:
        return e
    if e.is_const():
        re, im = e.const_value()
        if im == 0 and re > 0:
            n, d = math.isqrt(re.numerator), math.isqrt(re.denominator)
            if n * n == re.numerator and d * d == re.denominator:
                return S.const(Fraction(n, d))
    return S.of_atom(atom('sqrt', (e,)))


def fn(name, *args, real=False):
    return S.of_atom(atom(name, tuple(args), real))


def delta(e):
    """1 where the integer expression e is 0, else 0"""
    e = coerce(e)
    if e.is_const():
        return S.const(1 if e.is_zero() else 0)
    _, e = _neg_canon(e)
    return S.of_atom(atom('delta', (e,), True))


def lt0(e):
    """1 where the integer expression e is negative, else 0"""
    e = coerce(e)
    if e.is_const():
        return S.const(1 if e.const_value()[0] < 0 else 0)
    if e.terms[min(m for m in e.terms if m)][0] > 0:
        return lt0_raw(e)
    return 1 - lt0_raw(-e - 1)


def lt0_raw(e):
    return S.of_atom(atom('lt0', (e,), True))


def is_real(e):
    for m, (a, b) in e.terms.items():
        if b != 0:
            return False
        for aid, _ in m:
            if not _by_id[aid].real:
                return False
    return True


CONJ = {}        # kind -> conjugate of such an atom


def _conj_atom(a):
    if a.real:
        return S.of_atom(a)
    k = a.kind
    if k == 'conj':
        return S.of_atom(_by_id[a.args[0]])
    if k in ('exp', 'sin', 'cos'):
        return {'exp': exp, 'sin': sin, 'cos': cos}[k](conj(a.args[0]))
    if k == 'recip':
        return conj(a.args[0]).recip()
    if k in CONJ:
        return CONJ[k](a)
    return S.of_atom(atom('conj', (a.id,)))


def conj(e):
    e = coerce(e)
    r = S({})
    for m, (a, b) in e.terms.items():
        t = S({(): (a, -b)})
        for aid, ex in m:
            at = _by_id[aid]
            if at.real:
                t = t * S({((aid, ex),): (ONE, ZERO)})
            else:
                t = t * (_conj_atom(at) ** ex)
        r = r + t
    return r


def real(e):
    e = coerce(e)
    return (e + conj(e)) * S.const(Fraction(1, 2))


def imag(e):
    e = coerce(e)
    return (e - conj(e)) * S({(): (ZERO, Fraction(-1, 2))})


def absval(e):
    e = coerce(e)
    if e.is_const():
        re, im = e.const_value()
        if im == 0:
            return S.const(abs(re))
    s, e = _neg_canon(e)
    return S.of_atom(atom('abs', (e,), True, True))


def intdiv(a, b):
    """floor division on integer polynomials: exact when divisible, else an opaque atom"""
    k = b.as_int()
    if k is not None and k > 0:
        q = {}
        rest = {}
        for m, (re, im) in a.terms.items():
            if re.denominator == 1 and im == 0:
                if m != ():
                    if re % k == 0:
                        q[m] = (re / k, ZERO)
                    else:
                        rest[m] = (re, ZERO)
                else:
                    f, r = divmod(int(re), k)
                    if f:
                        q[()] = (Fraction(f), ZERO)
                    if r:
                        rest[()] = (Fraction(r), ZERO)
            else:
                raise Unsupported('floor division of non-integer polynomial')
        Q, R = S(q), S(rest)
        if R.is_zero() or (R.is_const() and 0 <= R.const_value()[0] < k):
            return Q
        return Q + S.of_atom(atom('floor', (R, b), True))
    return S.of_atom(atom('floor', (a, b), True))


# ---- traversal -------------------------------------------------------------------

def map_atoms(e, f):
    """rebuild e replacing atom a by S f(a) (f returns None to keep)"""
    r = S({})
    for m, (a, b) in e.terms.items():
        t = S({(): (a, b)})
        for aid, ex in m:
            x = f(_by_id[aid])
            if x is None:
                t = t * S({((aid, ex),): (ONE, ZERO)})
            else:
                t = t * (x ** ex)
        r = r + t
    return r


def subst(e, env, ienv=None):
    """substitute symbols: env: {atom: S}; ienv: {index var: index var or S} (renames bound index vars)"""
    ienv = ienv or {}
    cache = {}

    def f(a):
        if a.id in cache:
            return cache[a.id]
        r = None
        if a in env:
            r = env[a]
        elif a.kind == 'sym':
            n, idx = a.args
            ni = tuple(_ren_idx(i, ienv) for i in idx)
            if _k(ni) != _k(idx):
                r = S.of_atom(atom('sym', (n, ni), a.real, a.pos))
        elif a.kind == 'conj':
            r = conj(f(_by_id[a.args[0]]) if f(_by_id[a.args[0]]) is not None else S.of_atom(_by_id[a.args[0]]))
        elif a.kind in ('sin', 'cos', 'exp', 'sqrt', 'recip', 'abs', 'delta', 'lt0'):
            x = map_atoms(a.args[0], f)
            r = {'delta': delta, 'lt0': lt0, 'sin': sin, 'cos': cos, 'exp': exp, 'sqrt': sqrt, 'recip': lambda z: z.recip(), 'abs': absval}[a.kind](x)
        else:
            na = tuple(map_atoms(z, f) if isinstance(z, S) else (z.map(lambda q: map_atoms(q, f)) if hasattr(z, 'ckey') else _ren_idx(z, ienv)) for z in a.args)
            if _k(na) != _k(a.args):
                r = S.of_atom(atom(a.kind, na, a.real, a.pos))
        cache[a.id] = r
        return r
    return map_atoms(e, f)


def _ren_idx(i, ienv):
    if isinstance(i, tuple):
        return tuple(_ren_idx(j, ienv) for j in i)
    try:
        return ienv.get(i, i)
    except TypeError:
        return i


def atoms_of(e, acc=None):
    acc = set() if acc is None else acc
    for m in e.terms:
        for aid, _ in m:
            a = _by_id[aid]
            if a in acc:
                continue
            acc.add(a)
            for z in a.args:
                if isinstance(z, S):
                    atoms_of(z, acc)
                elif a.kind == 'conj':
                    atoms_of(S.of_atom(_by_id[z]), acc)
    return acc


def clear_recips(e, limit=50):
    """multiply e by the denominators hidden in recip atoms; zero-ness is preserved (denominators assumed nonzero,
    which is exactly the well-definedness of the division in the code). returns polynomial without top-level recips."""
    for _ in range(limit):
        tgt = None
        for m in e.terms:
            for aid, ex in m:
                if _by_id[aid].kind == 'recip':
                    tgt = aid
                    break
            if tgt is not None:
                break
        if tgt is None:
            return e
        den = _by_id[tgt].args[0]
        deg = max(dict(m).get(tgt, 0) for m in e.terms)
        r = S({})
        for m, c in e.terms.items():
            d = dict(m)
            k = d.pop(tgt, 0)
            t = S({tuple(sorted(d.items())): c})
            for _i in range(deg - k):
                t = t * den
            r = r + t
        e = r
    return e


def clear_negative(e):
    """multiply by monomial so that no negative exponents remain"""
    mn = {}
    for m in e.terms:
        for aid, ex in m:
            if ex < 0:
                mn[aid] = min(mn.get(aid, 0), ex)
    if not mn:
        return e
    f = S({tuple(sorted((a, -x) for a, x in mn.items())): (ONE, ZERO)})
    return e * f


def known_cond(c):
    """truth value of a condition under the facts of the current path (the contract's preconditions included), or None"""
    from .path import PATH
    if isinstance(c, bool):
        return c
    return PATH.known.get(c.ckey())


def prove_zero(e, depth=6):
    """decide e == 0 by normalisation + clearing denominators (+ case split on ite atoms)."""
    e = coerce(e)
    for _ in range(depth):
        if e.is_zero():
            return True
        ites = [a for a in atoms_of(e) if a.kind == 'ite']
        if ites:
            a = ites[0]
            v = known_cond(a.args[0])
            if v is not None:
                e = subst(e, {a: a.args[1] if v else a.args[2]})
                continue
            return prove_zero(subst(e, {a: a.args[1]}), depth - 1) and prove_zero(subst(e, {a: a.args[2]}), depth - 1)
        e2 = clear_negative(clear_recips(e))
        if e2.same(e):
            break
        e = e2
    return e.is_zero()
