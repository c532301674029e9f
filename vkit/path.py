"""Symbolic conditions and path exploration (the real function is re-executed once per feasible path)."""
from fractions import Fraction
from .scal import S, Unsupported, coerce, _by_id, prove_zero, _k, is_real
from .z3load import load
z3 = load()
import time

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'paths': 0}


class Cond:
    """atomic ('eq'|'lt', S) meaning S==0 / S<0, or boolean combination"""
    __slots__ = ('op', 'args')
    __array_ufunc__ = None

    def __init__(self, op, args):
        self.op, self.args = op, args

    def ckey(self):
        return ('C', self.op, tuple(_k(a) for a in self.args))

    def map(self, f):
        if self.op in ('eq', 'lt'):
            return cond(self.op, f(self.args[0]))
        return Cond(self.op, tuple(a.map(f) if isinstance(a, Cond) else a for a in self.args))

    def __repr__(self):
        if self.op == 'eq':
            return f'({self.args[0]} == 0)'
        if self.op == 'lt':
            return f'({self.args[0]} < 0)'
        if self.op == 'not':
            return f'!{self.args[0]}'
        return f'({self.op} {self.args})'

    def __invert__(self):
        if self.op == 'not':
            return self.args[0]
        return Cond('not', (self,))

    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if o is True or o is False:
            return self if o else False
        return Cond('and', (self, o))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return True if o else self
        return Cond('or', (self, o))

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else ~self
        return NotImplemented

    __hash__ = None

    def __bool__(self):
        return PATH.decide(self)

    def __mul__(self, o):
        return as_num(self) * o

    __rmul__ = __mul__

    def all(self):
        return self

    any = all

    def item(self):
        return self


def as_num(c):
    from .scal import atom
    return S.of_atom(atom('bool', (c,), True))


def cond(op, e):
    if e.is_const():
        re, im = e.const_value()
        if op == 'eq':
            return re == 0 and im == 0
        if im != 0:
            raise Unsupported('ordering of complex constant')
        return re < 0
    if op == 'eq':
        lead = min(e.terms)
        a, b = e.terms[lead]
        n = a * a + b * b
        e = e * S({(): (a / n, -b / n)})
    return Cond(op, (e,))


# ---- z3 translation -------------------------------------------------------------------
INT_ATOMS = set()


def intsym(name):
    from .scal import atom
    a = atom('sym', (name, ()), True)
    INT_ATOMS.add(a.id)
    return S.of_atom(a)


class Z3T:
    def __init__(self):
        self.m = {}
        self.side = []

    def atom(self, a, part='re'):
        key = (a.id, part)
        if key in self.m:
            return self.m[key]
        if a.id in INT_ATOMS and part == 're':
            v = z3.Int('v%d' % a.id)
        elif a.kind == 'floor':
            n, d = a.args
            v = self.int(n) / self.int(d)
        elif a.kind == 'abs' and is_real(a.args[0]):
            x = self.re(a.args[0])
            v = z3.If(x >= 0, x, -x)
        elif a.kind == 'bool':
            v = z3.If(self.cond(a.args[0]), z3.RealVal(1), z3.RealVal(0))
        elif a.kind == 'ite' and a.real:
            v = z3.If(self.cond(a.args[0]), self.re(a.args[1]), self.re(a.args[2]))
        elif not a.real and a.kind in ('sqrt', 'conj', 'recip', 'ite'):
            return self.catom(a)[part != 're']
        elif a.kind == 'abs':
            v = z3.Real('v%d' % a.id)
            self.m[key] = v
            x, y = self.cplx(a.args[0])
            self.side.append(z3.And(v >= 0, v * v == x * x + y * y))
            return v
        elif a.kind == 'recip' and is_real(a.args[0]):
            v = z3.Real('v%d' % a.id)
            self.m[key] = v
            self.side.append(v * self.re(a.args[0]) == 1)
            return v
        else:
            v = z3.Real('v%d%s' % (a.id, '' if part == 're' else '_im'))
            if a.kind == 'sqrt' and is_real(a.args[0]):
                x = self.re(a.args[0])
                self.side.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
            if a.kind == 'exp' and a.real:
                self.side.append(v > 0)
            if a.kind in ('sin', 'cos') and a.real:
                self.side.append(z3.And(v >= -1, v <= 1))
            if a.pos:
                self.side.append(v > 0)
        self.m[key] = v
        return v

    def catom(self, a):
        """complex-valued atoms with a meaning: principal square root, conjugate, reciprocal, selection"""
        r, i = z3.Real('v%d' % a.id), z3.Real('v%d_im' % a.id)
        self.m[(a.id, 're')], self.m[(a.id, 'im')] = r, i
        if a.kind == 'conj':
            b = _by_id[a.args[0]]
            x, y = self.atom(b), self.atom(b, 'im')
            self.m[(a.id, 're')], self.m[(a.id, 'im')] = x, -y
            return x, -y
        if a.kind == 'ite':
            c = self.cond(a.args[0])
            x, y = self.cplx(a.args[1]), self.cplx(a.args[2])
            r, i = z3.If(c, x[0], y[0]), z3.If(c, x[1], y[1])
            self.m[(a.id, 're')], self.m[(a.id, 'im')] = r, i
            return r, i
        x, y = self.cplx(a.args[0])
        if a.kind == 'sqrt':
            self.side += [r * r - i * i == x, 2 * r * i == y, r >= 0, z3.Implies(r == 0, i >= 0)]
        else:
            self.side += [r * x - i * y == 1, r * y + i * x == 0]
        return r, i

    def int(self, e):
        acc = None
        for m, (re, im) in e.terms.items():
            if im != 0 or re.denominator != 1:
                raise Unsupported('non-integer index arithmetic')
            t = z3.IntVal(int(re))
            for aid, ex in m:
                a = _by_id[aid]
                v = self.atom(a)
                if v.sort() != z3.IntSort():
                    raise Unsupported('non-integer atom')
                if ex < 0:
                    raise Unsupported('negative power of integer')
                for _ in range(ex):
                    t = t * v
            acc = t if acc is None else acc + t
        return acc if acc is not None else z3.IntVal(0)

    def re(self, e):
        """real-valued S to z3"""
        try:
            if e.terms and all(all(aid in INT_ATOMS or _by_id[aid].kind == 'floor' for aid, _ in m) for m in e.terms):
                return self.int(e)
        except Unsupported:
            pass
        if not is_real(e):
            from .scal import conj
            if not e.same(conj(e)):
                raise Unsupported(f'complex value in ordering/real reasoning: {e}')
            return self.cplx(e)[0]
        acc = None
        for m, (re, im) in e.terms.items():
            if im != 0:
                raise Unsupported('complex value in ordering/real reasoning')
            t = z3.RealVal(str(re))
            for aid, ex in m:
                a = _by_id[aid]
                if not a.real:
                    raise Unsupported(f'complex atom {a} in real reasoning')
                v = self.atom(a)
                if v.sort() == z3.IntSort():
                    v = z3.ToReal(v)
                for _ in range(abs(ex)):
                    t = t * v if ex > 0 else t / v
            acc = t if acc is None else acc + t
        return acc if acc is not None else z3.RealVal(0)

    def cplx(self, e):
        R, Im = [], []
        acc = (z3.RealVal(0), z3.RealVal(0))
        for m, (re, im) in e.terms.items():
            t = (z3.RealVal(str(re)), z3.RealVal(str(im)))
            for aid, ex in m:
                a = _by_id[aid]
                v = self.atom(a)
                if v.sort() == z3.IntSort():
                    v = z3.ToReal(v)
                if a.real:
                    for _ in range(abs(ex)):
                        t = (t[0] * v, t[1] * v) if ex > 0 else (t[0] / v, t[1] / v)
                else:
                    w = self.atom(a, 'im')
                    if ex < 0:
                        key = (a.id, 'inv')
                        if key not in self.m:
                            p, q = z3.Real('v%d_inv' % a.id), z3.Real('v%d_invim' % a.id)
                            self.side += [p * v - q * w == 1, p * w + q * v == 0]
                            self.m[key] = (p, q)
                        v, w = self.m[key]
                    for _ in range(abs(ex)):
                        t = (t[0] * v - t[1] * w, t[0] * w + t[1] * v)
            acc = (acc[0] + t[0], acc[1] + t[1])
        return acc

    def cond(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if c.op == 'eq':
            e = c.args[0]
            if is_real(e):
                return self.re(e) == 0
            r, i = self.cplx(e)
            return z3.And(r == 0, i == 0)
        if c.op == 'lt':
            return self.re(c.args[0]) < 0
        if c.op == 'not':
            return z3.Not(self.cond(c.args[0]))
        if c.op == 'and':
            return z3.And(*[self.cond(x) for x in c.args])
        if c.op == 'or':
            return z3.Or(*[self.cond(x) for x in c.args])
        raise Unsupported(c.op)


def check(conds, timeout=5000):
    """sat-check a list of Cond/bool; returns 'sat'/'unsat'/'unknown', model"""
    t0 = time.time()
    T = Z3T()
    s = z3.Solver()
    s.set('timeout', timeout)
    fs = [T.cond(c) for c in conds]
    for f in fs:
        s.add(f)
    for f in T.side:
        s.add(f)
    r = s.check()
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t0
    return str(r), (s.model() if r == z3.sat else None), T


class _Path:
    def __init__(self):
        self.reset([])
        self.active = False

    def reset(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.facts = []
        self.known = {}

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.facts.append(c)
        self.known[c.ckey()] = True
        self.known[(~c).ckey()] = False

    def decide(self, c):
        if not self.active:
            raise Unsupported(f'symbolic condition {c} outside path exploration')
        k = c.ckey()
        if k in self.known:
            return self.known[k]
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i][0]
            forced = self.prefix[i][1]
        else:
            can_t = can_f = True
            try:
                if check(self.facts + [c])[0] == 'unsat':
                    can_t = False
                elif check(self.facts + [~c])[0] == 'unsat':
                    can_f = False
            except Unsupported:
                pass
            if not can_t and not can_f:
                raise Infeasible()
            v = can_t
            forced = not (can_t and can_f)
        self.trail.append((v, forced))
        self.assume(c if v else ~c)
        return v


class Infeasible(BaseException):
    pass


PATH = _Path()


def explore(thunk, pre=(), max_paths=256):
    """run thunk on every feasible path; yields (facts, outcome) with outcome = ('ret', value) | ('exc', exception)"""
    results = []
    stack = [[]]
    while stack:
        prefix = stack.pop()
        PATH.reset(prefix)
        PATH.active = True
        out = None
        try:
            for c in pre:
                PATH.assume(c)
            try:
                out = ('ret', thunk())
            except Infeasible:
                out = None
            except Unsupported:
                raise
            except Exception as e:  # noqa: BLE001  exceptions are observable outcomes of the code
                out = ('exc', e)
        finally:
            PATH.active = False
        STATS['paths'] += 1
        trail = PATH.trail
        for i in range(len(prefix), len(trail)):
            v, forced = trail[i]
            if not forced:
                stack.append([t for t in trail[:i]] + [(not v, False)])
        if out is not None:
            results.append((list(PATH.facts), out))
        if len(results) > max_paths:
            raise Unsupported('too many paths')
    return results
