"""Proofs about the material look-up and the dispersion models."""
import types
import numpy as rnp
from vkit.contract import *
from vkit import scal, shim, path, loops
from vkit.scal import S, Unsupported, coerce

MODT = 'meent.on_{}.modeler.modeling'


def wl_sym():
    return S.sym('wl', real=True)


class Table:
    """a table of symbolic length: column c is the function of the row index"""
    ndim = 2

    def __init__(self):
        self.M = path.intsym('M')

    def col(self, c):
        return Column(c)

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and ix[0] == slice(None) and isinstance(ix[1], int):
            return Column(ix[1] % 3)
        raise Unsupported('table access')

    @property
    def shape(self):
        return (self.M, 3)

    @property
    def T(self):
        return tuple(Column(c) for c in range(3))


class Column(alg.Elementwise):
    def __init__(self, c):
        self.c = c

    def __getitem__(self, i):
        if i == 0 and self.c == 0:
            return S.sym('wl_low', real=True)          # the reader sorts the rows
        if i == -1 and self.c == 0:
            return S.sym('wl_high', real=True)
        raise Unsupported('element of a table column')

    def min(self):
        return amin(self)

    def max(self):
        return amax(self)


def amin(x, *a, **k):
    if isinstance(x, Column) and x.c == 0:
        return S.sym('wl_low', real=True)
    if isinstance(x, S):
        return x
    raise Unsupported('min')


def amax(x, *a, **k):
    if isinstance(x, Column) and x.c == 0:
        return S.sym('wl_high', real=True)
    if isinstance(x, S):
        return x
    raise Unsupported('max')


def interp(x, xp, fp, *a, **k):
    if a or k or not (isinstance(xp, Column) and isinstance(fp, Column)):
        raise Unsupported('interp')
    return scal.fn('interp', coerce(x), S.const(xp.c), S.const(fp.c), real=True)


for n, f in (('min', amin), ('amin', amin), ('nanmin', amin), ('max', amax), ('amax', amax), ('nanmax', amax), ('interp', interp)):
    shim.LIB[n] = f


class Warn:
    """records warnings"""
    def __init__(self):
        self.n = 0

    def warn(self, *a, **k):
        self.n += 1

    def __getattr__(self, n):
        raise Unsupported(f'warnings.{n}')


def ffloat(x=0.):
    return x if isinstance(x, S) else float(x)


class Fmt:
    pass


def table_proof(be):
    def t(rep):
        m = module(be, MODT)
        try:
            f = get(m, 'find_nk_index')
        except Unsupported as e:
            rep.ob(f'{be}.find_nk_index', 'unsupported', '-', 0, str(e))
            return
        wl = wl_sym()
        low, high = S.sym('wl_low', real=True), S.sym('wl_high', real=True)
        E = lambda c: scal.fn('interp', wl, S.const(0), S.const(c), real=True)
        for name, exp in (('Some_Mat', E(1) - S.const(1j) * E(2)), ('SOME_MAT', E(1) - S.const(1j) * E(2)), ('some_mat__real', E(1))):
            w = Warn()

            def run():
                w.n = 0
                r = shim.sym(f, extra)(name, {'SOME_MAT': Table(), 'SOME_MAT__REAL': None, 'OTHER': None}, wl)
                yield 'n - ik from columns n and k of the material\'s table', r, exp
                outside = (wl < low) | (wl > high)
                yield 'warns exactly when the wavelength is outside the table', outside if w.n else ~outside
            extra = {'float': ffloat, 'warnings': w}
            prove_run(rep, f'{be}.find_nk_index[{name}]', run, conds=[~(high < low)])
    return t


# ------------------------------------------------------------------ dispersion models (C12)
class Coef(loops.Seq):
    """coefficient list of symbolic length: item i is the symbol C(i)"""

    def __init__(self, n):
        super().__init__(n, lambda i: scal.fn('C', coerce(i), real=True))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1):
            a = coerce(0 if i.start is None else i.start)
            if i.stop is None:
                raise Unsupported('open slice')
            n = (coerce(i.stop) - a).as_int()
            if n is None:
                raise Unsupported('slice of symbolic length')
            return [self.item(a + j) for j in range(n)]
        return super().__getitem__(i)


def wofz(z, *a, **k):
    return scal.fn('wofz', coerce(z))


TERMS = {}


def c(i):
    return scal.fn('C', coerce(i), real=True)


def t1(wl, i, ref):
    return c(i) * wl ** 2 / (wl ** 2 - c(i + 1) ** 2)


def t2(wl, i, ref):
    return c(i) * wl ** 2 / (wl ** 2 - c(i + 1))


def tbb(wl, i, ref, ev):
    import math
    if ev:
        om = S.const(1e-2) / wl / S.const(ref.WAVENUMBER_PER_EV)
        f, g, ce, sg = c(i) * c(0) ** 2, c(i + 1), c(i + 2), c(i + 3)
    else:
        om = S.const(1e-2) / wl
        f, g, sg, ce = c(i), c(i + 1), c(i + 2), c(i + 3)
    a = scal.sqrt(om ** 2 + S.const(1j) * om * g)
    r2 = S.const(math.sqrt(2))
    w = wofz((a - ce) / (r2 * sg)) + wofz((a + ce) / (r2 * sg))
    return S.const(1j) * S.const(math.sqrt(math.pi)) * f / (S.const(2 ** 1.5) * a * sg) * w


MODELS = {1: ('formula_1', lambda wl, ref: 1 + c(0), t1, 1, 2),
          2: ('formula_2', lambda wl, ref: 1 + c(0), t2, 1, 2),
          'brendel-bormann-ev': ('model_brendel_bormann_ev', lambda wl, ref: drude(wl, ref), lambda wl, i, ref: tbb(wl, i, ref, True), 3, 4),
          'brendel-bormann-cm': ('model_brendel_bormann_cm', lambda wl, ref: c(0), lambda wl, i, ref: tbb(wl, i, ref, False), 1, 4)}


def drude(wl, ref):
    om = S.const(1e-2) / wl / S.const(ref.WAVENUMBER_PER_EV)
    return 1 - c(1) * c(0) ** 2 / (om * (om + S.const(1j) * c(2)))


def xps():
    return {'numpy': shim.np_shim(), 'jax': shim.jax_shim()[0]}


def formula_proof(rep):
    import meent.dispersion as D
    for key, (nm, base, term, first, step) in MODELS.items():
        f = D.FORMULAS.get(key)
        if f is None:
            rep.ob(f'dispersion[{key}]', 'failed', 'eval', 0, 'the formula is not registered')
            continue
        for xn, xp in xps().items():
            wl = wl_sym()
            extra = {'_faddeeva': wofz}

            def run_n(nt):
                def run():
                    cs = [c(i) for i in range(first + step * nt)]
                    eps = base(wl, D)
                    for j in range(nt):
                        eps = eps + term(wl, first + step * j, D)
                    r = shim.sym(f, extra)(cs, wl, xp)
                    yield f'index^2 of {nt} terms is the defined permittivity', r, scal.sqrt(eps)
                return run
            for nt in (0, 1, 2, 3) if xn == 'numpy' else (1,):
                prove_run(rep, f'dispersion.{key}[{xn}, {nt} terms]', run_n(nt))

            def run():
                rule = loops.AccRule()
                g = shim.sym(loops.loopify(f), dict(extra, __L=rule))
                r = g(Coef(S.const(first) + step * path.intsym('terms')), wl, xp)
                if rule.k is None or len(rule.acc) != 1:
                    raise Unsupported('the sum is not accumulated by one loop')
                a = rule.acc[0]
                yield 'value before the loop', rule.entry[a], base(wl, D)
                yield 'a generic iteration adds the term of its coefficients', rule.inc[a], term(wl, first + step * rule.idx, D)
                yield 'the result is the square root of the sum', r, scal.sqrt(rule.total[a])
            prove_run(rep, f'dispersion.{key}[{xn}, any number of terms]', run)


def lookup_proof(be):
    """a fitted material: evaluated (not interpolated) and conjugated to n - ik, inline or from the table"""
    def t(rep):
        m = module(be, MODT)
        try:
            f = get(m, 'find_nk_index')
        except Unsupported as e:
            rep.ob(f'{be}.find_nk_index', 'unsupported', '-', 0, str(e))
            return
        wl = wl_sym()
        lo, hi = S.sym('lo', real=True), S.sym('hi', real=True)
        N = S.sym('N')

        class D:
            @staticmethod
            def evaluate(spec, w, xp):
                if spec is not SPEC or not alg.equal(w, wl)[0]:
                    raise Unsupported('evaluate called with other arguments')
                return N
        SPEC = {'formula': 1, 'coefficients': None, 'wavelength_range': (lo, hi)}
        for mat, exp in ((SPEC, scal.conj(N)), ('Fit_x', scal.conj(N)), ('fit_x__real', scal.real(N))):
            w = Warn()

            def run():
                w.n = 0
                r = shim.sym(f, extra)(mat, {'FIT_X': SPEC}, wl)
                yield 'conjugated model index', r, exp
                outside = (wl < lo) | (wl > hi)
                yield 'warns exactly when the wavelength is outside the fitted range', outside if w.n else ~outside
            extra = {'float': ffloat, 'warnings': w, 'dispersion': D}
            prove_run(rep, f'{be}.find_nk_index[{"inline" if mat is SPEC else mat}]', run, conds=[~(hi < lo)])
    return t


def dispatch_proof(rep):
    """evaluate: the named model with the specification's own coefficients, anything else is refused"""
    import meent.dispersion as D
    wl = wl_sym()
    for key in list(MODELS) + ['graphene-falkovsky']:
        hit = []
        tag = S.sym('value')
        forms = {k: (lambda cs, w, xp, k=k: hit.append((k, cs, w)) or (tag if k == key else S.sym('other'))) for k in D.FORMULAS}

        def run():
            del hit[:]
            cs = [c(0), c(1), c(2)]
            r = shim.sym(D.evaluate, {'FORMULAS': forms})({'formula': key, 'coefficients': cs, 'wavelength_range': (0, 1)}, wl, shim.np_shim())
            yield 'the named model is evaluated', r, tag
            yield 'with the coefficients of the specification', bool(len(hit) == 1 and hit[0][1] is cs)
            yield 'at the requested wavelength', hit[0][2], wl
        prove_run(rep, f'dispersion.evaluate[{key}]', run)
