"""C15, deductive part: solving is a function of the current parameters.

The solver object is executed symbolically (setters.World).  The callees of conv_solve / calculate_field - Fourier analysis, vector
modelling, the drivers, wave vectors and field evaluation, all pure functions of their arguments by the effect analysis and of the
parameters they read by the driver frame obligations - are replaced by recorders.  For every object with an arbitrary past the calls
made, the values handed over and the result must equal those of a freshly built object with the same parameters."""
import time
from vkit.contract import *
from vkit import scal, shim, path, effects
from vkit.scal import S, Unsupported, coerce
from vkit.path import PATH, intsym
from .setters import World, Cell, CELLS, equal_goals, plain
from .solve import Tok, key

PARAM = ('fto', 'period', 'thickness', 'theta', 'phi', 'psi', 'pol', 'n_top', 'n_bot', 'wavelength', 'fourier_type', 'enhanced_dfs', 'use_pinv', 'connecting_algo')
CALLEE = ('to_conv_mat_raster_discrete', 'to_conv_mat_raster_continuous', 'to_conv_mat_vector', 'field_dist_1d', 'field_dist_1d_conical', 'field_dist_2d')
DRIVER = ('solve_1d', 'solve_1d_conical', 'solve_2d')
LEFT = {'layer_info_list', 'T1', '_grating_type_assigned', 'is_aniso'}      # what a solve may leave behind


class Field(Tok):
    """a field map: the public method may still rearrange it (torch); every operation is recorded"""

    @property
    def shape(self):
        return (Tok('n'), Tok('n'), Tok('n'), 6)

    def op(self, *a):
        return Field('op', self, *a)

    def conj(self): return self.op('conj')
    def new_tensor(self, v, *a, **k): return Field('signs', v)
    def __mul__(self, o): return self.op('mul', o)
    def __rmul__(self, o): return self.op('mul', o)
    def __neg__(self): return self.op('neg')
    def __getitem__(self, k): return self.op('item', repr(k))
    __hash__ = Tok.__hash__
    __eq__ = Tok.__eq__


def norm(v):
    if isinstance(v, (Tok, Cell)):
        return v
    if hasattr(v, 'v') and not isinstance(v, S):
        return plain(v)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return [[k, norm(v[k])] for k in sorted(v)]
    return v


def deep(a, b):
    """structurally the same value"""
    a, b = norm(a), norm(b)
    if isinstance(a, Tok) and isinstance(b, Tok):
        return a is b or len(a.d) == len(b.d) and all(deep(x, y) for x, y in zip(a.d, b.d))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(deep(x, y) for x, y in zip(a, b))
    if isinstance(a, Cell) or isinstance(b, Cell):
        return isinstance(a, Cell) and isinstance(b, Cell) and (a.name, str(a.dtype)) == (b.name, str(b.dtype))
    if isinstance(a, S) or isinstance(b, S):
        a, b = coerce(a), coerce(b)
        return a is not NotImplemented and b is not NotImplemented and a.same(b)
    return type(a) is type(b) and (a is b or a == b)


def goals_eq(name, a, b):
    a, b = norm(a), norm(b)
    if deep(a, b):
        yield name, True
        return
    if isinstance(a, Tok) or isinstance(b, Tok):
        yield name, isinstance(a, Tok) and isinstance(b, Tok) and len(a.d) == len(b.d)
        if isinstance(a, Tok) and isinstance(b, Tok):
            for i, (x, y) in enumerate(zip(a.d, b.d)):
                yield from goals_eq(name, x, y)
        return
    if isinstance(a, list) and isinstance(b, list):
        yield name, len(a) == len(b)
        for x, y in zip(a, b):
            yield from goals_eq(name, x, y)
        return
    yield from equal_goals(name, a, b)


class Hist(World):
    def __init__(self, be):
        super().__init__(be)
        self.log = []
        ex = dict(self.extra)
        for n in CALLEE:
            ex[n] = self.rec(n)
        self.extra = ex
        memo = {}
        import importlib
        from .setters import ROOTS
        mod, name = ROOTS[be]
        self.cls = shim.symclass(get(importlib.import_module(mod), name), ex, memo)
        w = self

        def drive(f):
            def run(m, *a, **k):
                par = [[p, getattr(m, p)] for p in PARAM + ('perturbation', 'type_complex', 'device')]
                w.log.append([f, list(a), k, par])
                d = Tok(f, list(a), norm(k), norm(par))
                m.layer_info_list, m.T1 = [Tok('modes', d)], Tok('T1', d)
                names = ('R_s', 'R_p', 'T_s', 'T_p', 'de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p')
                r = {'res': {n: Tok(n, d) for n in names}}
                if f != 'solve_1d':
                    r.update(res_te_inc={n: Tok('te', n, d) for n in names}, res_tm_inc={n: Tok('tm', n, d) for n in names})
                return r
            return run
        for f in DRIVER:
            setattr(self.cls, f, drive(f))

        def kxy(m, wavelength):
            t = Tok('k', wavelength, [getattr(m, p) for p in ('n_top', 'theta', 'phi', 'period', 'fto', 'type_complex')])
            return Tok('kx', t), Tok('ky', t)
        self.cls.get_kx_ky_vector = kxy
        self.cls.modeling_vector_instruction = lambda m, u: Tok('vector', list(u))

    def rec(self, n):
        def call(*a, **k):
            self.log.append([n, list(a), k])
            t = (n, list(a), norm(k))
            if n.startswith('field'):
                return Field(*t)
            return Tok('epx', t), Tok('epy', t), Tok('epzi', t)
        return call

    def run(self, m, what):
        """calls made by and outcome of one public call; exceptions of the package are an outcome"""
        self.log = []
        try:
            r = getattr(m, what)()
        except (ValueError, TypeError, AttributeError, NotImplementedError) as e:
            return self.log, ['raises', type(e).__name__]
        if isinstance(r, Tok):
            return self.log, r
        if hasattr(r, 'res'):
            r = result(r)
        elif isinstance(r, tuple):
            r = [x if isinstance(x, Tok) or not hasattr(x, 'res') else result(x) for x in r]
        return self.log, r


def result(r):
    return [[g, None if getattr(r, g) is None else dict(getattr(r, g).__dict__)] for g in ('res', 'res_te_inc', 'res_tm_inc')]


def old_params(k):
    """an earlier structure of every formulation; its values are symbolic where they do not select the formulation"""
    s = lambda n: S.sym(f'old_{n}', real=True)
    PATH.assume(~(s('theta') == 0))
    return dict(theta=s('theta'), phi=s('phi') if k in ('conical', '2d') else None, period=[s('px'), s('py')], thickness=[s('d0'), s('d1')], wavelength=s('wl'), n_top=s('nt'),
                n_bot=s('nb'), fto=[2, 0], pol=0.5 if k == 'conical' else 1)


def old_cell(w, k):
    if k == 'vector':
        return [[2.5, []], [1.5, []]]
    sh = (2, 4 if k in ('2d', 'aniso') else 1, 5) + ((3,) if k.startswith('aniso') else ())
    return CELLS[w.kind]('old_U', sh, w.lib._r.float64, True if k.startswith('aniso') else None)


def params(tag, phi_none):
    s = lambda n: S.sym(f'{tag}_{n}', real=True)
    kw = dict(theta=s('theta'), phi=None if phi_none else s('phi'), period=[s('px'), s('py')], thickness=[s('d0'), s('d1')], wavelength=s('wl'), n_top=s('nt'),
              n_bot=s('nb'), fto=[intsym(f'{tag}_fx'), intsym(f'{tag}_fy')], pol=s('pol'))
    PATH.assume(~(kw['theta'] == 0))
    PATH.assume(~(kw['pol'] < 0) & ~(S.const(1) < kw['pol']))
    PATH.assume(~(kw['fto'][1] < 0))
    return kw


def cell(w, tag, kind):
    if kind == 'vector':
        return [[1.5, []]]
    sh = [intsym(f'{tag}_L'), intsym(f'{tag}_H'), intsym(f'{tag}_W')]
    for v in sh:
        PATH.assume(~(v < 1))
    return CELLS[w.kind](f'{tag}_U', tuple(sh) + ((3,) if kind == 'aniso' else ()), w.lib._r.float64, True if kind == 'aniso' else None)


def calls(be):
    return ('conv_solve', 'calculate_field') + (('conv_solve_field_no_jit',) if be == 'jax' else ('conv_solve_field',))


def prove_history(rep, be):
    kinds = ('raster', 'vector') + (('aniso',) if be == 'torch' else ())
    for k1 in ('1d', 'conical', '2d', 'vector') + (('aniso', 'aniso row') if be == 'torch' else ()):
        for k2 in kinds:
            for ft in (0, 1):
                for phi_none in (True, False):
                    def run(k1=k1, k2=k2, ft=ft, phi_none=phi_none):
                        w = Hist(be)
                        old, new = old_params(k1), params('new', phi_none)
                        new['fourier_type'] = ft
                        old['fourier_type'] = 1 - ft
                        u1, u2 = old_cell(w, k1), cell(w, 'new', k2)
                        m = w.new(ucell=u1, **old)
                        w.run(m, 'conv_solve')
                        w.run(m, 'calculate_field')
                        for k, v in new.items():
                            setattr(m, k, v)
                        m.ucell = u2
                        f = w.new(ucell=u2, **new)
                        before = {k: list(v) if isinstance(v, list) else v for k, v in m.__dict__.items() if k not in LEFT}
                        for what in calls(be):
                            la, ra = w.run(m, what)
                            lb, rb = w.run(f, what)
                            yield f'{what}: as many calls as on a fresh object', len(la) == len(lb)
                            for x, y in zip(la, lb):
                                yield from goals_eq(f'{what}: {x[0]} gets what it gets on a fresh object', x, y)
                            yield from goals_eq(f'{what}: result of a fresh object', ra, rb)
                        for k, v in before.items():
                            yield from equal_goals(f'frame: {k} is left alone by solving', m.__dict__.get(k), v)
                    prove_run(rep, f'{be}.history[{k1} -> {k2}, fourier_type {ft}, phi {"None" if phi_none else "given"}]', run, max_paths=4096)


def prove_repeat(rep, be):
    """poisoned leftovers and repeated calls: what a solve leaves behind is never read before it is written"""
    kinds = ('raster', 'vector') + (('aniso',) if be == 'torch' else ())
    for kind in kinds:
        for phi_none in (True, False):
            def run(kind=kind, phi_none=phi_none):
                w = Hist(be)
                kw = params('p', phi_none)
                u = cell(w, 'p', kind)
                m, f = w.new(ucell=u, **kw), w.new(ucell=u, **kw)
                for k in LEFT:
                    m.__dict__[k] = Tok('poison', k)
                g = w.new(ucell=u, **kw)
                w.run(g, 'conv_solve')
                for rnd, m in (('poisoned', m), ('repeated', g)):
                    la, ra = w.run(m, 'conv_solve')
                    lb, rb = w.run(f, 'conv_solve')
                    yield f'{rnd}: as many calls', len(la) == len(lb)
                    for x, y in zip(la, lb):
                        yield from goals_eq(f'{rnd}: {x[0]} gets the same', x, y)
                    yield from goals_eq(f'{rnd}: result', ra, rb)
                    for k in LEFT & set(f.__dict__):
                        yield from goals_eq(f'{rnd}: {k} afterwards', m.__dict__.get(k), f.__dict__[k])
            try:
                prove_run(rep, f'{be}.leftovers[{kind}, phi {"None" if phi_none else "given"}]', run, max_paths=4096)
            finally:
                for o in rep.obs:                       # a poisoned state need not be reachable: not a verdict
                    if o['status'] == 'failed' and '.leftovers[' in o['name'] and 'poisoned' in o['name']:
                        o['status'] = 'unsupported'


def prove_effects(rep, be):
    """no function of the package modifies an object it did not create (source of the current tree)"""
    import os, glob
    root = os.path.join(core.REPO, 'meent')
    files = sorted(glob.glob(f'{root}/on_{be}/**/*.py', recursive=True)) + (sorted(glob.glob(f'{root}/*.py')) if be == 'numpy' else [])
    try:
        effects.summarise(files)
    except (SyntaxError, OSError):
        effects.SUMMARY.clear()
    for p in files:
        rel = os.path.relpath(p, core.REPO)
        t0 = time.time()
        try:
            fns = list(effects.analyse(p))
        except (SyntaxError, RecursionError, KeyError, AttributeError, TypeError) as e:
            rep.ob(f'{rel}: effects', 'unsupported', '-', 0, str(e))
            continue
        for name, sites in fns:
            dt = (time.time() - t0) / max(1, len(fns))
            bad = [s for s in sites if not s[3]]
            rep.functions.add(f'{rel}:{name}')
            if not sites:
                rep.ob(f'{rel}:{name} modifies nothing', 'proved', 'effects', dt)
            elif not bad:
                for s in sites:
                    rep.ob(f'{rel}:{name} modifies only its own {s[1]} ({s[2]})', 'proved', 'effects', dt / len(sites))
            else:
                rep.ob(f'{rel}:{name} modifies only what it created', 'unsupported', '-', dt, f'not established: {bad[:3]}')


def task(be):
    def t(rep):
        prove_history(rep, be)
        prove_repeat(rep, be)
    return t
