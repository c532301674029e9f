"""Proofs about the Fourier analysis of cells: circulant, _cfs, cfs2d, dfs2d, cell_compression and the to_conv_mat_* drivers, for
all cell sizes, truncation orders and numbers of layers."""
import time
from vkit.contract import *
from vkit import scal, shim, path, loops, ix, alg
from vkit.scal import S, Unsupported, coerce
from vkit.path import PATH, intsym
from vkit.ix import Ix, generic, dim

FA = 'meent.on_{}.emsolver.fourier_analysis'
CM = 'meent.on_{}.emsolver.convolution_matrix'
PI, J = shim.PI, S.const(1j)


def nat(name, lo=0):
    n = intsym(name)
    PATH.assume(~(n < lo))
    return n


def safe_goals():
    for k, (nm, a, b) in enumerate(list(ix.SAFE)):
        for c in (a, b):
            if c is not True:
                yield f'{nm}', c


def call(f, kw):
    """call the extracted function with the parameters it has"""
    return bind(f, kw, optional=tuple(kw))


class MapRule:
    """for i in range(n): arrays are assigned at [i] only.  At entry of a generic iteration the arrays hold arbitrary values; the
    frame condition (other rows unchanged) is an obligation of the generic iteration."""

    def __init__(self):
        self.goals, self.k, self.n = [], None, 0

    def is_sym(self, it):
        return isinstance(it, (loops.SymRange, loops.Seq)) or (isinstance(it, Ix) and it.shape[0].as_int() is None)

    def begin(self, k, it, env, names, bad):
        if bad:
            raise Unsupported('break/continue/return in a loop over a symbolic range')
        if self.n:
            raise Unsupported('nested or repeated symbolic loop')
        self.n = 1
        self.it, self.names = it, names
        cnt = it.shape[0] if isinstance(it, Ix) else it.n
        self.k = generic('#k', cnt)
        self.arr = {n: v for n, v in env.items() if type(v) is Ix and getattr(v, 'made', False)}
        for n, v in self.arr.items():
            pre = (lambda n: lambda i, b: scal.fn('pre_' + n, *i))(n)
            v.fn, v.bound, v.pre = pre, (), pre
        self.env0 = env

    def havoc(self, k, n):
        return self.arr.get(n)

    def elem(self, k):
        return self.it[self.k] if isinstance(self.it, Ix) else self.it.elem(self.k)

    def end(self, k, env):
        j = intsym('#j')
        for n, v in self.arr.items():
            w = env.get(n, v)
            if not isinstance(w, Ix):
                continue
            if not w.dims or len(w.dims[0]) != 1:
                continue
            rest = tuple(generic(f'#f{q}', z) for q, z in enumerate(w.flat()[1:]))

            def frame(w=w, v=v, rest=rest):
                PATH.assume(~(j < 0))
                PATH.assume(j < w.dims[0][0])
                PATH.assume(~(j == self.k))
                return w.el(j, *rest), v.pre((j,) + rest, ())
            self.goals.append((f'loop frame of {n}', frame))

    def exit(self, k, n):
        return self.last.get(n) if hasattr(self, 'last') else None


def made(f):
    """array constructors whose result takes part in a loop"""
    def g(*a, **k):
        r = f(*a, **k)
        if type(r) is Ix:
            r.made = True
        return r
    return g


class Rule(MapRule):
    def end(self, k, env):
        super().end(k, env)
        self.last = dict(env)


_ast = Ix.astype


def keep_made(self, *a, **k):
    return self


def sym_loop(f, be, rule, **kw):
    ix.MODE[0] = be
    t = dict(ix.TABLE, zeros=made(ix.zeros), empty=made(ix.zeros), ones=ix.ones)
    import numpy as np

    def lib(real):
        return ix.Lib(real, t, {'fft': ix.Lib(real.fft, ix.FFT), 'linalg': ix.Lib(real.linalg, ix.LIN)})
    ex = dict(np=lib(np), **{'__L': rule})
    if be == 'torch':
        import torch
        ex['torch'] = lib(torch)
    if be == 'jax':
        import jax.numpy as jnp
        ex['jnp'] = lib(jnp)
    ex.update(loops.LOOP_BUILTINS)
    ex.update(len=shim.sym_len, int=shim.sym_int)
    ex['enumerate'] = enum
    ex.update(kw)
    return shim.sym(loops.loopify(f), ex)


def enum(x, start=0):
    if isinstance(x, Ix):
        return loops.SymRange(x.shape[0], lambda k: (k + start, x[k]))
    return loops.sym_enumerate(x, start)


def start():
    ix.reset()


def circ_c(f):
    """contract of circulant(fto): entry (r, c) is c - r"""
    n = 2 * f + 1
    return Ix([dim(n), dim(n)], lambda i, b: (i[1] - i[0]) if i else S.const(0))


def prove_circulant(rep, be):
    m = module(be, FA)
    try:
        f = get(m, 'circulant')
    except Unsupported as e:
        return rep.ob(f'{be}.circulant', 'unsupported', '-', 0, str(e))

    def run():
        start()
        fto = nat('fto')
        rule = Rule()
        r = sym_loop(f, be, rule)(**call(f, dict(fto=fto)))
        n = 2 * fto + 1
        yield 'shape', len(r.shape) == 2 and ix.same(r.shape[0], n) and ix.same(r.shape[1], n)
        k = rule.k if rule.k is not None else generic('#r', n)
        c = generic('#c', n)
        yield 'entry (r, c) is c - r', r.el(k, c), c - k
        if rule.k is not None:
            yield 'every row is assigned', ix.same(rule.it.n, n) and ix.same(rule.it.elem(rule.k), rule.k)
        for nm, fr in rule.goals:
            a, b = fr()
            yield nm, a, b
        yield from safe_goals()
    prove_run(rep, f'{be}.circulant', run)


# --------------------------------------------------------------------------------------------- one-dimensional series
def width(x, b, P):
    """length of block b, whose right end is x(b)"""
    return x(b) if b == 0 else x(b) - x(b - 1)


def prove_cfs(rep, be):
    m = module(be, FA)
    try:
        f = get(m, '_cfs')
    except Unsupported as e:
        return rep.ob(f'{be}._cfs', 'unsupported', '-', 0, str(e))

    def run():
        start()
        fto, N, R = nat('fto'), nat('N', 1), nat('R', 1)
        X = lambda b: scal.fn('el_x', b, real=True)
        x = Ix([[N], []], lambda i, b: X(i[0]))
        cell = ix.tensor('cell', R, N)
        P = X(N - 1)
        period = Ix([[]], lambda i, b: P)
        r = shim.sym(f, ix.extra(be, len=shim.sym_len, **loops.LOOP_BUILTINS))(**call(f, dict(x=x, cell=cell, fto=fto, period=period)))
        n = 4 * fto + 1
        yield 'shape (rows, 4 fto + 1)', len(r.shape) == 2 and ix.same(r.shape[0], R) and ix.same(r.shape[1], n)
        i, k = generic('#i', R), generic('#m', n)
        md = k - 2 * fto
        got = r.el(i, k)
        C = lambda b: scal.fn('el_cell', i, b)
        if md == 0:
            yield 'order 0 is the mean: sum of value times width over the period', got, ix.bsum((N,), lambda b: C(b[0]) * width(X, b[0], P)) / P
        else:
            nxt = lambda b: C(S.const(0)) if b + 1 == N else C(b + 1)
            body = lambda b: (nxt(b[0]) - C(b[0])) * scal.exp(-2 * J * PI * X(b[0]) * md / P)
            yield 'order m is the sum of the jumps times exp(-2 pi i m x/P), over 2 pi i m', got, ix.bsum((N,), body) / (2 * J * PI * md)
        yield from safe_goals()
    prove_run(rep, f'{be}._cfs', run)


def prove_integral(rep):
    """the jump sum is the exact Fourier integral of the blocks: summation by parts, by induction on the number of blocks, and
    the value exp(-2 pi i m) = 1 at the period"""
    t0 = time.time()
    A = lambda n, i: scal.fn(n, i)
    n = S.sym('n', real=True)
    c, e = (lambda i: A('c', i)), (lambda i: A('e', i))
    E = S.sym('E')             # exp at the left end of the first block
    # S1(n) = sum_{j<n} (c_{j+1} - c_j) e_j ;  S2(n) = sum_{j<=n} c_j (e_{j-1} - e_j), e_{-1} = E.   Claim S1(n) = S2(n) - c_0 E + c_n e_n
    base = (S.const(0), c(S.const(0)) * (E - e(S.const(0))) - c(S.const(0)) * E + c(S.const(0)) * e(S.const(0)))
    S2 = S.sym('S2n')
    s1 = S2 - c(S.const(0)) * E + c(n) * e(n)
    step = (s1 + (c(n + 1) - c(n)) * e(n), S2 + c(n + 1) * (e(n) - e(n + 1)) - c(S.const(0)) * E + c(n + 1) * e(n + 1))
    # last term of the cyclic sum: (c_0 - c_{N-1}) e_{N-1} with e_{N-1} = E (= 1)
    last = (s1 + (c(S.const(0)) - c(n)) * E, S2 + (c(n) * e(n) - c(n) * E))
    for nm, (a, b) in (('base', base), ('step', step)):
        ok, det = alg.equal(a, b)
        rep.ob(f'lemma: summation by parts, {nm}', 'proved' if ok else 'failed', 'rewrite', time.time() - t0, det)
    en = scal.subst if False else None
    ok, det = alg.equal(last[0].__sub__(S.const(0)), last[1])
    rep.ob('lemma: summation by parts, cyclic end (e at the period is 1)', 'proved' if ok else 'failed', 'rewrite', time.time() - t0, det)
    # the integral of a block: d/dx [ -exp(-2 pi i m x/P) P/(2 pi i m) ] = exp(-2 pi i m x/P)
    x, P, m = S.sym('x', real=True), S.sym('P', real=True), S.sym('m', real=True)
    F = lambda u: -scal.exp(-2 * J * PI * m * u / P) * P / (2 * J * PI * m)
    dF = scal.exp(-2 * J * PI * m * x / P) * (-2 * J * PI * m / P) * (-P / (2 * J * PI * m))
    ok, det = alg.equal(dF, scal.exp(-2 * J * PI * m * x / P))
    rep.ob('lemma: antiderivative of exp(-2 pi i m x/P)', 'proved' if ok else 'failed', 'rewrite', time.time() - t0, det)


# --------------------------------------------------------------------------------------------- two-dimensional matrices
def spec2d(coef_x, coef_y, cell, cx, cy, fx, fy, Nx):
    """Li's rules.  cell(y, x): permittivity of block (y, x).  coef_?(g, m): coefficient of order m along the axis of the
    function g.  Result: function of (r_y, r_x, c_y, c_x)"""
    nx, ny = 2 * fx + 1, 2 * fy + 1
    g = (lambda y, x: 1 / cell(y, x)) if cy == 0 else cell

    def toep_y(x, r, c):
        return coef_y(lambda y: g(y, x), c - r)

    def one_d(x, r, c):
        if not (cx ^ cy):
            return toep_y(x, r, c)
        t = Ix([[ny], [ny]], lambda i, b: toep_y(x, i[0], i[1]))
        return ix.inv(t).el(r, c)

    def two_d(ry, rx, cy_, cx_):
        return coef_x(lambda x: one_d(x, ry, cy_), cx_ - rx)
    if cx == 0:
        t = Ix([[ny, nx], [ny, nx]], lambda i, b: two_d(*i))
        return lambda *i: ix.inv(t).el(*i)
    return two_d


def prove_2d(rep, be, which, sub=True):
    m = module(be, FA)
    try:
        f = get(m, which)
    except Unsupported as e:
        return rep.ob(f'{be}.{which}', 'unsupported', '-', 0, str(e))
    has_cfs = hasattr(m, '_cfs')
    for cx, cy in ((1, 1), (1, 0), (0, 1)):
        def run():
            start()
            fx, fy = nat('fx'), nat('fy')
            Nx, Ny = nat('Nx', 1), nat('Ny', 1)
            cell = ix.tensor('cell', Ny, Nx)
            X = lambda b: scal.fn('el_x', b, real=True)
            Y = lambda b: scal.fn('el_y', b, real=True)
            kw = dict(cell=cell, conti_x=cx, conti_y=cy, fto_x=fx, fto_y=fy)
            over = {}
            if which == 'cfs2d':
                kw.update(x=Ix([[Nx], []], lambda i, b: X(i[0])), y=Ix([[Ny], []], lambda i, b: Y(i[0])))

                def coef(x, g, N, P, md):
                    return scal.fn('coef', N, P, ixbody(N, lambda b: x(b)), ixbody(N, g), md)

                def cfs(x=None, cell=None, fto=None, period=None, **k):
                    """contract of _cfs"""
                    if len(x.dims) != 2 or x.dims[1] or len(x.dims[0]) != 1 or not (len(cell.dims[-1]) == 1 and ix.same(cell.dims[-1][0], x.dims[0][0])):
                        raise Unsupported('_cfs called outside its contract')
                    N = x.dims[0][0]
                    w = sum(len(d) for d in cell.dims[:-1])
                    P = period.el() if isinstance(period, Ix) else coerce(period)
                    cc = cell.close()
                    return Ix(cell.dims[:-1] + [dim(4 * fto + 1)],
                              lambda i, b: coef(lambda q: x.el(q), lambda q: cc.fn(tuple(i[:w]) + (q,), ()), N, P, i[w] - 2 * fto))
                over = dict(_cfs=cfs)
                cxf = lambda g, md: coef(X, g, Nx, X(Nx - 1), md)
                cyf = lambda g, md: coef(Y, g, Ny, Y(Ny - 1), md)
            else:
                PATH.assume(~(Nx < 4 * fx + 1))
                PATH.assume(~(Ny < 4 * fy + 1))
                cxf = lambda g, md: ix.bsum((Nx,), lambda b: g(b[0]) / Nx * scal.exp(-2 * J * PI * b[0] * md / Nx))
                cyf = lambda g, md: ix.bsum((Ny,), lambda b: g(b[0]) / Ny * scal.exp(-2 * J * PI * b[0] * md / Ny))
            ex = ix.extra(be, circulant=lambda fto=None, **k: circ_c(fto), len=shim.sym_len, **over)
            r = shim.sym(f, ex)(**call(f, kw))
            nx, ny = 2 * fx + 1, 2 * fy + 1
            yield 'shape', len(r.shape) == 2 and ix.same(r.shape[0], nx * ny) and ix.same(r.shape[1], nx * ny)
            if [len(d) for d in r.dims] != [2, 2]:
                raise Unsupported('layout of the result')
            yield 'rows and columns are numbered (y order, x order)', all(ix.same(a, b) for a, b in zip(r.flat(), (ny, nx, ny, nx)))
            idx = tuple(generic(f'#r{q}', n) for q, n in enumerate((ny, nx, ny, nx)))
            got = r.el(*idx)
            want = spec2d(cxf, cyf, lambda y, x: scal.fn('el_cell', y, x), cx, cy, fx, fy, Nx)(*idx)
            yield {(1, 1): 'Laurent rule in both directions', (1, 0): 'inverse rule along y, Laurent along x', (0, 1): 'inverse rule along x, Laurent along y'}[cx, cy], got, want
            yield from safe_goals()
        prove_run(rep, f'{be}.{which}[x:{"direct" if cx else "inverse"},y:{"direct" if cy else "inverse"}]', run)


def ixbody(N, g):
    """canonical body of a function of one index (key of an opaque functional)"""
    d = ix._depth[0]
    ix._depth[0] += 1
    try:
        b = ix.bvar(d, N)
        return coerce(g(b))
    finally:
        ix._depth[0] = d


# --------------------------------------------------------------------------------------------- drivers
class Opaque:
    """records calls of a callee that is replaced by its contract"""

    def __init__(self, name):
        self.name, self.calls = name, []


def mat_tag(name, args, n):
    """opaque matrix named by the canonical keys of its arguments"""
    return Ix([[n], [n]], lambda i, b: scal.fn(name, *args, *i))


def key_of(t):
    """canonical key of a tensor: shape and element at generic indices"""
    d = ix._depth[0]
    fl = t.flat()
    ix._depth[0] += len(fl)
    try:
        b = tuple(ix.bvar(d + q, n) for q, n in enumerate(fl))
        return tuple(fl) + (coerce(t.close().fn(b, ())),)
    finally:
        ix._depth[0] = d


def driver_env(be, sizes):
    """contracts of dfs2d, cfs2d, cell_compression, meeinv as seen by the drivers"""
    def conv(name):
        def f(*a, **k):
            k = {q: v for q, v in k.items() if q not in ('device', 'type_complex')}
            n = 5 if name == 'dfs' else 7
            names = ['cell', 'conti_x', 'conti_y', 'fto_x', 'fto_y'] if name == 'dfs' else ['cell', 'x', 'y', 'conti_x', 'conti_y', 'fto_x', 'fto_y']
            b = dict(zip(names, a[:n]))
            b.update(k)
            if set(b) != set(names):
                raise Unsupported(f'{name}2d called with {sorted(b)}')
            fx, fy = coerce(b['fto_x']), coerce(b['fto_y'])
            n_ = (2 * fx + 1) * (2 * fy + 1)
            args = [S.const(int(b['conti_x'])), S.const(int(b['conti_y'])), fx, fy] + list(key_of(b['cell']))
            if name == 'cfs':
                args += list(key_of(b['x'])) + list(key_of(b['y']))
            else:
                sizes.append((b['cell'], fx, fy))
            return mat_tag(name, args, n_)
        return f

    def compression(cell=None, *a, **k):
        kk = key_of(cell)
        nbx, nby = scal.fn('nbx', *kk, real=True), scal.fn('nby', *kk, real=True)
        path.INT_ATOMS.update({next(iter(nbx.terms))[0][0], next(iter(nby.terms))[0][0]})
        return (Ix([[nby], [nbx]], lambda i, b: scal.fn('blk', *kk, *i)), Ix([[nbx], []], lambda i, b: scal.fn('bx', *kk, *i, real=True)),
                Ix([[nby], []], lambda i, b: scal.fn('by', *kk, *i, real=True)))

    def meeinv(x=None, use_pinv=False, *a, **k):
        return ix.inv(x)
    return dict(dfs2d=conv('dfs'), cfs2d=conv('cfs'), cell_compression=compression, meeinv=meeinv)


def layer_spec(kind, cells, fx, fy, sizes_dummy=None, pre=None, xy=None):
    """expected convolution matrices of one layer: cells = (for x, for y, for z) index tensors"""
    env = driver_env(None, [])
    out = []
    for comp, (cx, cy) in zip(cells, ((0, 1), (1, 0), (1, 1))):
        if kind == 'discrete':
            out.append(env['dfs2d'](pre(comp) ** 2, cx, cy, fx, fy))
        elif kind == 'continuous':
            n, x, y = env['cell_compression'](comp)
            out.append(env['cfs2d'](n ** 2, x, y, cx, cy, fx, fy))
        else:
            out.append(env['cfs2d'](comp ** 2, xy[0], xy[1], cx, cy, fx, fy))
    return out[0], out[1], ix.inv(out[2])


def prove_driver(rep, be, kind, aniso=False, enh=True, name=None):
    m = module(be, CM)
    fn = {'discrete': 'to_conv_mat_raster_discrete', 'continuous': 'to_conv_mat_raster_continuous', 'vector': 'to_conv_mat_vector'}[kind]
    lab = f'{be}.{fn}' + ('' if kind != 'discrete' else f'[enhanced_dfs={enh}]') + ('[anisotropic]' if aniso else '')
    try:
        f = get(m, fn)
    except Unsupported as e:
        return rep.ob(lab, 'unsupported', '-', 0, str(e))

    def run():
        start()
        fx, fy, L = nat('fx'), nat('fy'), nat('L', 1)
        Nx, Ny = nat('Nx', 1), nat('Ny', 1)
        sizes = []
        env = driver_env(be, sizes)
        rule = Rule()
        xy = None
        if kind == 'vector':
            def layer(k):
                nm = (lambda s: lambda i, b: scal.fn(s, k, *i))
                c = Ix([[Ny], [Nx]] + ([[S.const(3)]] if aniso else []), nm('el_u'))
                return (c, Ix([[Nx], []], nm('el_x')), Ix([[Ny], []], nm('el_y')))
            u = loops.Seq(L, layer)
            kw = dict(ucell_info_list=u)
        else:
            u = Ix([[L], [Ny], [Nx]] + ([[S.const(3)]] if aniso else []), lambda i, b: scal.fn('el_u', *i))
            kw = dict(ucell=u)
        kw.update(fto_x=fx, fto_y=fy)
        if kind == 'discrete':
            kw['enhanced_dfs'] = enh
        f2 = sym_loop(f, be, rule, **env)
        r = f2(**call(f, kw))
        if rule.k is None:
            raise Unsupported('no loop over the layers')
        k = rule.k
        n = (2 * fx + 1) * (2 * fy + 1)
        if kind == 'vector':
            lay, xs, ys = layer(k)
            xy = (xs, ys)
        else:
            lay = u[k]
        cells = tuple(lay[..., c] for c in range(3)) if aniso else (lay, lay, lay)

        def pre(c):
            """sampling refinement by whole-pixel repetition: the factor the code used, checked separately to be sufficient"""
            got = sizes[0][0]
            out = c
            for d in (0, 1):
                if len(got.dims[d]) == 2:
                    out = ix.repeat(out, got.dims[d][1], d)
            return out
        want = layer_spec(kind, cells, fx, fy, pre=pre, xy=xy)
        if not isinstance(r, tuple) or len(r) != 3:
            raise Unsupported('result is not a triple')
        for nm, got, w in zip(('epx', 'epy', 'epz inverse'), r, want):
            if not isinstance(got, Ix) or len(got.dims) != 3:
                raise Unsupported('result layout')
            yield f'{nm}: shape (layers, orders, orders)', ix.same(got.shape[0], L) and ix.same(got.shape[1], n) and ix.same(got.shape[2], n)
            i, j = generic('#p', n), generic('#q', n)
            g = Ix(got.dims, got.fn, got.bound)
            if [len(d) for d in got.dims] == [1, 1, 1]:
                yield f'{nm} of layer k comes from layer k by its own rule', g.el(k, i, j), w.el(i, j)
            else:
                raise Unsupported('result layout')
        if kind == 'discrete':
            for c, a, b in sizes:
                yield 'every needed order is sampled without aliasing: Ny >= 4 fto_y + 1', ~(c.shape[0] < 4 * b + 1) if not isinstance(c.shape[0] < 4 * b + 1, bool) else not (c.shape[0] < 4 * b + 1)
                yield 'every needed order is sampled without aliasing: Nx >= 4 fto_x + 1', ~(c.shape[1] < 4 * a + 1) if not isinstance(c.shape[1] < 4 * a + 1, bool) else not (c.shape[1] < 4 * a + 1)
        yield 'every layer is treated', ix.same(rule.it.n if not isinstance(rule.it, Ix) else rule.it.shape[0], L)
        for nm, fr in rule.goals:
            a, b = fr()
            yield nm, a, b
        yield from safe_goals()
    prove_run(rep, lab, run)


# --------------------------------------------------------------------------------------------- compression
class Grow:
    """loop rule for run-length loops: lists that the body appends to.

    Invariant at iteration k: the lists hold the closed runs of columns 0..k-1; every column after the last closed run equals
    column k.  The generic iteration either closes the run at k (appends) or proves that column k equals column k+1."""

    def __init__(self, view):
        self.view = view           # view(loop number, env) -> (item(k): expected content, count, name)
        self.goals, self.loops = [], []

    def is_sym(self, it):
        return isinstance(it, loops.SymRange)

    def begin(self, k, it, env, names, bad):
        if bad:
            raise Unsupported('break/continue/return in a loop over a symbolic range')
        self.it = it
        self.kk = generic(f'#k{len(self.loops)}', it.n)
        self.lists = {n: v for n, v in env.items() if isinstance(v, list) and not v}
        self.rec = dict(n=it.n, k=self.kk, lists=self.lists, env=env)

    def havoc(self, k, n):
        return None

    def elem(self, k):
        return self.it.elem(self.kk)

    def end(self, k, env):
        self.rec['elem'] = self.it.elem(self.kk)
        self.rec['app'] = {n: list(v) for n, v in self.lists.items()}
        grown = [n for n, v in self.lists.items() if v]
        self.rec['grown'] = grown
        self.rec['facts'] = len(PATH.facts)
        self.loops.append(self.rec)
        q = len(self.loops) - 1
        nb = intsym(f'nb{q}')
        PATH.assume(~(nb < 1))
        self.rec['nb'] = nb
        # exit: a list of nb generic blocks
        sig = self.view(q, self.rec)
        for n, proto in sig.items():
            lst = self.rec['lists'][n]
            lst.clear()
            lst.append(ix.Generic(nb, proto))

    def exit(self, k, n):
        return None


def prove_compression(rep, be):
    m = module(be, CM)
    lab = f'{be}.cell_compression'
    try:
        f = get(m, 'cell_compression')
    except Unsupported as e:
        return rep.ob(lab, 'unsupported', '-', 0, str(e))

    def run():
        start()
        Nx, Ny = nat('Nx', 1), nat('Ny', 1)
        cell = ix.tensor('cell', Ny, Nx)
        flip = lambda r, c: scal.fn('el_cell', Ny - 1 - r, c)
        state = {}

        def view(q, rec):
            """which lists are the ends and which the contents: by the kind of value appended (the names are the code's own)"""
            if q == 0:
                state['l0'] = rec
                ends, conts = 'x', 'cell_x'
            else:
                state['l1'] = rec
                ends, conts = 'y', 'cell_xy'
            if ends not in rec['lists'] or conts not in rec['lists']:
                raise Unsupported('lists of the compression loop')
            two = False
            a = rec['app'][conts]
            if a and isinstance(a[0], Ix) and a[0].ndim == 2 or be == 'torch':
                two = True
            inner = Ny if q == 0 else state['l0']['nb']
            dims = ([[]] if two else []) + [dim(inner)]
            return {ends: (lambda b, q=q: scal.fn(f'end{q}', b, real=True)),
                    conts: (lambda b, q=q, dims=dims: Ix(dims, lambda i, bb: scal.fn(f'blk{q}', b, *i)))}
        rule = Grow(view)
        r = sym_loop(f, be, rule)(**call(f, dict(cell=cell)))
        if len(rule.loops) != 2:
            raise Unsupported('not two run-length loops')
        nb0, nb1 = state['l0']['nb'], state['l1']['nb']
        src = {0: (lambda k, r_: flip(r_, k), Ny, Nx), 1: (lambda k, b: scal.fn('blk0', b, k), nb0, Ny)}
        for q in (0, 1):
            rec = rule.loops[q]
            item, inner, count = src[q]
            ends, conts = ('x', 'cell_x') if q == 0 else ('y', 'cell_xy')
            ax = 'column' if q == 0 else 'row'
            k = rec['k']
            yield f'{ax}s: the loop visits every {ax} in order', ix.same(rec['n'], count) and ix.same(rec['elem'], k)
            b = generic(f'#w{q}', inner)
            A, B = rec['app'][ends], rec['app'][conts]
            yield f'{ax}s: an end is recorded exactly with a block', len(A) == len(B) and len(A) <= 1
            others = [n for n in rec['grown'] if n not in (ends, conts)]
            yield f'{ax}s: no other list grows', not others
            if A:
                yield f'{ax}s: block end is the normalised position of the next {ax}', coerce(A[0]), (k + 1) / count
                got = B[0]
                yield f'{ax}s: block content is the {ax} of the cell', got.el(b), item(k, b)
            else:
                yield f'{ax}s: the last {ax} closes its run', ~(k == count - 1)
                want = ix.quant('all', Ix([dim(inner)], lambda i, bb: item(k, i[0] if i else S.const(0)) == item(k + 1, i[0] if i else S.const(0)), cond=True))
                yield f'{ax}s: a run continues only into an equal {ax}', want
        if not isinstance(r, tuple) or len(r) != 3:
            raise Unsupported('result is not a triple')
        cc, x, y = r
        p, q_ = generic('#p', nb1), generic('#q', nb0)
        yield 'blocks are indexed (y block, x block)', cc.el(p, q_), scal.fn('blk1', p, q_)
        yield 'x block ends', x.el(q_), scal.fn('end0', q_, real=True)
        yield 'y block ends', y.el(p), scal.fn('end1', p, real=True)
        yield 'ends are columns', len(x.dims) == 2 and not x.dims[1] and len(y.dims) == 2 and not y.dims[1]
        yield from safe_goals()
    prove_run(rep, lab, run)


def proof_task(be):
    def t(rep):
        prove_circulant(rep, be)
        prove_2d(rep, be, 'dfs2d')
        prove_2d(rep, be, 'cfs2d')
        for enh in (True, False):
            prove_driver(rep, be, 'discrete', enh=enh)
        prove_driver(rep, be, 'continuous')
        prove_driver(rep, be, 'vector')
        rep.assume('contract of numpy/jax/torch fft: X[k] = sum_n x[n] exp(-2 pi i n k/N), N-periodic in k',
                   'contract of linalg.inv: a function of the matrix (its inverse)', 'floating point treated as exact complex arithmetic')
    return t


def comp_proof_task(be):
    def t(rep):
        prove_cfs(rep, be)
        prove_compression(rep, be)
        prove_2d(rep, be, 'cfs2d')
        if be == 'numpy':
            prove_integral(rep)
        rep.assume('contract of numpy/jax/torch array primitives (roll, repeat, concatenation, reshape, masked assignment)',
                   'exp(-2 pi i m) = 1 for integer m', 'floating point treated as exact complex arithmetic')
    return t
