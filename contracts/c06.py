"""C06: grating equation and branch of the vertical wave vector."""
import types
import numpy as rnp
from vkit.contract import *
from vkit import api, core, scal
from vkit.scal import S
from . import tm, e2e

META = dict(title='orders', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)',
    'proof preconditions: theta < pi/2 real (beyond that NumPy and JAX clamp the sine, evaluated only), n_top > 0, Re n_bot > 0, Im n_bot <= 0'],
    rule='random angles (normal to grazing), periods, orders, indices incl. absorbing and near-cutoff orders')
CLS = {'numpy': 'RCWANumpy', 'torch': 'RCWATorch', 'jax': 'RCWAJax'}
RC = 'meent.on_{}.emsolver.rcwa'


# ------------------------------------------------------------------ wave vectors
def k_args(be, phi):
    z = tm.Sizes()
    r = lambda n, **k: S.sym(n, real=True, **k)
    s = types.SimpleNamespace(theta=r('theta'), phi=r('phi') if phi else None, n_top=r('n_top'), n_bot=S.sym('n_bot'), fto=[z.a, z.b],
                              period=[r('p0'), r('p1')], type_complex='c', type_float='f', device='cpu', wavelength=r('wl_attr'))
    return dict(self=s, wavelength=r('wl'))


def post_k(np, a, r):
    kx, ky = r
    s, wl = a['self'], a['wavelength']
    phi = 0 if s.phi is None else s.phi
    st = s.n_top * np.sin(s.theta)
    fx, fy = s.fto
    if np is rnp:
        ix, iy = rnp.arange(2 * fx + 1), rnp.arange(2 * fy + 1)
    else:
        ix, iy = [Arr(((2 * f + 1,),), S.sym('#', (IV(2 * f + 1),), real=True)) for f in (fx, fy)]
    yield 'kx of order m is n_top sin(theta) cos(phi) + m lambda/period_x, m ascending from -fto_x', kx, st * np.cos(phi) + (ix - fx) * wl / s.period[0]
    yield 'ky of order n is n_top sin(theta) sin(phi) + n lambda/period_y, n ascending from -fto_y', ky, st * np.sin(phi) + (iy - fy) * wl / s.period[1]


# ------------------------------------------------------------------ branch
def post_kz(np, a, r):
    kx = a['kx']
    k2 = kx ** 2
    if 'ky' in a:
        k2 = (k2 + a['ky'].reshape((-1, 1)) ** 2).flatten()
    for nm, kz, n in (('top', r[0], a['n_top']), ('bottom', r[1], a['n_bot'])):
        yield f'{nm}: kz^2 = n^2 - kx^2 - ky^2', kz * kz, n ** 2 - k2
        if np is rnp:
            yield f'{nm}: Re kz >= 0', bool((rnp.real(kz) >= -1e-9).all())
            yield f'{nm}: Im kz <= 0', bool((rnp.imag(kz) <= 1e-9).all())
        else:
            yield f'{nm}: Re kz >= 0', ~(scal.real(kz.expr) < 0)
            yield f'{nm}: Im kz <= 0', ~(scal.imag(kz.expr) > 0)


def conds_kz(a):
    n = a['n_bot']
    return [scal.real(n) > 0, ~(scal.imag(n) > 0), a['n_top'] > 0]


FNS = ('transfer_1d_1', 'transfer_1d_conical_1', 'transfer_2d_1')


def gen_kz(fn, be, rng, pol):
    a = tm.gen_args(fn, be, rng, pol)
    # the four regions of the (n, k) plane, near-cutoff orders and plasmonic substrates
    if rng.random() < .3:
        a['n_bot'] = complex(rng.uniform(.05, .5), -rng.uniform(1, 6))
    if rng.random() < .3:
        n = abs(a['n_bot']) if rng.random() < .5 else a['n_top'].real
        a['kx'] = a['kx'].copy()
        a['kx'][rng.integers(len(a['kx']))] = n * (1 + rng.choice([-1, 1]) * 10. ** -rng.integers(2, 9))
        if 'ky' in a:
            a['ky'] = a['ky'] * (rng.random() < .5)
    return a


def fn_task(be):
    def t(rep):
        m = module(be)
        for fn in FNS:
            for pol in ((0, 1) if fn == 'transfer_1d_1' else (0,)):
                lab = f'{be}.{fn}' + (f'[pol={pol}]' if fn == 'transfer_1d_1' else '')
                try:
                    f = get(m, fn)
                except Unsupported as e:
                    rep.ob(lab, 'unsupported', '-', 0, str(e))
                    continue
                a = tm.sym_args(fn, be, pol)
                prove(rep, lab, f, a, post_kz, conds=conds_kz(a))
                rng = rep.rng(fn, pol)
                for _ in range(8 if be == 'jax' else 40):
                    evaluate(rep, lab, be, f, gen_kz(fn, be, rng, pol), post_kz, tol=1e-9)
        cls = getattr(module(be, RC), CLS[be], None)
        f = getattr(cls, 'get_kx_ky_vector', None)
        if f is None:
            rep.ob(f'{be}.get_kx_ky_vector', 'unsupported', '-', 0, 'no such method')
            return
        for phi in (False, True):
            a = k_args(be, phi)
            prove(rep, f'{be}.get_kx_ky_vector[phi {"given" if phi else "None"}]', f, a, post_k, conds=[a['self'].theta < scal.PI / 2])
    return t


def k_eval(be):
    """the public method on real solver objects"""
    def t(rep):
        rng = rep.rng()
        for i in range(60 if rep.tier == 'quick' else 1000):
            cfg = gen(rng, i)
            if not hasattr(api.make(be, cfg), 'get_kx_ky_vector'):
                rep.bounded.append((f'{be}.get_kx_ky_vector', 'not present: end-to-end comparison only'))
                return
            with api.quiet():
                m = api.make(be, cfg)
                kx, ky = m.get_kx_ky_vector(cfg['wavelength'])
            kx, ky = api.to_np(kx), api.to_np(ky)
            rep.ev((be, api.jsonable(cfg)))
            ex, ey = e2e.orders(cfg)
            for nm, g, w in (('kx', kx, ex), ('ky', ky, ey)):
                ok, err = api.close(g, w, 1e-9)       # (torch replaces theta = 0 by 1e-10)
                if not ok:
                    rep.fail(f'{be} {nm} differs from the grating equation by {err}',
                             dict(backend=be, config=api.jsonable(cfg), got=api.jsonable(g), expected=api.jsonable(w)), kind='fn')
                    return
        rep.bounded.append((f'{be}: wave vectors of real solver objects', '60 random configurations'))
    return t


def gen(rng, i, shape=None, **kw):
    cfg = api.rnd_cfg(rng, shape=shape, edge=.08, **kw)
    u = rng.random()
    if u < .2:
        cfg['theta'] = float(rng.choice([1e-3, 1e-6, 1.5, 1.55, -1.5]))
    elif u < .4:      # an order close to cutoff in one half-space
        n = cfg['n_bot'] if rng.random() < .5 and not isinstance(cfg['n_bot'], complex) else cfg['n_top']
        s = n - cfg['wavelength'] / cfg['period'][0]
        s = s / cfg['n_top'] * (1 + rng.choice([-1, 1]) * 10. ** -rng.integers(2, 6))
        if abs(s) < .99:
            cfg['theta'] = float(rnp.arcsin(s)) or .1
            if cfg['phi'] is not None:
                cfg['phi'] = .0
    elif u < .6:
        cfg['n_bot'] = complex(rng.uniform(.05, 3), -10. ** rng.uniform(-6, .8))
    return cfg


def tasks(tier):
    out = [(f'contracts[{be}]', fn_task(be)) for be in BACKENDS] + [(f'wavevectors[{be}]', k_eval(be)) for be in BACKENDS]
    for be in ('numpy', 'torch'):
        out += e2e.strata(be, '', gen, (120, 1500), tol=2e-6)
    for s in e2e.SHAPES[:4]:
        out.append((f'e2e[jax,{s}]', e2e.sweep('jax', lambda rng, i, s=s: gen(rng, i, shape=s), (8, 150), tol=2e-6)))
    return out
