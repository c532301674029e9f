"""C07: raster cells enter by the correct Fourier rules (Li factorisation)."""
import numpy as rnp
from vkit.contract import *
from vkit import api, core, ref
from . import e2e, fourier

META = dict(title='fourier', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)', 'the convolution blocks that are inverted are invertible',
    'np.fft.fft / torch.fft.fft / jnp.fft.fft compute the discrete Fourier sum'],
    rule='random raster cells (lossless/absorbing, patches, repeated columns), all rules, several truncations')
CM = 'meent.on_{}.emsolver.convolution_matrix'


def rnd_cell(rng, be, lossy=None):
    ny, nx = (int(rng.integers(1, 7)), int(rng.integers(1, 9))) if be != 'jax' else [(1, 5), (3, 4)][int(rng.integers(2))]
    u = rng.uniform(1, 3.5, (ny, nx)).round(2)
    if rng.random() < .6:
        a, b = sorted(rng.integers(0, nx + 1, 2))
        u[:, a:b] = u[0, 0]
    if rng.random() < .4:
        a, b = sorted(rng.integers(0, ny + 1, 2))
        u[a:b] = u[0, 0]
    if rng.random() < .5 if lossy is None else lossy:
        u = u - 1j * rng.uniform(0, 1, u.shape).round(2) * (rng.random(u.shape) < .6)
    return u


def to_conv_task(be):
    """whole conversion functions, on stacks of layers, against the reference rules"""
    def t(rep):
        m = module(be, CM)
        rng = rep.rng('conv')
        for i in range({'quick': 60 if be != 'jax' else 6, 'thorough': 800 if be != 'jax' else 60}[rep.tier]):
            cells = [rnd_cell(rng, be)]
            while len(cells) < int(rng.integers(1, 4)):
                c = rnd_cell(rng, be)
                cells += [c] if c.shape == cells[0].shape else []
            u = rnp.array([c + 0j if any(rnp.iscomplexobj(x) for x in cells) else c for c in cells])
            fx, fy = (int(rng.integers(0, 4)), int(rng.integers(0, 3))) if be != 'jax' else (1, 0 if u.shape[1] == 1 else 1)
            for fn, kw, exp in (('to_conv_mat_raster_continuous', {}, lambda c: ref.conv_raster_continuous(c, fx, fy)),
                                ('to_conv_mat_raster_discrete', {}, lambda c: ref.conv_raster_discrete(c, fx, fy)),
                                ('to_conv_mat_raster_discrete', dict(enhanced_dfs=False), lambda c: ref.conv_raster_discrete(c, fx, fy, False))):
                f = getattr(m, fn, None)
                if f is None:
                    rep.bounded.append((f'{be}.{fn}', 'not present: end-to-end comparison only'))
                    continue
                for pinv in ((False, True) if be != 'jax' and i < 10 else (False,)):
                    args = dict(ucell=u, fto_x=fx, fto_y=fy, use_pinv=pinv, **kw)

                    def post(np, a, r, exp=exp):
                        for l in range(len(u)):
                            for nm, g, w in zip(('epx', 'epy', 'epz_i'), r, exp(u[l])):
                                yield f'{nm} of layer {l}', g[l], w
                    evaluate(rep, f'{be}.{fn}{kw}', be, f, args, post, tol=1e-8)
    return t


def meta(rep, be, cfg, tol):
    """relations between runs of the real package"""
    rng = rep.rng(repr(cfg['thickness']), 'meta')
    r = e2e.call(rep, be, cfg)
    if r is None:
        return
    u = rnp.asarray(cfg['ucell'])
    data = dict(backend=be, config=api.jsonable(cfg))
    # a circular shift of the whole structure changes no efficiency
    sx, sy = int(rng.integers(u.shape[2])), int(rng.integers(u.shape[1]))
    r2 = e2e.call(rep, be, dict(cfg, ucell=rnp.roll(u, (sy, sx), (1, 2))))
    if r2 is None:
        return
    for k in ('de_ri', 'de_ti'):
        ok, err = api.close(r2['res'][k], r['res'][k], tol)
        if not ok:
            return rep.fail(f'{be} {k} changes by {err} when the cell is shifted by {sx} columns, {sy} rows', dict(data, shift=[sx, sy]))
    if cfg['fourier_type'] == 1:
        a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4)) if u.shape[1] > 1 else 1
        r3 = e2e.call(rep, be, dict(cfg, ucell=rnp.repeat(rnp.repeat(u, a, 2), b, 1)))
        if r3 is None:
            return
        for k in api.AMP + api.DE:
            ok, err = api.close(r3['res'][k], r['res'][k], tol)
            if not ok:
                return rep.fail(f'{be} {k} changes by {err} when every pixel is repeated {b}x{a}', dict(data, repeat=[b, a]))
    if cfg.get('fourier_type') == 0:
        e2e.check_ref(rep, be, cfg, tol, over=dict(enhanced_dfs=False), what='enhanced_dfs=False ') if False else None


def ref_body(rep, be, cfg, tol):
    rng = rep.rng(repr(cfg['thickness']), 'opt')
    if cfg['fourier_type'] == 0 and rng.random() < .4:
        cfg = dict(cfg, enhanced_dfs=False)
    if rng.random() < .2 and be != 'jax':
        cfg = dict(cfg, use_pinv=True)
    e2e.check_ref(rep, be, cfg, tol)


def finding_task(rep):
    """F2: the discrete series reads the rows of the cell in the opposite y direction of the continuous one"""
    u = rnp.array([[[1., 2., 1.5], [1., 3., 1.], [2., 1., 1.]]])
    cfg = dict(n_top=1., n_bot=1.5, theta=.3, phi=.4, pol=0, period=[900., 800.], wavelength=600., ucell=u, thickness=[200.], fto=[1, 1], fourier_type=1)
    c1, c2 = api.run('numpy', cfg)['res']['de_ri'], api.run('numpy', dict(cfg, ucell=u[:, ::-1]))['res']['de_ri']
    d = api.run('numpy', dict(cfg, fourier_type=0, ucell=rnp.repeat(rnp.repeat(u, 30, 1), 30, 2)))['res']['de_ri']
    rep.ev('F2', n=3)
    if rnp.abs(d - c2).max() < .2 * rnp.abs(c1 - c2).max() and rnp.abs(c1 - c2).max() > 1e-3:
        rep.finding('F2')


def tasks(tier):
    out = [(f'proof[{be}]', fourier.proof_task(be)) for be in BACKENDS] + [(f'conversion[{be}]', to_conv_task(be)) for be in BACKENDS]
    for be in ('numpy', 'torch'):
        out.append((f'e2e[{be}]', e2e.sweep(be, lambda rng, i: api.rnd_cfg(rng, edge=.05), (250, 2500), ref_body)))
        out.append((f'relations[{be}]', e2e.sweep(be, lambda rng, i: api.rnd_cfg(rng, edge=.05), (150, 1000), meta)))
    for s in e2e.SHAPES[:4]:
        out.append((f'e2e[jax,{s}]', e2e.sweep('jax', lambda rng, i, s=s: api.rnd_cfg(rng, shape=s), (6, 80), ref_body)))
        out.append((f'relations[jax,{s}]', e2e.sweep('jax', lambda rng, i, s=s: api.rnd_cfg(rng, shape=s, ft=i % 2), (4, 40), meta)))
    return out + [('finding', finding_task)]
