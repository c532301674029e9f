"""C18: diagonally anisotropic cells (torch)."""
import numpy as rnp
from vkit.contract import *
from vkit import api, core, ref
from . import e2e, fourier, vector, c09

META = dict(title='anisotropy', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)', 'the convolution blocks that are inverted are invertible',
    'torch.fft.fft computes the discrete Fourier sum'],
    rule='random anisotropic raster and vector structures (lossless/absorbing, patches, partly isotropic) at random angles and polarisations')
BE = 'torch'


def proof_task(rep):
    for kind, enh in (('discrete', True), ('discrete', False), ('continuous', True), ('vector', True)):
        for aniso in (True, False):
            fourier.prove_driver(rep, BE, kind, aniso=aniso, enh=enh)
    rep.assume('contract of torch.fft: X[k] = sum_n x[n] exp(-2 pi i n k/N)', 'contract of linalg.inv: a function of the matrix (its inverse)')


def rnd(rng, i, form=None, lossy=None, vec=False, mixed=True, equal=0.):
    kw = dict(dim=1, conical=False) if form == '1d' else dict(dim=1, conical=True) if form == 'conical' else dict(dim=2)
    cfg = api.rnd_cfg(rng, edge=.05, fto_max=2, lossy=lossy, mixed=mixed, lossy_sub=None if lossy is not False else False, **kw)
    if vec:
        cfg['fourier_type'] = 2
        cfg['ucell'] = [c09.rnd_layer(rng, cfg['period'], ('r', 'r', 'R'), 3, lossy is not False) for _ in cfg['thickness']]
        tri = lambda n: n if rng.random() < .35 else [n if rng.random() < .2 else round(float(rng.uniform(1, 3)), 2) - (1j * round(float(rng.uniform(0, .3)), 2) if lossy is not False and rng.random() < .4 else 0) for _ in range(3)]
        if i % 6 == 5:                                       # weakly anisotropic: one object
            w, lay = 10. ** -rng.uniform(1.5, 3.5), cfg['ucell'][int(rng.integers(len(cfg['ucell'])))]
            o = lay[1][int(rng.integers(len(lay[1])))] if lay[1] else None
            n = [o[5]] * 3 if o else [lay[0]] * 3
            n[int(rng.integers(3))] *= 1 + w
            if o:
                o[5] = n
            else:
                lay[0] = n
            return cfg
        for lay in cfg['ucell']:
            lay[0] = tri(lay[0])
            for o in lay[1]:
                o[5] = tri(o[5])
        return cfg
    u = rnp.asarray(cfg['ucell'])
    out = rnp.stack([u, u, u], -1)
    if i % 6 == 5:                                           # weakly anisotropic: one pixel or all of them, a little
        out = out + 0.
        l, c = int(rng.integers(len(u))), int(rng.integers(3))
        w = 10. ** -rng.uniform(1.5, 3.5)
        if rng.random() < .5:
            y, x = (int(rng.integers(k)) for k in u.shape[1:])
            out[l, y, x, c] *= 1 + 3 * w
        else:
            out[l, ..., c] *= 1 + w
        return dict(cfg, ucell=out)
    for l in range(len(u)):
        for c in range(3):
            t = rng.random()
            if t < .25:
                continue                                     # this component like the others
            v = rng.uniform(1, 3.2, u.shape[1:]).round(2)
            if t < .6:                                       # other outline
                a, b = sorted(rng.integers(0, v.shape[1] + 1, 2))
                v[:, a:b] = v[0, 0]
            elif t < .8:
                v = u[l].real * round(float(rng.uniform(1.05, 1.3)), 2)
            if rnp.iscomplexobj(u):
                v = v - 1j * rng.uniform(0, .4, v.shape).round(2) * (rng.random(v.shape) < .5)
            out[l, ..., c] = v
    return dict(cfg, ucell=out)


def layers(cfg):
    fx, fy = api.fto2(cfg)
    out = []
    for l, d in enumerate(rnp.atleast_1d(cfg['thickness'])):
        ms = []
        for c in range(3):
            if api.is_vector(cfg):
                base, objs = cfg['ucell'][l]
                pick = lambda n: n[c] if isinstance(n, (list, tuple)) else n
                g = c09.paint(pick(base), c09.rects_of([0, [o[:5] + [pick(o[5])] + o[6:] for o in objs]]), cfg['period'])
                ms.append(ref.conv_vector(*g, fx, fy)[c])
            else:
                cell = rnp.asarray(cfg['ucell'])[l, ..., c]
                m = ref.conv_raster_continuous(cell, fx, fy) if cfg['fourier_type'] == 1 else ref.conv_raster_discrete(cell, fx, fy, cfg.get('enhanced_dfs', True))
                ms.append(m[c])
        out.append(tuple(ms) + (float(d),))
    return out


def body(rep, be, cfg, tol):
    rng = rep.rng(repr(cfg['thickness']), 'opt')
    if cfg['fourier_type'] == 0 and rng.random() < .3:
        cfg = dict(cfg, enhanced_dfs=False)
    r = e2e.call(rep, be, cfg)
    if r is None:
        return
    e = api.expected(cfg, be, layers=layers(cfg))
    e2e.match(rep, be, cfg, r['res'], e, tol, e2e.KEYS, 'anisotropic structure: ')


def relations(rep, be, cfg, tol):
    rng = rep.rng(repr(cfg['thickness']), 'rel')
    vec = api.is_vector(cfg)
    data = dict(backend=be, config=api.jsonable(cfg))

    def same(a, b, keys, what, t=lambda x: x):
        if a is None or b is None:
            return
        for k in keys:
            ok, err = api.close(t(a['res'][k]), b['res'][k], tol)
            if not ok:
                rep.fail(f'{be} {k}: {what} changes the result by {err}', data)
                return
    # coinciding indices = the isotropic structure
    if vec:
        one = lambda n: n[0] if isinstance(n, (list, tuple)) else n
        iso = [[one(b), [o[:5] + [one(o[5])] + o[6:] for o in os]] for b, os in cfg['ucell']]
        tri = [[[b] * 3, [o[:5] + [[o[5]] * 3] + o[6:] for o in os]] for b, os in iso]
    else:
        iso = rnp.array(cfg['ucell'][..., 0])
        tri = rnp.stack([iso] * 3, -1)
    a, b = e2e.call(rep, be, dict(cfg, ucell=iso)), e2e.call(rep, be, dict(cfg, ucell=tri))
    same(b, a, e2e.KEYS, 'giving one index as three equal ones')
    r = e2e.call(rep, be, cfg)
    if r is None or vec:
        return
    u = rnp.array(cfg['ucell'])
    # exchange of the x and y axes
    if u.shape[1] > 1 and cfg['pol'] in (0, 1) and cfg['phi'] is not None:
        flip = (lambda v: v[:, ::-1]) if cfg['fourier_type'] == 1 else (lambda v: v)
        w = flip(flip(u).transpose(0, 2, 1, 3)[..., [1, 0, 2]])
        fx, fy = api.fto2(cfg)
        px, py = api.period2(cfg)
        c2 = dict(cfg, ucell=rnp.array(w), phi=rnp.pi / 2 - cfg['phi'], fto=[fy, fx], period=[py, px])
        # Li's rule is applied along x first: exact exchange needs a structure uniform along one axis
        ax = int(rng.integers(2))
        u2 = rnp.repeat(u[:, :1], u.shape[1], 1) if ax else rnp.repeat(u[:, :, :1], u.shape[2], 2)
        w2 = flip(flip(u2).transpose(0, 2, 1, 3)[..., [1, 0, 2]])
        same(e2e.call(rep, be, dict(cfg, ucell=u2)), e2e.call(rep, be, dict(c2, ucell=rnp.array(w2))), ('de_ri', 'de_ti', 'de_ri_s', 'de_ti_p'),
             'exchanging the x and y axes', lambda x: x.T)
    # one-row cell, TE, no azimuth: ny alone
    if u.shape[1] == 1 and (cfg['phi'] is None or cfg['phi'] == 0):
        v = u.copy()
        v[..., 0], v[..., 2] = rng.uniform(1, 3, u.shape[:3]), rng.uniform(1, 3, u.shape[:3])
        same(e2e.call(rep, be, dict(cfg, ucell=v, pol=0)), e2e.call(rep, be, dict(cfg, ucell=u, pol=0)), e2e.KEYS, 'TE: other nx and nz')
        v = u.copy()
        v[..., 1] = rng.uniform(1, 3, u.shape[:3])
        same(e2e.call(rep, be, dict(cfg, ucell=v, pol=1)), e2e.call(rep, be, dict(cfg, ucell=u, pol=1)), e2e.KEYS, 'TM: other ny')
    if not rnp.iscomplexobj(u) and rnp.isrealobj(cfg['n_bot']):
        tot = r['res']['de_ri'].sum() + r['res']['de_ti'].sum()
        if abs(tot - 1) > 1e-6:
            rep.fail(f'{be}: lossless anisotropic structure, efficiencies sum to {tot}', data)


def tasks(tier):
    out = [('proof[torch]', proof_task)]
    out += [(f'layer[torch,{ax},{an}]', vector.layer_task(BE, 2 if tier == 'thorough' else 1, ax, an + ((False,) if tier == 'thorough' else ())))
            for ax in (0, 1) for an in ((True, True), (False, True), (True, False))]
    q = (150, 1500)
    for f in ('1d', 'conical', '2d'):
        out.append((f'e2e[{f}]', e2e.sweep(BE, lambda rng, i, f=f: rnd(rng, i, f), q, body)))
        out.append((f'relations[{f}]', e2e.sweep(BE, lambda rng, i, f=f: rnd(rng, i, f, lossy=bool(i % 3 == 0), mixed=i % 2), q, relations)))
    out.append(('e2e[vector]', e2e.sweep(BE, lambda rng, i: rnd(rng, i, '2d', vec=True), q, body)))
    out.append(('relations[vector]', e2e.sweep(BE, lambda rng, i: rnd(rng, i, '2d', vec=True), (30, 300), relations)))
    return out
