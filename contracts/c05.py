"""C05: efficiencies."""
import numpy as np
from vkit.contract import *
from vkit import api, core, scal
from vkit.scal import S
from . import tm, e2e

META = dict(title='efficiencies', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)', 'n_top real (lossless incidence medium)',
    'energy balance of a complete structure: proved as lemmas over the contracts of transfer_*_1/_2/_3/_4 (obligations of C01 and C02), the order of '
    'the calls (C01, C03) and kz of the incident order (C06); sums over orders and over layers: induction over the step lemmas',
    'a function with non-negative derivative does not decrease; the mean of a non-negative function is non-negative (absorbing layers)',
    'k0 > 0, thickness >= 0, real kx, ky'],
    rule='random structures, lossless and absorbing; energy balance, signs and sums of the efficiencies of real results')
FNS = {'transfer_1d_4': '1d', 'transfer_1d_conical_4': '2d', 'transfer_2d_4': '2d'}


def flux(np_, a, form, side, pol):
    """power per |amplitude|^2 in the numpy convention, relative to the incident wave"""
    kz = a['kz_top'] if side == 'r' else a['kz_bot']
    n = a['n_top'] if side == 'r' else a['n_bot']
    inc = a['n_top'] * np_.cos(a['theta'])
    if pol == 's':
        return np_.real(kz) / inc
    if form == '1d':          # unit incident H
        return np_.real(kz / n ** 2) / (np_.cos(a['theta']) / a['n_top'])
    return np_.real(kz / n ** 2) / inc   # incident H amplitude n_top


def post_eff(be, form):
    def post(np_, a, r):
        result, _ = r
        nx = a['ff_x']
        ny = a['ff_y'] if form == '2d' else 1
        N = nx * ny
        for blk in [b for b in ('res', 'res_te_inc', 'res_tm_inc') if b in result]:
            res = result[blk]
            f = lambda v: v.reshape((N,))
            for side, R in (('r', 'R'), ('t', 'T')):
                for pol in 'sp':
                    A = f(tm.raw(np_, a, res, f'{R}_{pol}', be, form))
                    if np_ is np:
                        A = A + 0j
                    yield (f'{blk}.de_{side}i_{pol} is the z-flux of {R}_{pol}', f(res[f'de_{side}i_{pol}']),
                           np_.real(A * np_.conj(A)) * flux(np_, a, form, side, pol))
                yield f'{blk}.de_{side}i is the sum of its parts', res[f'de_{side}i'], res[f'de_{side}i_s'] + res[f'de_{side}i_p']
    return post


def sym_nonneg(rep):
    """lemma over the contracts: Re kz >= 0 and kz^2 = n^2 - k^2 (C06) make both flux factors non-negative"""
    kz, n, k2, ct = S.sym('kz'), S.sym('n'), S.sym('k2', real=True), S.sym('ct', real=True)
    import time
    t0 = time.time()
    # Re(kz conj(n^2)) with n^2 = kz^2 + k2: = (|kz|^2 + k2) Re kz
    n2 = kz * kz + k2
    ok, det = alg.equal(scal.real(kz * scal.conj(n2)), (kz * scal.conj(kz) + k2) * scal.real(kz))
    rep.ob('lemma: Re(kz conj(n^2)) = (|kz|^2 + k_par^2) Re kz', 'proved' if ok else 'failed', 'rewrite', time.time() - t0, det)
    x, y = S.sym('x', real=True), S.sym('y', real=True)
    r, _, _ = path.check([~(x < 0), ~(k2 < 0), ((x * x + y * y + k2) * x) < 0], timeout=10000)
    rep.ob('lemma: (|kz|^2 + k_par^2) Re kz >= 0', 'proved' if r == 'unsat' else 'failed', 'z3', time.time() - t0, r)


def lemma_task(rep):
    sym_nonneg(rep)
    from . import energy
    energy.prove_energy(rep)


def fn_task(be):
    def t(rep):
        m = module(be)
        for fn, form in FNS.items():
            for pol in ((0, 1) if form == '1d' else (0,)):
                lab = f'{be}.{fn}' + (f'[pol={pol}]' if form == '1d' else '')
                try:
                    f = get(m, fn)
                except Unsupported as e:
                    rep.ob(lab, 'unsupported', '-', 0, str(e))
                    continue
                prove(rep, lab, f, tm.sym_args(fn, be, pol), post_eff(be, form), optional=('kx',))
                rng = rep.rng(fn, pol)
                for _ in range(4 if be == 'jax' else 12):
                    evaluate(rep, lab, be, f, tm.gen_args(fn, be, rng, pol), post_eff(be, form), tol=1e-7, optional=('kx',))
    return t


def body(rep, be, cfg, tol):
    data = dict(backend=be, config=api.jsonable(cfg))
    r = e2e.call(rep, be, cfg)
    if r is None:
        return
    fx, fy = api.fto2(cfg)
    kx, ky = e2e.orders(cfg)
    k2 = (kx[None, :] ** 2 + ky[:, None] ** 2).real
    lossless = not np.iscomplexobj(cfg['ucell']) or np.abs(np.asarray(cfg['ucell']).imag).max() == 0
    for blk, s in r.items():
        for k in api.DE:
            if s[k].shape != (2 * fy + 1, 2 * fx + 1):
                return rep.fail(f'{be} {blk}.{k}: shape {s[k].shape} is not (y orders, x orders)', data)
            if np.iscomplexobj(s[k]) or not np.isfinite(s[k]).all():
                return rep.fail(f'{be} {blk}.{k}: not a finite real array', data)
            if s[k].min() < -1e-9:
                return rep.fail(f'{be} {blk}.{k}: negative efficiency {s[k].min()}', data)
        for d in ('de_ri', 'de_ti'):
            ok, err = api.close(s[d], s[d + '_s'] + s[d + '_p'], 1e-10)
            if not ok:
                return rep.fail(f'{be} {blk}.{d} is not the sum of its s and p parts: {err}', data)
        for d, n in (('de_ri', cfg['n_top']), ('de_ti', cfg['n_bot'])):
            if abs(complex(n).imag) > 0:
                continue
            ev = k2 > abs(n) ** 2 * (1 + 1e-9) + 1e-12
            if ev.any() and np.abs(s[d][ev]).max() > 1e-8:
                return rep.fail(f'{be} {blk}.{d}: an evanescent order carries {np.abs(s[d][ev]).max()}', data)
        tot = s['de_ri'].sum() + s['de_ti'].sum()
        if lossless and abs(tot - 1) > 1e-6:
            return rep.fail(f'{be} {blk}: lossless structure, R + T = {tot}', data)
        if tot > 1 + 1e-6:
            return rep.fail(f'{be} {blk}: R + T = {tot} > 1', data)
    e2e.check_ref(rep, be, cfg, tol, keys=api.DE, attrib=True)


def gen(rng, i, shape=None, **kw):
    """some configurations sit exactly on an order that leaves the grating along the normal (kx_m = 0)"""
    cfg = api.rnd_cfg(rng, shape=shape, edge=.1, mixed=True, **kw)
    if rng.random() < .25 and cfg['period'][0] > .55 * cfg['wavelength']:
        m = 1 if cfg['fto'][0] >= 1 else 0
        s = m * cfg['wavelength'] / cfg['period'][0] / cfg['n_top']
        if 0 < s < .99:
            if cfg['phi'] is not None:
                cfg['phi'] = 0.
            cfg['theta'] = float(np.arcsin(s)) * (1 if rng.random() < .5 else -1)
    elif rng.random() < .15 and cfg['fto'][0] >= 1:              # an order that only just propagates (or just does not)
        n = float(np.real(cfg['n_top'] if rng.random() < .5 else cfg['n_bot'])) * (1 - float(rng.choice([-1, 1, 1])) * 10. ** -rng.uniform(3, 5.5))
        s = float(np.real(cfg['n_top'])) * np.sin(cfg['theta']) * np.cos(cfg['phi'] or 0.)
        if n - s > .05:
            cfg['period'] = [float(cfg['wavelength'] / (n - s)), cfg['period'][1]]
    return cfg


def tasks(tier):
    out = [('lemmas', lemma_task)] + [(f'contracts[{be}]', fn_task(be)) for be in BACKENDS]
    for be in ('numpy', 'torch'):
        out += e2e.strata(be, '', gen, (100, 1500), body)
        out += e2e.strata(be, '-lossless', lambda rng, i, **k: gen(rng, i, lossy=False, **k), (60, 1000), body)
    for s in e2e.SHAPES[:4]:
        out.append((f'e2e[jax,{s}]', e2e.sweep('jax', lambda rng, i, s=s: gen(rng, i, shape=s), (8, 150), body)))
    return out
