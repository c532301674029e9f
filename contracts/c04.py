"""C04: linear superposition of the two incident polarisations."""
import numpy as np
from vkit.contract import *
from vkit import api, core
from vkit.scal import S
from . import tm, e2e, solve

META = dict(title='polarisation', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)', 'linalg.inv/pinv of the system matrix: exact inverse'],
    rule='random structures at random psi; each result block compared with the pure-polarisation runs')
AMP = api.AMP
FNS = ('transfer_1d_conical_4', 'transfer_2d_4')


def post_super(be, f):
    def post(np_, a, r):
        result, _ = r
        res, te, tmr = result['res'], result['res_te_inc'], result['res_tm_inc']
        s, c = np_.sin(a['psi']), np_.cos(a['psi'])
        for k in AMP:
            yield f'{k} = sin(psi) TE + cos(psi) TM', res[k], s * te[k] + c * tmr[k]
        run = shim.sym(f) if np_ is not np else (lambda **k: back(f(**{x: conv(be, v) for x, v in k.items()})))
        for nm, blk, psi in (('TE', te, np_.pi / 2), ('TM', tmr, 0 * a['psi'])):
            a2 = dict(a, psi=psi)
            r2 = run(**bind(f, a2, ('kx',)))[0]['res']
            for k in AMP + api.DE:
                yield f'{nm} block {k} = result at pure {nm}', blk[k], r2[k]
    return post


def fn_task(be):
    def t(rep):
        m = module(be)
        for fn in FNS:
            lab = f'{be}.{fn}'
            try:
                f = get(m, fn)
            except Unsupported as e:
                rep.ob(lab, 'unsupported', '-', 0, str(e))
                continue
            prove(rep, lab, f, tm.sym_args(fn, be), post_super(be, f), optional=('kx',))
            rng = rep.rng(fn)
            for _ in range(4 if be == 'jax' else 10):
                evaluate(rep, lab, be, f, tm.gen_args(fn, be, rng), post_super(be, f), tol=1e-7, optional=('kx',))
    return t


def body(rep, be, cfg, tol):
    rng = rep.rng(repr(cfg['thickness']))
    cfg = dict(cfg)
    u = rng.random()
    cfg.pop('psi', None)
    if u < .5:
        cfg['pol'] = float(rng.choice([0., 1., rng.uniform(0, 1)]))
    else:
        cfg['psi'] = float(rng.uniform(-3.1, 3.1))
        cfg['pol'] = 0
    psi = api.psi_of(cfg)
    if cfg['phi'] is None:
        cfg['phi'] = 0.
    if be == 'torch' and cfg['phi'] == 0 and np.asarray(cfg['ucell']).shape[1] == 1:
        cfg['phi'] = float(rng.choice([np.pi, .01, -.2]))      # torch documents phi = 0 as the 1D formulation
    r = e2e.call(rep, be, cfg)
    c1 = {k: v for k, v in cfg.items() if k != 'psi'}
    te, tmr = e2e.call(rep, be, dict(c1, pol=0)), e2e.call(rep, be, dict(c1, pol=1))
    if r is None or te is None or tmr is None:
        return
    rep.ev((be, api.jsonable(cfg), psi), n=2)
    data = dict(backend=be, config=api.jsonable(cfg))
    for nm, one, blk in (('TE', te, 'res_te_inc'), ('TM', tmr, 'res_tm_inc')):
        if blk not in r:
            rep.fail(f'{be}: no {blk} in a conical/2D result', data)
            return
        for k in AMP + api.DE:
            ok, err = api.close(r[blk][k], one['res'][k], tol)
            if not ok:
                rep.fail(f'{be} {blk}.{k} differs from the pure {nm} run by {err}', dict(data, key=k, got=api.jsonable(r[blk][k]), expected=api.jsonable(one['res'][k])))
                return
            ok, err = api.close(one[blk][k], one['res'][k], tol)
            if not ok:
                rep.fail(f'{be} {nm} run: {blk}.{k} differs from res.{k} by {err}', dict(data, key=k))
                return
    for k in AMP:
        want = np.sin(psi) * te['res'][k] + np.cos(psi) * tmr['res'][k]
        ok, err = api.close(r['res'][k], want, tol)
        if not ok:
            rep.fail(f'{be} {k} at psi={psi} is not the superposition of the TE and TM results: {err}',
                     dict(data, key=k, got=api.jsonable(r['res'][k]), expected=api.jsonable(want)))
            return
    # efficiencies are a function of the amplitudes: same ratio de/|amp|^2 in every result
    for amp, de in (('R_s', 'de_ri_s'), ('R_p', 'de_ri_p'), ('T_s', 'de_ti_s'), ('T_p', 'de_ti_p')):
        src = te if np.max(np.abs(te['res'][amp])) > np.max(np.abs(tmr['res'][amp])) else tmr
        a0 = np.abs(src['res'][amp]) ** 2
        good = a0 > 1e-8 * max(1e-12, a0.max())
        fac = np.where(good, src['res'][de] / np.where(good, a0, 1), 0)
        got, want = np.where(good, r['res'][de], 0), fac * np.abs(r['res'][amp]) ** 2
        ok, err = api.close(got, want, max(tol, 1e-6))
        if not ok:
            rep.fail(f'{be} {de} does not follow from {amp} as in the pure polarisation result: {err}', dict(data, key=de))
            return


def tasks(tier):
    out = [(f'contracts[{be}]', fn_task(be)) for be in BACKENDS]
    for be in BACKENDS:
        out += e2e.std(be, quick=80, thorough=500, body=body, edge=.08)
    return out
