"""C03: layer stacking."""
import numpy as np
from vkit.contract import *
from vkit import api, core
from . import tm, e2e, solve

META = dict(title='stack', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)', 'mode matrices invertible (see C02)',
    'transfer_* functions by contract: C01, C02 (checked there)'])


def post_split(be, fn, f):
    """transfer_3 on a layer of thickness d + d2 = transfer_3 on d, then transfer_3 on d2 with the same modes"""
    def post(np_, a, r):
        names = ('F', 'G', 'T') if fn == 'transfer_1d_3' else ('big_F', 'big_G', 'big_T')
        runf = shim.sym(f) if np_ is not np else (lambda **k: back(f(**{x: conv(be, v) for x, v in k.items()})))
        a2 = dict(a)
        for n, v in zip(names, r[1:4]):
            a2[n] = v
        d2 = S.sym('d2', real=True) if np_ is not np else 0.37
        a2['d'] = d2
        r2 = runf(**bind(f, a2))
        a3 = dict(a)
        a3['d'] = a['d'] + d2
        r3 = runf(**bind(f, a3))
        for n, x, y in zip('FGT', r2[1:4], r3[1:4]):
            yield f'split layer: same {n}', x, y
    return post


def post_zero(np_, a, r):
    X, F, G, T, A_i, B = r
    F0, G0, T0 = (a['F'], a['G'], a['T']) if 'F' in a else (a['big_F'], a['big_G'], a['big_T'])
    yield 'zero thickness: F = F0 A_i', F, F0 @ A_i
    yield 'zero thickness: G = G0 A_i', G, G0 @ A_i
    yield 'zero thickness: T = T0 A_i', T, T0 @ A_i


def fn_task(be):
    def t(rep):
        for form in ('1d', '1d_conical', '2d'):
            solve.prove_solve(rep, be, form)
        m = module(be)
        for fn in ('transfer_1d_3', 'transfer_1d_conical_3', 'transfer_2d_3'):
            try:
                f = get(m, fn)
            except Unsupported as e:
                rep.ob(f'{be}.{fn}', 'unsupported', '-', 0, str(e))
                continue
            a = tm.sym_args(fn, be)
            prove(rep, f'{be}.{fn}', f, a, post_split(be, fn, f))
            a0 = dict(a, d=S.const(0))
            prove(rep, f'{be}.{fn}[d=0]', f, a0, post_zero)
            rng = rep.rng(fn)
            for _ in range(3 if be == 'jax' else 6):
                g = tm.gen_args(fn, be, rng)
                g['q'] = g['q'] * .3
                evaluate(rep, f'{be}.{fn}', be, f, g, post_split(be, fn, f), tol=1e-6)
                evaluate(rep, f'{be}.{fn}[d=0]', be, f, dict(g, d=0.), post_zero, tol=1e-6)
    return t


def body(rep, be, cfg, tol):
    """observable form: reference agreement, and splitting / inserting layers changes nothing"""
    if not e2e.check_ref(rep, be, cfg, tol, attrib=True):
        return
    rng = rep.rng(repr(cfg['thickness']))
    u, d = cfg['ucell'], list(cfg['thickness'])
    i = int(rng.integers(len(d)))
    r = e2e.call(rep, be, cfg)
    f = rng.uniform(.1, .9)
    split = dict(cfg, ucell=np.insert(u, i, u[i], axis=0), thickness=d[:i] + [d[i] * f, d[i] * (1 - f)] + d[i + 1:])
    j = int(rng.integers(len(d) + 1))
    ins = dict(cfg, ucell=np.insert(u, j, rng.uniform(1, 3, u.shape[1:]), axis=0), thickness=d[:j] + [0.] + d[j:])
    for nm, c in (('layer split in two', split), ('zero-thickness layer inserted', ins)):
        r2 = e2e.call(rep, be, c)
        if r is None or r2 is None:
            return
        rep.ev((nm, api.jsonable(c)))
        for k in api.AMP + api.DE:
            ok, err = api.close(r2['res'][k], r['res'][k], tol)
            if not ok:
                rep.fail(f'{be} {nm}: {k} changes by {err}', dict(backend=be, config=api.jsonable(cfg), changed=api.jsonable(c)))
                break


def tasks(tier):
    out = [(f'contracts[{be}]', fn_task(be)) for be in BACKENDS]
    for be in ('numpy', 'torch'):
        out.append((f'e2e[{be}]', e2e.sweep(be, lambda rng, i: api.rnd_cfg(rng, layers=int(rng.integers(1, 6)), edge=.08, mixed=True, fto_max=2), (80, 400), body)))
    for s in ((1, 4, 1, 4, 0, 1), (2, 3, 2, 3, 1, 1)):
        out.append((f'e2e[jax,{s}]', e2e.sweep('jax', lambda rng, i, s=s: api.rnd_cfg(rng, shape=s, edge=.08, mixed=True), (4, 60), body)))
    return out
