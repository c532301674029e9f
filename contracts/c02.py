"""C02: every layer mode satisfies the truncated Fourier-Maxwell system of the layer."""
from vkit.contract import *
from vkit import alg
from . import tm, e2e

META = dict(title='modes', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)',
    'linalg.eig: M W = W diag(lambda), W invertible (defective operators excluded)',
    'no mode with q = 0 exactly (q is inverted); torch replaces |q| < 1e-10 by 1e-10: covered by its own path'])


def clamp_hook(v):
    def h(c):
        return v if c.op == 'lt' and 'abs' in repr(c) and 'lam' in repr(c) else None
    return h


def post_clamped(np, a, r):
    """a mode whose q was replaced by the floor value still satisfies Omega_R W = V Q exactly"""
    for g in tm.post_2d_2(np, a, r):
        if 'Omega_R' in g[0]:
            yield g


def fn_task(be):
    def t(rep):
        m = module(be)
        for fn, (post, haspol, pre) in tm.MODES.items():
            for pol in ((0, 1) if haspol else (0,)):
                lab = f'{be}.{fn}' + (f'[pol={pol}]' if haspol else '')
                try:
                    f = get(m, fn)
                except Unsupported as e:
                    rep.ob(lab, 'unsupported', '-', 0, str(e))
                    continue
                alg.ITE_HOOK = clamp_hook(False)
                prove(rep, lab, f, tm.sym_modes(fn, pol), post, pre=pre)
                if fn == 'transfer_2d_2' and be == 'torch':
                    alg.ITE_HOOK = clamp_hook(True)
                    prove(rep, lab + '[|q|<1e-10]', f, tm.sym_modes(fn, pol), post_clamped, pre=pre)
                alg.ITE_HOOK = None
                rng = rep.rng(fn, pol)
                n = {'quick': 6 if be == 'jax' else 12, 'thorough': 100}[rep.tier]
                for _ in range(n):
                    evaluate(rep, lab, be, f, tm.gen_modes(fn, be, rng, pol), post, tol=1e-7)
    return t


def tasks(tier):
    out = [(f'contracts[{be}]', fn_task(be)) for be in BACKENDS]
    for be in BACKENDS:
        out += e2e.std(be, quick=100, layers=1, mixed=True, edge=.1)
    return out
