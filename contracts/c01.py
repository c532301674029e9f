"""C01: tangential fields are matched at every interface and at both half-spaces."""
from vkit.contract import *
from . import tm, e2e

META = dict(title='interfaces', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)',
    'linalg.inv/pinv of the mode and system matrices: matrices invertible'],
    rule='random complex matrices/indices of random order counts; each function-level contract evaluated on the real function')


def fn_task(be):
    def t(rep):
        m = module(be)
        for fn in tm.CONTRACTS:
            for pol in ((0, 1) if tm.CONTRACTS[fn][1] else (0,)):
                post, _ = tm.get_post(fn, be)
                lab = f'{be}.{fn}' + (f'[pol={pol}]' if tm.CONTRACTS[fn][1] else '')
                try:
                    f = get(m, fn)
                except Unsupported as e:
                    rep.ob(lab, 'unsupported', '-', 0, str(e))
                    continue
                args = tm.sym_args(fn, be, pol)
                prove(rep, lab, f, args, post, optional=('kx',), conds=tm.sym_conds(fn, args))
                rng = rep.rng(fn, pol)
                n = {'quick': 6 if be == 'jax' else 12, 'thorough': 100}[rep.tier]
                for _ in range(n):
                    evaluate(rep, lab, be, f, tm.gen_args(fn, be, rng, pol), post, optional=('kx',), tol=1e-7)
    return t


def tasks(tier):
    out = [(f'contracts[{be}]', fn_task(be)) for be in BACKENDS]
    for be in BACKENDS:
        out += e2e.std(be, quick=120, mixed=True, edge=.1)
    return out
