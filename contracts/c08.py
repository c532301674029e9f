"""C08: run compression of a cell loses nothing."""
import numpy as rnp
from vkit.contract import *
from vkit import api, core, ref
from . import e2e, fourier
from .c07 import CM

META = dict(title='compression', assumptions=['floating-point arithmetic is treated as exact field arithmetic (R, C)'],
            rule='random cells built from few values so that runs, repeated non-adjacent columns/rows, constant and single-pixel cells are frequent')


def rle_cell(rng, fixed=None):
    ny, nx = fixed or (int(rng.integers(1, 8)), int(rng.integers(1, 10)))
    vals = rng.choice([1., 1.5, 2., 3.], 3, replace=False)
    k = int(rng.integers(1, 4))
    cols = rng.choice(vals[:k], (ny, 3))
    u = cols[:, rng.integers(0, 3, nx)]          # columns repeat, adjacent or not
    if rng.random() < .6:
        u = u[rng.integers(0, min(2, ny), ny)] if rng.random() < .5 else u[rng.integers(0, ny, ny)]
    if rng.random() < .3:
        u = rng.choice(vals[:k], (ny, nx))
    if rng.random() < .3:
        u = u - 1j * (u == vals[0]) * .3
    if rng.random() < .2:                        # equal n, different k, in whole columns or rows
        k = rng.integers(0, 2, (1, nx) if rng.random() < .5 else (ny, 1))
        u = rnp.broadcast_to((u if rng.random() < .5 else rnp.full((ny, nx), vals[0])) - 1j * k * .3, (ny, nx)).copy()
    if rng.random() < .3:                        # neighbours that are close, not equal
        u = u * (1 + 10. ** -rng.integers(3, 13) * rng.integers(0, 3, nx))
    return u


def post_comp(np, a, r):
    """the blocks reproduce the flipped cell on the pixel grid; boundaries lie where the cell changes"""
    c, x, y = [rnp.asarray(v) for v in r]
    cell = a['cell'][::-1]
    ny, nx = cell.shape
    x, y = x.real.flatten(), y.real.flatten()
    yield 'one column of values per block', bool(c.shape == (len(y), len(x)))
    yield 'blocks end at the cell boundary', rnp.array([x[-1], y[-1]]), rnp.ones(2)
    kx, ky = x * nx, y * ny
    yield 'block boundaries are pixel boundaries', rnp.concatenate((kx, ky)), rnp.rint(rnp.concatenate((kx, ky)))
    yield 'block boundaries increase', bool((rnp.diff(x) > 0).all() and (rnp.diff(y) > 0).all() and x[0] > 0 and y[0] > 0)
    ix = rnp.searchsorted(rnp.rint(kx), rnp.arange(nx), side='right')
    iy = rnp.searchsorted(rnp.rint(ky), rnp.arange(ny), side='right')
    yield 'blocks reproduce the cell', c[rnp.ix_(iy, ix)], cell
    yield 'equal neighbours are merged', bool(all((c[:, j] != c[:, j + 1]).any() for j in range(len(x) - 1)) and all((c[j] != c[j + 1]).any() for j in range(len(y) - 1)))


def comp_task(be):
    def t(rep):
        f = getattr(module(be, CM), 'cell_compression', None)
        if f is None:
            rep.bounded.append((f'{be}.cell_compression', 'not present: end-to-end comparison only'))
            return
        rng = rep.rng('comp')
        for i in range({'quick': 300 if be != 'jax' else 60, 'thorough': 5000 if be != 'jax' else 400}[rep.tier]):
            evaluate(rep, f'{be}.cell_compression', be, f, dict(cell=rle_cell(rng, None if be != 'jax' else [(1, 6), (3, 5)][i % 2])), post_comp, tol=1e-12)
    return t


def gen(rng, i, shape=None):
    cfg = api.rnd_cfg(rng, shape=shape, ft=1, edge=.05)
    sh = cfg['ucell'].shape
    if shape is None:
        sh = (sh[0], sh[1] if sh[1] == 1 else int(rng.integers(2, 7)), int(rng.integers(1, 10)))
    cfg['ucell'] = rnp.array([rle_cell(rng, sh[1:]) + 0j for _ in range(sh[0])])
    if rnp.abs(cfg['ucell'].imag).max() == 0:
        cfg['ucell'] = cfg['ucell'].real
    return cfg


def body(rep, be, cfg, tol):
    r = e2e.call(rep, be, cfg)
    if r is None:
        return
    e2e.match(rep, be, cfg, r['res'], api.expected(cfg, be), tol, e2e.KEYS, '')


def tasks(tier):
    out = [(f'proof[{be}]', fourier.comp_proof_task(be)) for be in BACKENDS] + [(f'compression[{be}]', comp_task(be)) for be in BACKENDS]
    for be in ('numpy', 'torch'):
        out.append((f'e2e[{be}]', e2e.sweep(be, gen, (250, 2000), body)))
    for s in e2e.SHAPES[:4]:
        out.append((f'e2e[jax,{s}]', e2e.sweep('jax', lambda rng, i, s=s: gen(rng, i, shape=s), (6, 80), body)))
    return out
