"""Driving the real package: configurations, the three backends, conversion of results to numpy, expected values."""
import copy, json, sys, io, contextlib, warnings
import numpy as np
from . import ref

BE = {'numpy': 0, 'jax': 1, 'torch': 2}
AMP = ('R_s', 'R_p', 'T_s', 'T_p')
DE = ('de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p')


def meent():
    import meent as m
    return m


def to_np(x):
    if x is None:
        return None
    if hasattr(x, 'detach'):
        x = x.detach().cpu()
        return x.resolve_conj().resolve_neg().numpy() if hasattr(x, 'resolve_conj') else x.numpy()
    return np.asarray(x)


def to_be(be, x):
    if isinstance(x, np.ndarray):
        if be == 'torch':
            import torch
            return torch.as_tensor(np.array(x))
        if be == 'jax':
            import meent.on_jax, jax.numpy as jnp      # the package enables 64-bit jax on import
            return jnp.asarray(x)
        return np.array(x)
    return copy.deepcopy(x)


def make(be, cfg, **over):
    c = dict(cfg)
    c.update(over)
    kw = {k: v for k, v in c.items() if k in ('n_top', 'n_bot', 'theta', 'phi', 'psi', 'pol', 'period', 'wavelength',
                                              'thickness', 'fto', 'fourier_type', 'enhanced_dfs', 'type_complex', 'use_pinv',
                                              'perturbation')}
    kw = {k: copy.deepcopy(v) for k, v in kw.items()}
    u = c['ucell']
    kw['ucell'] = to_be(be, u)
    return meent().call_mee(backend=BE[be], **kw)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def pack(r):
    """result object -> {'res': {...}, 'res_te_inc': ..., 'res_tm_inc': ...} of numpy arrays"""
    out = {}
    for g in ('res', 'res_te_inc', 'res_tm_inc'):
        s = getattr(r, g, None)
        if s is None:
            continue
        out[g] = {k: to_np(getattr(s, k)) for k in AMP + DE}
    return out


def run(be, cfg, **over):
    with quiet():
        m = make(be, cfg, **over)
        r = m.conv_solve()
    return pack(r)


def psi_of(cfg):
    if cfg.get('psi') is not None:
        return float(cfg['psi'])
    return np.pi / 2 * (1 - cfg.get('pol', 0))


def is_vector(cfg):
    return isinstance(cfg['ucell'], list)


def paint(layer, period=None):
    """painter's algorithm for an axis-aligned rectangle layer [base, [['rectangle', cx, cy, lx, ly, n, angle, ntx, nty], ...]]
    -> grid, x right ends, y right ends.  Only angle 0 (exact)."""
    raise NotImplementedError


def layers_of(cfg):
    """reference convolution matrices for the configuration"""
    fx, fy = fto2(cfg)
    th = np.atleast_1d(np.asarray(cfg['thickness'], dtype=float))
    out = []
    if is_vector(cfg):
        for lay, d in zip(cfg['ref_layers'], th):
            g, xs, ys = lay
            out.append(ref.conv_vector(g, xs, ys, fx, fy) + (d,))
        return out
    for i, d in enumerate(th):
        cell = np.asarray(cfg['ucell'])[i]
        if cfg.get('fourier_type', 0) == 1:
            out.append(ref.conv_raster_continuous(cell, fx, fy) + (d,))
        else:
            out.append(ref.conv_raster_discrete(cell, fx, fy, cfg.get('enhanced_dfs', True)) + (d,))
    return out


def fto2(cfg):
    f = cfg['fto']
    if isinstance(f, (int, float)):
        return int(f), 0
    f = list(f)
    return (int(f[0]), 0) if len(f) == 1 else (int(f[0]), int(f[1]))


def period2(cfg):
    p = cfg['period']
    if isinstance(p, (int, float)):
        return (p, p)
    p = list(p)
    return (p[0], p[0]) if len(p) == 1 else tuple(p)


def formulation(cfg, be='numpy'):
    """which formulation the documentation promises for this configuration"""
    if is_vector(cfg):
        return '2d'
    if np.asarray(cfg['ucell']).shape[1] == 1:
        pol = -(2 * cfg['psi'] / np.pi - 1) if cfg.get('psi') is not None else cfg.get('pol', 0)
        nophi = cfg.get('phi') is None or (be == 'torch' and cfg['phi'] == 0)    # documented torch exception
        if pol in (0, 1) and nophi and fto2(cfg)[1] == 0:
            return '1d'
        return 'conical'
    return '2d'


def solution(cfg, psi=None, layers=None, p_sign=1):
    """reference solution; p_sign=-1 is the torch convention for the p incidence (see known finding F1)"""
    fx, fy = fto2(cfg)
    th = float(cfg['theta']) or 1e-20          # documented perturbation of normal incidence
    phi = float(cfg['phi']) if cfg.get('phi') is not None else 0.
    psi = psi_of(cfg) if psi is None else psi
    nt = complex(cfg['n_top'])
    kx, ky = ref.kxy(cfg['n_top'], th, phi, cfg['wavelength'], period2(cfg), fx, fy)
    lay = layers if layers is not None else layers_of(cfg)
    k0 = 2 * np.pi / cfg['wavelength']
    # s-unit vector in the branch used by the code: angle atan(ky/kx) of the specular order
    c = (kx[fx] if abs(kx[fx]) > 0 else 1e-300), ky[fy]
    vphi0 = np.arctan((c[1] / c[0]).real)
    sol = ref.solve(kx, ky, lay, k0, nt, complex(cfg['n_bot']), th, vphi0, np.sin(psi), -p_sign * 1j * nt * np.cos(psi))
    return sol, lay, k0


def expected(cfg, be, psi=None, layers=None, form=None):
    """amplitudes and efficiencies the backend must return"""
    form = form or formulation(cfg, be)
    ps = -1 if be == 'torch' else 1
    sol, lay, k0 = solution(cfg, psi, layers, ps)
    fx, fy = fto2(cfg)
    sh = (2 * fy + 1, 2 * fx + 1)
    e = {k: getattr(sol, k).reshape(sh) for k in AMP}
    nt, nb = complex(cfg['n_top']), complex(cfg['n_bot'])
    if be == 'torch':
        sg = lambda v: np.where(v.real < 0, -1, 1)
        ph = sg(sol.kx) * sg(sol.kx[fx:fx + 1])
        e = {'R_s': e['R_s'].conj() * ph, 'T_s': e['T_s'].conj() * ph,
             'R_p': (1j / nt * e['R_p']).conj() * ph, 'T_p': (1j / nb * e['T_p']).conj() * ph}
        if form == '1d':          # 1D: H amplitude relative to a unit incident H, also below the structure
            e['T_p'] = (1j / nt * sol.T_p.reshape(sh)).conj() * ph
    elif form == '1d':
        e['R_p'] = e['R_p'] / (1j * nt)
        e['T_p'] = e['T_p'] / (1j * nt)
    e['de_ri_s'], e['de_ri_p'] = sol.de_r_s.reshape(sh), sol.de_r_p.reshape(sh)
    e['de_ti_s'], e['de_ti_p'] = sol.de_t_s.reshape(sh), sol.de_t_p.reshape(sh)
    e['de_ri'], e['de_ti'] = sol.de_r.reshape(sh), sol.de_t.reshape(sh)
    if form == '1d':
        pass
    e['_sol'], e['_layers'], e['_k0'] = sol, lay, k0
    return e


# ------------------------------------------------------------------------------------------ random configurations
def rnd_index(rng, lossy=False, lo=1.0, hi=3.5):
    n = rng.uniform(lo, hi)
    return complex(n, -rng.uniform(0.01, 0.6)) if lossy else n


def rnd_cfg(rng, dim=None, layers=None, lossy=None, lossy_sub=None, ft=None, conical=None, fto_max=3, mixed=False, edge=0.,
            shape=None, real_eps=None, period=None, units=None):
    """small random structure; wavelengths/periods chosen with both propagating and evanescent orders.

    edge: probability of each special value (normal incidence, phi = 0, pi/2, pi, zero thickness, uniform layer, total
    internal reflection, plasmonic substrate, single-pixel cell, no diffraction orders).  shape: fixed (dim, layers, ny, nx, fy, fx)."""
    sp = lambda: rng.random() < edge
    if shape is not None:
        dim, nl, ny, nx, fy, fx = shape
    else:
        dim = dim if dim is not None else int(rng.choice([1, 2]))
        nl = layers if layers is not None else int(rng.integers(4, 10)) if edge and rng.random() < .04 else int(rng.integers(1, 4))
        nx = 1 if sp() else int(rng.integers(2, 9))
        ny = 1 if dim == 1 else int(rng.integers(2, 6))
        fx = 0 if sp() else int(rng.integers(1, fto_max + 1))
        if edge and rng.random() < .04:
            fx = int(rng.integers(4, 9) if dim == 2 else rng.integers(6, 16))
        fy = 0 if dim == 1 or sp() else int(rng.integers(1, 3))
    lossy = bool(rng.integers(0, 2)) if lossy is None else lossy
    u = rng.uniform(1, 3.5, size=(nl, ny, nx)).round(2)
    # piecewise-constant patches (equal neighbours) are the realistic case
    for l in range(nl):
        if rng.random() < .6:
            a, b = sorted(rng.integers(0, nx + 1, 2))
            u[l, :, a:b] = u[l, 0, 0]
        if ny > 1 and rng.random() < .4:
            a, b = sorted(rng.integers(0, ny + 1, 2))
            u[l, a:b, :] = u[l, 0, 0]
        if sp():
            u[l] = u[l, 0, 0]
    if lossy:
        k = rng.uniform(0, .5, size=u.shape).round(2) * (rng.random(u.shape) < .6)
        if sp():
            k = k * 8
        u = u - 1j * k
    elif sp():
        u = u.astype(complex)
    wl = float(rng.uniform(500, 1100))
    per = [float(rng.uniform(.5, 2.2) * wl), float(rng.uniform(.5, 2.2) * wl)]
    if sp():
        per = [p * .2 for p in per]
    conical = bool(rng.integers(0, 2)) if conical is None else conical
    cfg = dict(n_top=float(rng.choice([1., 1.33, 1.5, 1., 2.2])), n_bot=float(rng.choice([1., 1.45, 3.5, 2.])),
               theta=float(rng.uniform(0.02, 1.3)), phi=None, pol=int(rng.integers(0, 2)), period=per, wavelength=wl,
               ucell=u, thickness=[float(t) for t in rng.uniform(20, 450, nl)], fto=[fx, fy],
               fourier_type=int(rng.integers(0, 2)) if ft is None else ft)
    if lossy_sub or (lossy_sub is None and edge and rng.random() < .3):
        cfg['n_bot'] = rnd_index(rng, True, 0.3, 3.)
        if sp():
            cfg['n_bot'] = complex(rng.uniform(.1, .6), -rng.uniform(2, 6))
    if dim == 2 or conical:
        cfg['phi'] = float(rng.uniform(-1.4, 1.4)) if rng.random() < .85 else float(rng.uniform(1.6, 3.1))
        if sp():
            cfg['phi'] = float(rng.choice([0., 0.5, -.5, 1.]) * np.pi)
    if sp():
        cfg['theta'] = 0.
    elif sp():
        cfg['theta'] = -cfg['theta']
    if sp():
        cfg['thickness'][int(rng.integers(nl))] = 0.
    if sp():                                     # optically thick: evanescent and absorbed modes underflow
        cfg['thickness'][int(rng.integers(nl))] *= float(rng.uniform(5, 60))
    if mixed and (dim == 2 or conical):
        cfg['pol'] = float(rng.uniform(0.05, .95))
    if (edge if units is None else units) and rng.random() < .12:              # other units of length: the result depends on ratios of lengths only
        f = float(rng.choice([1e-9, 1e-9, 1e-6, 1e-3, 1e3]))
        cfg.update(wavelength=cfg['wavelength'] * f, period=[p * f for p in cfg['period']], thickness=[d * f for d in cfg['thickness']])
    return cfg


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items() if not str(k).startswith('_')}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return {'ndarray': jsonable(o.tolist())} if o.size < 4000 else {'ndarray_shape': list(o.shape)}
    if isinstance(o, (complex, np.complexfloating)):
        return {'re': float(o.real), 'im': float(o.imag)}
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if o is None or isinstance(o, (int, float, str, bool)):
        return o
    return repr(o)


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False, f'shape {a.shape} vs {b.shape}'
    if a.size == 0:
        return True, 0.
    if not np.all(np.isfinite(a)):
        return False, 'non-finite value'
    err = float(np.max(np.abs(a - b)))
    sc = max(1., float(np.max(np.abs(b))))
    return err <= tol * sc, err
