"""End-to-end oracle: the shipped solver against the independent reference (vkit/ref.py: exact Fourier integrals, one dense
boundary-value system, no transfer recursion), on random structures.  Bounded evidence; also the search for a failing input."""
import numpy as np
from vkit import api, core

KEYS = api.AMP + api.DE


def call(rep, be, cfg, **over):
    """real package call; an exception from the package on a valid configuration is a failure"""
    try:
        return api.run(be, cfg, **over)
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        rep.fail(f'{be}: {type(e).__name__}: {e}', dict(backend=be, config=api.jsonable(dict(cfg, **over))))
        return None


def check_ref(rep, be, cfg, tol=1e-6, keys=KEYS, what='', over=None, attrib=False):
    """attrib: a disagreement that disappears when the reference uses the package's own convolution matrices is a matter of
    the Fourier factorisation (C07-C09), not of this property"""
    r = call(rep, be, cfg, **(over or {}))
    if r is None:
        return False
    e = api.expected(cfg, be)
    if not attrib:
        return match(rep, be, cfg, r['res'], e, tol, keys, what)
    if all(api.close(r['res'][k], e[k], tol)[0] for k in keys):
        return match(rep, be, cfg, r['res'], e, tol, keys, what)
    lay = own_layers(be, cfg, over or {})
    if lay is not None:
        e = api.expected(cfg, be, layers=lay)
        if all(api.close(r['res'][k], e[k], tol)[0] for k in keys):
            rep.bounded.append((f'{be}: disagreement attributed to the convolution matrices (see C07-C09)', '1 configuration'))
            return False
    return match(rep, be, cfg, r['res'], e, tol, keys, what)


def own_layers(be, cfg, over):
    """convolution matrices the package itself used (arguments of the public solve_for_conv)"""
    got = []
    try:
        with api.quiet():
            m = api.make(be, cfg, **over)
            f = m.solve_for_conv

            def rec(*a, **k):
                got.append((a, k))
                return f(*a, **k)
            m.solve_for_conv = rec
            m.conv_solve()
        a, k = got[0]
        ex, ey, ez = [api.to_np(v) for v in (list(a) + list(k.values()))[-3:]]
        return [(ex[i], ey[i], ez[i], float(d)) for i, d in enumerate(np.atleast_1d(cfg['thickness']))]
    except Exception:  # noqa: BLE001
        return None


def match(rep, be, cfg, r, e, tol, keys, what):
    ok, worst = True, 0.
    for k in keys:
        good, err = api.close(r[k], e[k], tol)
        worst = max(worst, err if good else worst)
        if not good:
            ok = False
            rep.fail(f'{be} {what}{k}: differs from the reference by {err}',
                     dict(backend=be, config=api.jsonable(cfg), key=k, got=api.jsonable(r[k]), expected=api.jsonable(e[k])))
            break
    if ok:
        errs(rep).append((worst, be, what, cfg))
    return ok


def errs(rep):
    if not hasattr(rep, 'errors'):
        rep.errors = []
    return rep.errors


def precision(rep, tol=1e-10):
    """agreement to round-off: a single structure may be ill-conditioned (tolerance of match), half of them are not"""
    e = sorted(errs(rep), key=lambda z: z[0])
    if len(e) >= 5 and e[len(e) // 2][0] > tol:
        w, be, what, cfg = e[len(e) // 2]
        rep.fail(f'{be} {what}: accuracy lost, half of the structures differ from the reference by more than {w:.1e}',
                 dict(backend=be, config=api.jsonable(cfg)))


def ref_attrib(rep, be, cfg, tol):
    return check_ref(rep, be, cfg, tol, attrib=True)


def sweep(be, gen, n, body=ref_attrib, tol=1e-6):
    """task: n random configurations on one backend (n: (quick, thorough))"""
    def t(rep):
        rng = rep.rng()
        cnt = n[0] if rep.tier == 'quick' else n[1]
        for i in range(cnt):
            cfg = gen(rng, i)
            rep.ev((be, api.jsonable(cfg)), sample=dict(backend=be, config=api.jsonable(cfg)) if i == 0 else None)
            body(rep, be, cfg, tol)
            if len(rep.fails) >= 3:
                break
        precision(rep)
        rep.bounded.append((f'{be}: end-to-end comparison with the reference solver', f'{cnt} random configurations'))
    return t


SHAPES = [(1, 2, 1, 5, 0, 2), (1, 1, 1, 4, 0, 1), (2, 2, 3, 4, 1, 1), (2, 1, 2, 3, 1, 2), (2, 3, 4, 2, 2, 1), (1, 3, 1, 7, 0, 3)]


FORMS = [('1d', dict(dim=1, conical=False)), ('conical', dict(dim=1, conical=True)), ('2d', dict(dim=2))]


def strata(be, tag, gen, n, body=ref_attrib, tol=1e-6):
    """one sweep per formulation"""
    return [(f'e2e{tag}[{be},{nm}]', sweep(be, lambda rng, i, kw=kw: gen(rng, i, **kw), (n[0] * (2 if nm == '1d' else 1), n[1]), body, tol)) for nm, kw in FORMS]


def std(be, quick=40, thorough=600, tag='', body=ref_attrib, **kw):
    """standard sweeps of one backend; jax configurations share a few array shapes (compilation cost)"""
    if be != 'jax':
        return strata(be, tag, lambda rng, i, **k: api.rnd_cfg(rng, **dict(kw, **k)), (quick, thorough), body)
    out = []
    dim = kw.get('dim')
    sh = [s for s in SHAPES if dim in (None, s[0]) and (kw.get('layers') in (None, s[1]))] or SHAPES[:1]
    for j, s in enumerate(sh[:3] if quick < 60 else sh):
        kk = {k: v for k, v in kw.items() if k not in ('dim', 'layers', 'fto_max')}
        out.append((f'e2e{tag}[jax,{s}]', sweep('jax', lambda rng, i, s=s, kk=kk: api.rnd_cfg(rng, shape=s, **kk), (max(3, quick // 6), thorough // 6), body)))
    return out


def orders(cfg):
    from vkit import ref
    fx, fy = api.fto2(cfg)
    th = float(cfg['theta']) or 1e-20
    return ref.kxy(cfg['n_top'], th, float(cfg['phi']) if cfg.get('phi') is not None else 0., cfg['wavelength'], api.period2(cfg), fx, fy)
