"""C16: the three backends compute the same thing (relational contracts: the real functions of two backends on the same arguments)."""
import numpy as rnp
from vkit.contract import *
from vkit import api, core, alg, scal
from vkit.scal import S
from . import tm, e2e, c02, c06, c09, c10, solve, fourier, materials

META = dict(title='backends', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C); agreement up to round-off is evaluated (tolerance 1e-6, complex64 2e-3)',
    'linalg.inv/pinv: exact inverse of an invertible matrix; linalg.eig: M W = W diag(lambda), W invertible, the same function in all libraries '
    '(another scale of the modes does not change the result: obligations of this check; another order: a relabelling of the mode sums)',
    'half-space kz of torch and numpy: equal squares and the same closed quadrant (obligations of this check) make them equal',
    'drawing of vector cells: one contract for all backends, proved in C08/C09, evaluated here'],
            rule='random structures (raster both Fourier rules, vector), options and precision; all backends on the same structure')

FNS = list(tm.CONTRACTS) + list(tm.MODES)
POL = {fn: bool(tm.CONTRACTS[fn][1]) if fn in tm.CONTRACTS else tm.MODES[fn][1] for fn in FNS}


def sargs(fn, pol):
    return tm.sym_args(fn, 'numpy', pol) if fn in tm.CONTRACTS else tm.sym_modes(fn, pol)


def flat(nm, v):
    if isinstance(v, dict):
        for k in sorted(v):
            yield from flat(f'{nm}.{k}', v[k])
    elif isinstance(v, (tuple, list)) or isinstance(v, alg.Stack):
        v = v.parts if isinstance(v, alg.Stack) else v
        for i, x in enumerate(v):
            yield from flat(f'{nm}[{i}]', x)
    elif v is not None and not isinstance(v, str):
        yield nm, v


def go(be, fn, a, **kw):
    f = get(module(be), fn)
    b = bind(f, a, ('kx',))
    if kw:
        b.update({k: v for k, v in kw.items() if k in inspect.signature(shim.unwrap(f)).parameters})
    return shim.sym(f)(**b)


def pairs(a, b, keep=lambda n: True):
    A, B = dict(flat('result', a)), dict(flat('result', b))
    if set(A) != set(B):
        raise Unsupported(f'results have different parts: {sorted(A)} and {sorted(B)}')
    for k in A:
        if keep(k):
            yield k, A[k], B[k]



# ------------------------------------------------------------------ relational obligations
def hooked(rep, label, run, conds=()):
    alg.ITE_HOOK = c02.clamp_hook(False)
    try:
        prove_run(rep, label, run, conds)
    except Unsupported as e:
        rep.ob(label, 'unsupported', '-', 0, str(e))
    finally:
        alg.ITE_HOOK = None


def cases():
    for fn in FNS:
        for pol in (0, 1) if POL[fn] else (0,):
            yield fn, pol, fn + (f'[pol={pol}]' if POL[fn] else ''), (lambda a: tm.sym_conds(fn, a) if fn in tm.CONTRACTS else ())


def rel_task(rep):
    """JAX computes what NumPy computes, function by function"""
    for fn, pol, lab, conds in cases():
        a = sargs(fn, pol)
        hooked(rep, f'jax = numpy.{lab}', lambda: pairs(go('numpy', fn, a), go('jax', fn, a)), conds(a))


PURE = {0: S.const(1), 1: S.const(0)}


def rel_torch(rep):
    """PyTorch: same modes, same recursion, same efficiencies (its amplitudes are in the conjugate time convention)"""
    for fn, pol, lab, conds in cases():
        a = sargs(fn, pol)
        if fn.endswith('_1'):
            def run():
                x, y = go('numpy', fn, a), go('torch', fn, a)
                k = 3 if len(x) == 6 else 2
                for i in (0, 1):
                    yield f'kz^2 [{i}]', x[i] * x[i], y[i] * y[i]
                if k == 3:
                    yield 'varphi', x[2], y[2]
                yield 'last factor', x[-1], y[-1]
                # the interface matrices are the same function of kz
                for be, r in (('numpy', x), ('torch', y)):
                    for g in tm.get_post(fn, be)[0](shim.np_shim(), a, r):
                        yield (f'{be} {g[0]}',) + tuple(g[1:])
            hooked(rep, f'torch = numpy.{lab}', run, conds(a))
        elif fn.endswith('_4') and '1d_4' not in fn:
            keep = lambda n: '.de_' in n and ('te_inc' in n or 'tm_inc' in n)
            hooked(rep, f'torch = numpy.{lab}', lambda: pairs(go('numpy', fn, a)[0], go('torch', fn, a)[0], keep), conds(a))
            for nm, psi in (('TM, psi = 0', S.const(0)), ('TE, psi = pi/2', scal.PI / 2)):
                b = dict(a, psi=psi)
                hooked(rep, f'torch = numpy.{lab}[{nm}]', lambda: pairs(go('numpy', fn, b)[0], go('torch', fn, b)[0], lambda n: '.de_' in n), conds(a))
        elif fn.endswith('_4'):
            hooked(rep, f'torch = numpy.{lab}', lambda: pairs(go('numpy', fn, a)[0], go('torch', fn, a)[0], lambda n: '.de_' in n), conds(a))
        else:
            hooked(rep, f'torch = numpy.{lab}', lambda: pairs(go('numpy', fn, a), go('torch', fn, a)), conds(a))


def rel_pinv(be):
    """the pseudo-inverse option computes the same as the inverse"""
    def t(rep):
        for fn, pol, lab, conds in cases():
            f = getattr(module(be), fn, None)
            if f is None or 'use_pinv' not in inspect.signature(shim.unwrap(f)).parameters:
                continue
            a = sargs(fn, pol)
            hooked(rep, f'{be}.{lab}[use_pinv]', lambda: pairs(go(be, fn, a, use_pinv=False), go(be, fn, a, use_pinv=True)), conds(a))
    return t


def quadrant(rep):
    """two numbers with the same square in the closed quadrant Re >= 0, Im <= 0 are equal"""
    def run():
        x, y, u, v = [S.sym(n, real=True) for n in 'xyuv']
        for c in (x >= 0, y <= 0, u >= 0, v <= 0, x * x - y * y == u * u - v * v, x * y == u * v):
            path.assume(c) if hasattr(path, 'assume') else None
        yield 'Re', (x - u) == 0
        yield 'Im', (y - v) == 0
    x, y, u, v = [S.sym(n, real=True) for n in 'xyuv']
    prove_run(rep, 'lemma: the square and the quadrant determine the root', run,
              [x >= 0, y <= 0, u >= 0, v <= 0, x * x - y * y == u * u - v * v, x * y == u * v])


def waves(rep):
    for be in BACKENDS:
        c06.fn_task(be)(rep)
        for form in ('1d', '1d_conical', '2d'):
            solve.prove_solve(rep, be, form)


# ------------------------------------------------------------------ the same structure on all backends
C64 = {'numpy': lambda: rnp.complex64, 'jax': lambda: __import__('jax').numpy.complex64, 'torch': lambda: __import__('torch').complex64}


def diff(rep, what, data, a, b, keys, tol, blocks=('res', 'res_te_inc', 'res_tm_inc')):
    worst = 0.
    for g in blocks:
        if (g in a) != (g in b):
            continue                      # the 1D formulation has no separate incidences (and torch solves phi = 0 as 1D)
        if g in a:
            for k in keys:
                ok, err = api.close(a[g][k], b[g][k], tol)
                if not ok:
                    rep.fail(f'{what} {g}.{k}: differ by {err}', dict(data, block=g, key=k, first=api.jsonable(a[g][k]), second=api.jsonable(b[g][k])))
                    return False
                worst = max(worst, err)
    if tol <= 1e-6:
        e2e.errs(rep).append((worst, '', what, data))
    return True


def mixed(cfg):
    p = cfg.get('psi')
    if p is not None:
        return min(abs(rnp.sin(p)), abs(rnp.cos(p))) > 1e-12
    return 0 < cfg.get('pol', 0) < 1


def uniform2d(cfg):
    """a two-dimensional cell with a uniform layer (all its modes are doubly degenerate)"""
    if isinstance(cfg['ucell'], list):
        return any(all(o[5] == l[0] for o in l[1]) for l in cfg['ucell'])
    return rnp.asarray(cfg['ucell']).shape[1] > 1 and any(rnp.ptp(rnp.abs(l)) < 1e-12 for l in rnp.asarray(cfg['ucell']))


def same_drawing(be, cfg):
    """F21: the outline points of an axis-aligned ellipse are tied, and round-off decides the staircase drawn; such a cell is left
    out when the two backends draw that ellipse differently (any other object must be drawn alike)"""
    for lay in cfg['ucell']:
        for o in lay[1]:
            if o[0] == 'ellipse' and abs(rnp.sin(2 * (o[6] if len(o) > 6 else 0))) < 1e-9:
                got = []
                for b in ('numpy', be):
                    with api.quiet():
                        got.append(rnp.array([[float(rnp.real(api.to_np(y)).reshape(())) for p in q[:2] for y in p] for q in api.make(b, cfg).ellipse(*o[1:])]))
                if got[0].shape != got[1].shape or rnp.abs(got[0] - got[1]).max() > 1e-6 * max(cfg['period']):
                    return False
    return True


def body(rep, be, cfg, tol):
    """be: the backend compared with numpy"""
    rng = rep.rng(repr(cfg['thickness']), 'opt')
    data = dict(backends=['numpy', be], config=api.jsonable(cfg))
    r, s = e2e.call(rep, 'numpy', cfg), e2e.call(rep, be, cfg)
    if r is None or s is None:
        return
    if isinstance(cfg['ucell'], list) and not same_drawing(be, cfg):
        return rep.finding('F21')
    if be == 'jax':
        if not diff(rep, 'numpy and jax', data, r, s, e2e.KEYS, tol):
            return
    else:
        if not diff(rep, 'numpy and torch', data, r, s, api.DE, tol, ('res_te_inc', 'res_tm_inc')):
            return
        if not mixed(cfg):
            if not diff(rep, 'numpy and torch', data, r, s, api.DE, tol, ('res',)):
                return
        elif not all(api.close(r['res'][k], s['res'][k], tol)[0] for k in api.DE):
            # F1: torch is numpy at the opposite polarisation angle; anything else is a new disagreement
            m = e2e.call(rep, 'numpy', {k: v for k, v in dict(cfg, psi=-api.psi_of(cfg)).items() if k != 'pol'})
            if m is None or not diff(rep, 'numpy (at -psi, see F1) and torch', data, m, s, api.DE, tol, ('res',)):
                return
            rep.finding('F1')
    # the matrices and wave vectors behind it
    la, lb = e2e.own_layers('numpy', cfg, {}), e2e.own_layers(be, cfg, {})
    if la and lb:
        for i, (x, y) in enumerate(zip(la, lb)):
            for nm, m1, m2 in zip(('epx', 'epy', 'epz_i'), x, y):
                ok, err = api.close(m1, m2, 1e-8)
                if not ok:
                    return rep.fail(f'numpy and {be}: convolution matrix {nm} of layer {i} differs by {err}', data)
    if hasattr(api.make('numpy', cfg), 'get_kx_ky_vector') and hasattr(api.make(be, cfg), 'get_kx_ky_vector'):
        with api.quiet():
            ka, kb = [api.make(b, cfg).get_kx_ky_vector(cfg['wavelength']) for b in ('numpy', be)]
        for nm, x, y in zip(('kx', 'ky'), ka, kb):
            if not api.close(api.to_np(x), api.to_np(y), 1e-9)[0]:
                return rep.fail(f'numpy and {be}: wave vector {nm} differs', data)
    # options that select a numerical method
    for b, base in (('numpy', r), (be, s)):
        if rng.random() < .4:
            p = e2e.call(rep, b, cfg, use_pinv=True)
            if p is not None and not diff(rep, f'{b}: use_pinv', dict(data, backend=b), base, p, e2e.KEYS, 1e-6):
                return
        if rng.random() < .4 and not (b == 'jax' and rng.random() < .5) and smooth(cfg):
            try:
                with api.quiet():
                    p = api.run(b, cfg, type_complex=C64[b]())
            except Exception as e:  # noqa: BLE001
                if not core.from_repo(e) and not isinstance(e, rnp.linalg.LinAlgError):
                    raise
                if b == 'numpy' and uniform2d(cfg):
                    rep.finding('F19')
                    continue
                return rep.fail(f'{b}: complex64: {type(e).__name__}: {e}', dict(data, backend=b))
            t = 2e-3
            if b == 'numpy' and uniform2d(cfg) and not all(api.close(p['res'][k], base['res'][k], t)[0] for k in api.DE):
                rep.finding('F19')
                continue
            if not diff(rep, f'{b}: complex64', dict(data, backend=b), base, p, api.DE, t):
                return


def smooth(cfg):
    """well away from cut-off and resonance: single precision is compared where double precision says the problem is well conditioned"""
    if sum(cfg['thickness']) > 5 * cfg['wavelength']:        # single-precision phases
        return False
    if isinstance(cfg['ucell'], list) and any(o[0] == 'ellipse' and abs(rnp.sin(2 * (o[6] if len(o) > 6 else 0))) < 1e-5 for l in cfg['ucell'] for o in l[1]):
        return False                                         # tied outline points: the drawing depends on round-off (F21)
    c = dict(cfg, wavelength=cfg['wavelength'] * (1 + 1e-6))
    try:
        a, b = api.run('numpy', cfg)['res'], api.run('numpy', c)['res']
    except Exception:  # noqa: BLE001
        return False
    return all(rnp.abs(a[k] - b[k]).max() < 1e-4 for k in api.DE)


def gen(rng, i, shape=None, **kw):
    c = api.rnd_cfg(rng, edge=.06, shape=shape, **kw)
    if c['fourier_type'] == 0 and rng.random() < .3:
        c['enhanced_dfs'] = False
    u = rng.random()
    if u < .25 and c['phi'] is not None:
        c['pol'] = float(rng.uniform(.05, .95))
    elif u < .4:
        c.pop('pol')
        c['psi'] = float(rng.choice([0., rnp.pi / 2, rng.uniform(0, rnp.pi / 2)]))
    return c


def vgen(rng, i, shape=None):
    return c09.rnd_vcfg(rng, i, kinds=('r', 'R', 'e'), nmax=3, shape=shape)


def fields(rep):
    rng = rep.rng()
    n = 16 if rep.tier == 'quick' else 160
    for i in range(n):
        s = e2e.SHAPES[i % 4]
        cfg = gen(rng, i, shape=s)
        data = dict(backends=['numpy', 'jax'], config=api.jsonable(cfg))
        rep.ev(data)
        f = {}
        for be in ('numpy', 'jax'):
            try:
                with api.quiet():
                    m = api.make(be, cfg)
                    m.conv_solve()
                    f[be] = api.to_np(m.calculate_field(3, 2, 3))
            except Exception as e:  # noqa: BLE001
                if not core.from_repo(e):
                    raise
                return rep.fail(f'{be}: calculate_field raises {type(e).__name__}: {e}', data)
        ok, err = api.close(f['numpy'], f['jax'], 1e-6)
        if not ok:
            return rep.fail(f'numpy and jax: fields differ by {err}', data)
    rep.bounded.append(('numpy and jax fields', f'{n} structures'))


def tools(rep):
    """material data, drawing and painting of index tables across the backends"""
    rng = rep.rng()
    mods = {be: importlib.import_module(f'meent.on_{be}.modeler.modeling') for be in BACKENDS}
    with api.quiet():
        tabs = {be: mods[be].read_material_table() for be in BACKENDS}
    ref = tabs['numpy']
    for be in BACKENDS:
        if sorted(tabs[be]) != sorted(ref):
            rep.fail(f'{be}: material names differ from numpy', dict(backend=be, names=sorted(set(tabs[be]) ^ set(ref))))
            return
        for nm in ref:
            rep.ev((be, nm))
            x, y = dict(flat('t', back(tabs[be][nm]))), dict(flat('t', ref[nm]))
            if set(x) != set(y) or not all(api.close(rnp.asarray(x[k], complex), rnp.asarray(y[k], complex), 1e-12)[0] for k in x):
                return rep.fail(f'{be}: table of {nm} differs from numpy', dict(backend=be, material=nm))
    names = sorted(ref)
    for i in range(300 if rep.tier == 'quick' else 3000):
        nm = names[int(rng.integers(len(names)))]
        t = ref[nm]
        if isinstance(t, dict):
            lo, hi = t['wavelength_range']
            wl = float(rng.uniform(max(lo, 1e-12), min(hi, 2 * max(lo, 1e-7))))
        else:
            t = rnp.asarray(t)
            wl = float(rng.choice([rng.uniform(t[:, 0].min(), t[:, 0].max()), t[int(rng.integers(len(t))), 0]]).real)
        mats = [str(rng.choice(names)), 1.5, complex(2, -.1)]
        u = rng.integers(0, 3, (2, 2, 4)).astype(float)
        got, put = {}, {}
        for be in BACKENDS:
            try:
                with api.quiet():
                    f = getattr(mods[be], 'find_nk_index', None)
                    if f is not None:
                        got[be] = complex(api.to_np(f(nm, tabs[be], wl)))
                    m = api.make(be, dict(n_top=1., n_bot=1., theta=.1, phi=None, pol=0, period=[500., 400.], wavelength=wl, thickness=[100.], fto=[1, 1], ucell=None))
                    f = getattr(m, 'put_refractive_index_in_ucell', None) or getattr(mods[be], 'put_refractive_index_in_ucell', None)
                    if f is not None and i % 10 == 0:
                        put[be] = api.to_np(f(u, mats, wl)) if be == 'numpy' else api.to_np(f(api.to_be(be, u), mats, wl))
            except Exception as e:  # noqa: BLE001
                if not core.from_repo(e):
                    raise
                return rep.fail(f'{be}: {type(e).__name__}: {e}', dict(backend=be, material=nm, wavelength=wl, mats=mats))
            rep.ev((be, nm, wl))
        for what, g in (('find_nk_index', got), ('put_refractive_index_in_ucell', put)):
            for be in g:
                if 'numpy' in g and not api.close(rnp.nan_to_num(rnp.asarray(g[be]), nan=-77.), rnp.nan_to_num(rnp.asarray(g['numpy']), nan=-77.), 1e-6)[0]:
                    return rep.fail(f'{be}: {what} differs from numpy', dict(backend=be, material=nm, wavelength=wl, mats=mats, ucell=u.tolist(),
                                                                            got=api.jsonable(rnp.asarray(g[be])), numpy=api.jsonable(rnp.asarray(g['numpy']))))
    rep.bounded.append(('material lookups across backends', '300 wavelengths (quick)'))


def finding_task(rep):
    """F1 and F19 on their recorded inputs"""
    u = rnp.array([[[1., 2., 1.5], [1., 3., 1.], [2., 1., 1.]]])
    cfg = dict(n_top=1., n_bot=1.5, theta=.3, phi=.4, pol=.3, period=[900., 800.], wavelength=600., ucell=u, thickness=[200.], fto=[1, 1], fourier_type=0)
    rep.ev('F1', n=2)
    a, b = api.run('numpy', cfg)['res']['de_ri'], api.run('torch', cfg)['res']['de_ri']
    if rnp.abs(a - b).max() > 1e-3:
        rep.finding('F1')
    for i in range(12):
        n = round(float(rnp.random.default_rng(i).uniform(1, 3)), 3)
        c = dict(cfg, pol=0, ucell=rnp.full((1, 3, 4), n), wavelength=600. + i)
        rep.ev(('F19', i), n=2)
        a = api.run('numpy', c)['res']['de_ri']
        try:
            b = api.run('numpy', c, type_complex=rnp.complex64)['res']['de_ri']
        except rnp.linalg.LinAlgError:
            rep.finding('F19')
            continue
        if rnp.abs(a - b).max() > 2e-3:
            rep.finding('F19')


def gauge_task(be):
    def t(rep):
        from . import gauge
        gauge.prove_modes(rep, be)
        gauge.prove_gauge(rep, be)
    return t


def tasks(tier):
    out = [('relational[jax]', rel_task), ('relational[torch]', rel_torch), ('lemma', quadrant), ('waves', waves)]
    out += [(f'pinv[{be}]', rel_pinv(be)) for be in BACKENDS]
    out += [(f'fourier[{be}]', fourier.proof_task(be)) for be in BACKENDS] + [(f'materials[{be}]', materials.lookup_proof(be)) for be in BACKENDS]
    out += [(f'gauge[{be}]', gauge_task(be)) for be in BACKENDS]
    for nm, kw in e2e.FORMS:
        for k in range(2):
            out.append((f'agree[torch,{nm},{k}]', e2e.sweep('torch', lambda rng, i, kw=kw: gen(rng, i, **kw), (40, 600), body)))
    out.append(('agree[torch,vector]', e2e.sweep('torch', vgen, (30, 400), body)))
    for s in e2e.SHAPES[:4]:
        for k in range(2):
            out.append((f'agree[jax,{s},{k}]', e2e.sweep('jax', lambda rng, i, s=s: gen(rng, i, shape=s), (8, 80), body)))
    out.append(('agree[jax,vector]', e2e.sweep('jax', lambda rng, i: vgen(rng, i, (2, 1, 2, 2, 1, 1)), (6, 60), body)))
    return out + [('fields', fields), ('tools', tools), ('finding', finding_task)]
