"""C13: parameters mean the same however they are given."""
import copy
import numpy as rnp
from vkit.contract import *
from vkit import api, core
from . import e2e, setters

META = dict(title='spellings', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)',
    'contract of array construction, stacking, where and casting in numpy/jax/torch (values preserved)'],
            rule='random structures; every accepted spelling of every parameter, as constructor argument, later assignment and conv_solve keyword; every kind of invalid value')
KW = ('n_top', 'n_bot', 'theta', 'phi', 'psi', 'pol', 'period', 'wavelength', 'thickness', 'fto', 'fourier_type', 'enhanced_dfs', 'ucell', 'type_complex', 'use_pinv',
      'device', 'connecting_algo')


def native(be, v):
    if be == 'torch':
        import torch
        return torch.as_tensor(rnp.array(v))
    if be == 'jax':
        import meent.on_jax, jax.numpy as jnp
        return jnp.array(v)
    return rnp.array(v)


def spell(be, p, v, c):
    """all accepted spellings of value v of parameter p -> list of (label, value)"""
    arr = lambda x: [('ndarray', rnp.array(x)), ('native array', native(be, x))]
    if p == 'fto':
        a, b = api.fto2(c)
        out = [('list', [a, b]), ('tuple', (a, b)), ('floats', [float(a), float(b)])] + arr([a, b]) + [('float ndarray', rnp.array([float(a), float(b)]))]
        if b == 0:
            out += [('int', a), ('float', float(a)), ('list of one', [a]), ('tuple of one', (a,))] + [(l + ' of one', x) for l, x in arr([a])]
            out += [('0-d ndarray', rnp.array(a))] + ([] if be == 'numpy' else [('0-d native', native(be, a))])
        return out
    if p == 'period':
        x, y = api.period2(c)
        out = [('list', [x, y]), ('tuple', (x, y))] + arr([x, y])
        if x == y:
            out += [('float', x), ('list of one', [x]), ('tuple of one', (x,))] + [(l + ' of one', z) for l, z in arr([x])]
            if x == int(x):
                out += [('int', int(x)), ('list of ints', [int(x), int(x)])]
        return out
    if p == 'thickness':
        t = [float(x) for x in v]
        out = [('list', t), ('tuple', tuple(t))] + arr(t)
        if len(t) == 1:
            out += [('float', t[0])] + ([('int', int(t[0]))] if t[0] == int(t[0]) else [])
        return out
    if p in ('theta', 'phi', 'wavelength', 'n_top', 'n_bot'):
        if v is None:
            return [('None', None)]
        out = [('number', v), ('numpy scalar', rnp.array(v)[()])]
        if isinstance(v, float) and v == int(v):
            out.append(('int', int(v)))
        if p in ('n_top', 'n_bot'):
            out += [('complex', complex(v))]
        if p == 'wavelength' or be != 'torch' and p in ('theta', 'phi'):
            out += [('0-d array', native(be, v))]
        return out
    if p == 'ucell':
        u = rnp.asarray(v)
        out = [('ndarray', u)]
        if be != 'numpy':
            out.append(('native', native(be, u)))
        if rnp.isrealobj(u):
            out += [('complex cell', u.astype(complex))]
            if (u == u.round()).all():
                out += [('int64', u.astype(rnp.int64)), ('int32', u.astype(rnp.int32))]
            if (u.astype(rnp.float32) == u).all():
                out += [('float32', u.astype(rnp.float32))]
        elif (u.astype(rnp.complex64) == u).all():
            out += [('complex64', u.astype(rnp.complex64))]
        if be == 'torch':
            import torch
            out = [(l, x if torch.is_tensor(x) else torch.as_tensor(x)) for l, x in out]
        return out
    if p == 'pol':
        return [('number', v), ('float', float(v)), ('0-d ndarray', rnp.array(v)[()])] + ([('int', int(v))] if v == int(v) else [])
    raise KeyError(p)


def extra(be, rng):
    """spellings of the options"""
    import meent
    nat = native(be, [1j]).dtype
    tc = [('0', 0), ('np.complex128', rnp.complex128)] + ([('native', nat)] if be == 'torch' else [])
    return dict(type_complex=tc, device=[('0', 0)] + ([('cpu', 'cpu')] if be != 'numpy' else []), use_pinv=[('False', False)], connecting_algo=[('TMM', 'TMM')])


def base(rng, i):
    c = api.rnd_cfg(rng, fto_max=2, edge=.1, units=False, layers=1 if i % 3 == 0 else None)
    kind = i % 4
    if kind == 0:
        c['ucell'] = rnp.round(c['ucell'].real)
    if kind == 1:
        c['ucell'] = rnp.asarray(c['ucell']).astype(rnp.complex64).astype(complex) if rnp.iscomplexobj(c['ucell']) else c['ucell'].astype(rnp.float32).astype(float)
    if i % 2:
        c['period'] = [c['period'][0]] * 2
    if i % 5 == 0:
        c['period'] = [float(round(x)) for x in c['period']]
        c['wavelength'] = float(round(c['wavelength']))
        c['thickness'] = [float(round(x)) for x in c['thickness']]
    tiny = lambda: float(10. ** -rng.uniform(5, 11))
    if rng.random() < .15:                       # values close to a special one are not that value
        c['ucell'] = c['ucell'] - 1j * tiny()
    if rng.random() < .15 and c['phi'] is not None:
        c['phi'] = tiny()
    if rng.random() < .1:
        c['theta'] = tiny()
    if rng.random() < .1:
        c['thickness'] = [x if rng.random() < .5 else tiny() for x in c['thickness']]
    return c


def build(be, kw):
    return api.meent().call_mee(backend=api.BE[be], **kw)


def results(rep, be, mk, data):
    try:
        with api.quiet():
            m = mk()
            return m, api.pack(m.conv_solve())
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        rep.fail(f'{be}: {type(e).__name__}: {e}', data)
        return None, None


def same(rep, be, a, b, tol, what, data):
    if set(a) != set(b):
        return rep.fail(f'{be}: {what}: result groups {sorted(a)} instead of {sorted(b)}', data)
    for g in b:
        for k in e2e.KEYS:
            ok, err = api.close(a[g][k], b[g][k], tol)
            if not ok:
                return rep.fail(f'{be} {g}.{k}: {what} changes the result by {err}', data)
    return True


def plain(be, cfg):
    """canonical spelling"""
    kw = {k: copy.deepcopy(v) for k, v in cfg.items() if k in KW}
    kw['ucell'] = api.to_be(be, kw['ucell']) if isinstance(kw['ucell'], rnp.ndarray) else kw['ucell']
    return kw


def readback(be, m, p, v, c):
    """value the attribute must read back (None: not checked)"""
    got = getattr(m, p)
    if p == 'fto':
        return [int(x) for x in got] == list(api.fto2(c)) and len(got) == 2
    if p == 'period':
        g = api.to_np(got)
        return g.shape == (2,) and rnp.allclose(g, api.period2(c), rtol=1e-12, atol=0)
    if p == 'thickness':
        g = api.to_np(got)
        return g.shape == (len(v),) and rnp.allclose(g, v, rtol=1e-12, atol=0)
    if p == 'ucell':
        return rnp.array_equal(api.to_np(got), rnp.asarray(v))
    if p == 'pol':
        return abs(complex(got) - v) < 1e-12
    if v is None:
        return got is None
    want = v if not (p == 'theta' and v == 0) else float(m.perturbation)
    return abs(complex(api.to_np(got)) - want) <= 1e-12 * max(1, abs(v))


ORDER = ('fto', 'period', 'thickness', 'theta', 'phi', 'wavelength', 'n_top', 'n_bot', 'ucell', 'pol')


def spelled(rep, be, cfg, tol):
    rng = rep.rng(repr(cfg['thickness']), 'spell')
    mixed_ok = cfg.get('phi') is not None or rnp.asarray(cfg['ucell']).shape[1] > 1
    if mixed_ok and rng.random() < .4:
        cfg = dict(cfg, pol=float(rng.uniform(.05, .95)) if rng.random() < .7 else float(abs(rng.integers(2) - 10. ** -rng.uniform(4, 11))))
    data = dict(backend=be, config=api.jsonable(cfg))
    m, r = results(rep, be, lambda: build(be, plain(be, cfg)), data)
    if r is None:
        return
    # random combination of spellings
    sp = {p: spell(be, p, cfg[p], cfg) for p in ORDER}
    for _ in range(3 if be != 'jax' else 2):
        pick = {p: sp[p][int(rng.integers(len(sp[p])))] for p in ORDER}
        for k, o in extra(be, rng).items():
            if rng.random() < .4:
                pick[k] = o[int(rng.integers(len(o)))]
        lab = {p: l for p, (l, _) in pick.items()}
        vals = {p: copy.deepcopy(x) for p, (_, x) in pick.items()}
        how = ['constructor', 'assignment', 'keywords'][int(rng.integers(3 if be != 'numpy' else 2))]
        usepsi = rng.random() < .4
        if usepsi:
            p = vals.pop('pol')
            psi = rnp.pi / 2 * (1 - float(p))
            vals['psi'] = psi if rng.random() < .6 else native(be, psi) if be != 'torch' else rnp.array(psi)[()]
        d = dict(data, spelling=lab, given_as=how, psi=usepsi)
        order = [k for k in vals]
        order = [order[j] for j in rng.permutation(len(order))]

        def mk():
            if how == 'constructor':
                return build(be, {k: vals[k] for k in order})
            ctor = {k: vals[k] for k in order if k in ('type_complex', 'device', 'use_pinv', 'connecting_algo')}
            mm = build(be, ctor)
            if how == 'assignment':
                for k in order:
                    if k not in ctor:
                        setattr(mm, k, vals[k])
                mm.fourier_type = cfg['fourier_type']
                return mm
            mm.fourier_type = cfg['fourier_type']
            f = mm.conv_solve
            mm.conv_solve = lambda: f(**{k: vals[k] for k in order if k not in ctor})
            return mm
        if how == 'constructor':
            vals['fourier_type'] = cfg['fourier_type']
            order.append('fourier_type')
        m2, r2 = results(rep, be, mk, d)
        if r2 is None:
            return
        if not same(rep, be, r2, r, 1e-9 if not usepsi else 1e-7, f'{lab} given as {how}{", psi" if usepsi else ""}', d):
            return
        for p in ORDER:
            ok = False
            try:
                ok = readback(be, m2, p, cfg[p], cfg)
            except (TypeError, ValueError, IndexError, AttributeError):
                pass
            if not ok:
                return rep.fail(f'{be}: {p} given as {lab.get(p)} ({how}) reads back as {getattr(m2, p)!r:.200}', d)


BAD = dict(pol=[('-0.1', -.1), ('1.1', 1.1), ('2', 2), ('1.01', 1.01), ('-0.01', -.01), ('-1', -1)],
           fto=[('three orders', [1, 2, 3]), ('array of three', rnp.array([1, 2, 3])), ('string', 'ab'), ('None', None), ('empty list', []), ('dict', {1: 2})],
           period=[('string', 'abc'), ('None', None), ('dict', {})],
           thickness=[('string', 'abc'), ('None', None), ('dict', {})],
           ucell=[('number', 1.5), ('string', 'abc'), ('tuple', ([1, 2],)), ('dict', {})],
           type_complex=[('2', 2), ('float64', rnp.float64), ('string', 'abc')])


def reject(rep, be, cfg, tol):
    """invalid values raise, and the object keeps computing what it computed before"""
    rng = rep.rng(repr(cfg['thickness']), 'bad')
    data = dict(backend=be, config=api.jsonable(cfg))
    m, r = results(rep, be, lambda: build(be, plain(be, cfg)), data)
    if r is None:
        return
    todo = [(p, l, v) for p, c in BAD.items() for l, v in c]
    todo = [todo[j] for j in rng.permutation(len(todo))[:6 if be != 'jax' else 8]]
    for p, l, v in todo:
        d = dict(data, invalid=[p, l])
        try:
            with api.quiet():
                setattr(m, p, v)
        except Exception:  # noqa: BLE001
            pass
        else:
            return rep.fail(f'{be}: {p} = {l} is accepted', d)
        try:
            with api.quiet():
                mm = build(be, dict(plain(be, cfg), **{p: v}))
                mm.conv_solve()
        except Exception:  # noqa: BLE001
            pass
        else:
            return rep.fail(f'{be}: call_mee({p}={l}) is accepted', d)
        for q in ORDER:
            if not readback(be, m, q, cfg[q], cfg):
                return rep.fail(f'{be}: after refusing {p} = {l}, {q} reads {getattr(m, q)!r:.200}', d)
    _, r2 = results(rep, be, lambda: m, data)
    if r2 is None:
        return
    same(rep, be, r2, r, 1e-12, f'refused values {[(p, l) for p, l, _ in todo]}', data)


def misc(rep):
    """unknown backends, series and connection algorithms are refused"""
    cfg = dict(n_top=1., n_bot=1.5, theta=.3, phi=None, pol=0, period=[900., 800.], wavelength=600., ucell=rnp.array([[[1., 2., 1.5, 1.]]]), thickness=[200.], fto=[1, 0], fourier_type=0)
    for what, be, over in [('backend 3', 3, {}), ('backend -1', -1, {}), ('backend "numpy"', 'numpy', {})] + \
            [(f'fourier_type {ft}', b, dict(fourier_type=ft)) for b in BACKENDS for ft in (2, -1, None, 'abc')] + \
            [(f'connecting_algo {ca}', b, dict(connecting_algo=ca)) for b in BACKENDS for ca in ('XYZ', None)] + \
            [(f'cell with {u.ndim} axes', 'torch', dict(ucell=u)) for u in (rnp.ones((2, 3)), rnp.ones((1, 1, 3, 2)))]:
        rep.ev(('misc', what, str(be)))
        try:
            with api.quiet():
                c = dict(cfg, **over)
                if be in api.BE:
                    m = build(be, dict(plain(be, c))) if not (what == 'backend "numpy"') else api.meent().call_mee(backend='numpy', **plain('numpy', c))
                else:
                    m = api.meent().call_mee(backend=be, **plain('numpy', c))
                r = m.conv_solve()
        except Exception:  # noqa: BLE001
            continue
        rep.fail(f'{be}: {what} is accepted and returns {type(r).__name__}', dict(backend=be, over=api.jsonable(over)))
    for be in ('jax', 'torch'):
        for dv in (0, 'cpu'):
            rep.ev(('device', be, str(dv)))
            try:
                a, b = build(be, dict(device=dv)), build(be, {})
                b.device = dv
            except Exception as e:  # noqa: BLE001
                rep.fail(f'{be}: device={dv!r} is refused: {type(e).__name__}: {e}', dict(backend=be, device=dv))
                continue
            if a.device != b.device or 'cpu' not in str(a.device).lower():
                rep.fail(f'{be}: device={dv!r} reads {a.device} / {b.device}', dict(backend=be, device=dv))
    # fto and period of one element, documented meaning
    for be in BACKENDS:
        for v, w in ((4, [4, 0]), ([4], [4, 0]), ((2., 1.), [2, 1])):
            rep.ev(('fto', be, str(v)))
            m = build(be, dict(fto=v))
            if list(m.fto) != w:
                rep.fail(f'{be}: fto={v!r} reads {m.fto}', dict(backend=be))
        for v in (3., [3.], (3.,), rnp.array([3.])):
            rep.ev(('period', be, repr(v)))
            m = build(be, dict(period=v))
            if not rnp.array_equal(api.to_np(m.period), [3., 3.]):
                rep.fail(f'{be}: period={v!r} reads {m.period}', dict(backend=be))
        for p in (0, 1, .25, 1 / 3, .5):
            rep.ev(('polpsi', be, p))
            a, b = build(be, dict(pol=p)), build(be, dict(psi=rnp.pi / 2 * (1 - p)))
            if abs(complex(a.psi) - complex(b.psi)) > 1e-12 or abs(complex(a.pol) - complex(b.pol)) > 1e-12:
                rep.fail(f'{be}: pol={p} and psi=(1-p)pi/2 differ: {a.psi}, {b.psi}, {a.pol}, {b.pol}', dict(backend=be, pol=p))


def tasks(tier):
    out = [(f'proof[{be}]', setters.task(be)) for be in BACKENDS] + [(f'formulation[{be}]', setters.dispatch_task(be)) for be in BACKENDS]
    for be in ('numpy', 'torch'):
        out += [(f'spellings[{be},{f}]', e2e.sweep(be, base, (80, 1000), spelled)) for f in 'abc']
        out.append((f'invalid[{be}]', e2e.sweep(be, lambda rng, i: api.rnd_cfg(rng, fto_max=1, edge=.1, units=False), (50, 500), reject)))
    for s in e2e.SHAPES[:4]:
        def g(rng, i, s=s):
            c = base(rng, i)
            return dict(api.rnd_cfg(rng, shape=s, edge=.05, units=False), period=c['period'], wavelength=c['wavelength'])
        out.append((f'spellings[jax,{s}]', e2e.sweep('jax', g, (6, 80), spelled)))
    out.append(('invalid[jax]', e2e.sweep('jax', lambda rng, i: api.rnd_cfg(rng, shape=e2e.SHAPES[1]), (8, 100), reject)))
    return out + [('misc', misc)]
