"""C17: gradients are the derivatives of the result."""
import numpy as rnp
from vkit.contract import *
from vkit import api, core, alg, scal, ix, ref
from vkit.scal import S
import importlib, inspect
from types import SimpleNamespace as NS
from . import tm, e2e, c09, c16, gauge

META = dict(title='gradients', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic; round-off is evaluated (AD against difference quotients, tolerance 1e-4)',
    'torch.autograd and jax.grad differentiate their own primitives (products, inverse, exponential, square root, indexing, jax pinv) correctly',
    'perturbation theory of a matrix with simple eigenvalues: the eigenvalues and the eigenvectors up to scale are differentiable (the '
    'first-order equation they satisfy is an obligation of this check, and so is the independence of the scale)'],
            rule='random structures with simple layer eigenvalues, every parameter; raster cells with equal neighbours, objects with distinct edges inside the cell')

GB = ('torch', 'jax')


# ------------------------------------------------------------------ differentiating the real solver
def lib(be):
    if be == 'torch':
        import torch
        return torch
    import meent.on_jax, jax.numpy as jnp
    return jnp


def loss_of(be, r, w):
    """weighted sum of efficiencies"""
    L = lib(be)
    t = 0
    for k, a in w.items():
        x = getattr(r.res, k)
        t = t + (L.as_tensor(a) * x).sum() if be == 'torch' else t + (L.asarray(a) * x).sum()
    return t


def build(be, cfg, p):
    """solver object with the differentiated parameters p (backend values) put in"""
    c = dict(cfg)
    u = c['ucell']
    if isinstance(u, list):
        lay = [[l[0], [list(o) for o in l[1]]] for l in u]
        for k, v in p.items():
            if k[0] == 'obj':
                _, i, j, f = k
                lay[i][1][j][f] = v
            if k[0] == 'base':
                lay[k[1]][0] = v
        c['ucell'] = lay
    else:
        c['ucell'] = p.get(('ucell',), api.to_be(be, u))
    for k in ('thickness', 'theta', 'phi', 'psi', 'pol', 'wavelength', 'period', 'n_top', 'n_bot'):
        if (k,) in p:
            c[k] = p[(k,)]
            if k in ('psi', 'pol'):
                c.pop('pol' if k == 'psi' else 'psi', None)
    kw = {k: c[k] for k in ('n_top', 'n_bot', 'theta', 'phi', 'psi', 'pol', 'period', 'wavelength', 'thickness', 'fto', 'fourier_type', 'enhanced_dfs', 'use_pinv',
                            'perturbation', 'ucell') if k in c}
    return api.meent().call_mee(backend=api.BE[be], **kw)


def value(be, cfg, p, w):
    with api.quiet():
        m = build(be, cfg, p)
        return loss_of(be, m.conv_solve(), w)


def leaf(be, v):
    if be == 'torch':
        import torch
        return torch.tensor(v, dtype=(torch.complex64 if v.itemsize == 8 else torch.complex128) if rnp.iscomplexobj(v) else
                            torch.float32 if getattr(v, 'dtype', None) == rnp.float32 else torch.float64)
    return lib(be).asarray(v)


def ad(be, cfg, p, w):
    """value and gradient of the package (gradient in the convention dL = Re sum conj(g) dx)"""
    if be == 'torch':
        t = {k: leaf(be, v).requires_grad_(True) for k, v in p.items()}
        L = value(be, cfg, t, w)
        L.backward()
        return float(L.detach()), {k: None if x.grad is None else api.to_np(x.grad) for k, x in t.items()}
    import jax
    ks = list(p)
    f = lambda xs: value(be, cfg, dict(zip(ks, xs)), w)
    v, g = jax.value_and_grad(f)([leaf(be, p[k]) for k in ks])
    return float(v), {k: api.to_np(x).conj() for k, x in zip(ks, g)}


def fd(be, cfg, p, w, key, d, h):
    def at(t):
        q = dict(p)
        q[key] = p[key] + t * d
        return float(value(be, cfg, {k: leaf(be, v) for k, v in q.items()}, w))
    c1 = (at(h) - at(-h)) / (2 * h)
    c2 = (at(2 * h) - at(-2 * h)) / (4 * h)
    return (4 * c1 - c2) / 3, abs(c1 - c2)


H = 1e-5             # step of the difference quotients, relative to the size of the parameter


def gap(cfg, be, aniso=False):
    """smallest distance between two eigenvalues of a layer (computed from the package's own matrices)"""
    lay = e2e.own_layers('torch' if aniso else 'numpy', cfg, {})
    kx, ky = e2e.orders(cfg)
    fx, fy = api.fto2(cfg)
    one = not isinstance(cfg['ucell'], list) and rnp.asarray(cfg['ucell']).shape[1] == 1 and fy == 0 and not aniso
    g = rnp.inf
    for ex, ey, ez, _ in lay:
        Kx, Ky = rnp.diag(rnp.tile(kx, 2 * fy + 1)), rnp.diag(rnp.repeat(ky, 2 * fx + 1))
        I = rnp.eye(len(Kx))
        if one:
            lams = [rnp.linalg.eigvals(Kx @ Kx + Ky @ Ky - ey), rnp.linalg.eigvals(ex @ (Kx @ ez @ Kx - I)) + ky[0] ** 2]
        else:
            B, D = Kx @ ez @ Kx - I, Ky @ ez @ Ky - I
            O = rnp.block([[Ky @ Ky + B @ ex, Kx @ (ez @ Ky @ ey - Ky)], [Ky @ (ez @ Kx @ ex - Kx), Kx @ Kx + D @ ey]])
            lams = [rnp.linalg.eigvals(O)]
        for l in lams:
            d = abs(l[:, None] - l[None]) + rnp.where(rnp.eye(len(l)), rnp.inf, 0)
            g = min(g, d.min() if len(l) > 1 else rnp.inf, abs(l).min())
    return g


def params(rng, be, cfg):
    """the differentiated parameters and their values"""
    p = {}
    if isinstance(cfg['ucell'], list):
        for i, (b, objs) in enumerate(cfg['ucell']):
            p[('base', i)] = rnp.array(b)
            for j, o in enumerate(objs):
                for f in range(1, 7 if len(o) > 6 else 6):
                    p[('obj', i, j, f)] = rnp.array(o[f]).reshape(() if f in (1, 2, 5) else (1,))
    else:
        p[('ucell',)] = rnp.asarray(cfg['ucell'])
    p[('thickness',)] = rnp.array(cfg['thickness'], dtype=float)
    for k in ('theta', 'phi', 'wavelength'):
        if cfg.get(k) is not None:
            p[(k,)] = rnp.array(float(cfg[k]))
    p[('period',)] = rnp.array(cfg['period'], dtype=float)
    for k in ('n_top', 'n_bot'):
        p[(k,)] = rnp.array(cfg[k])
    if 'psi' in cfg:
        p[('psi',)] = rnp.array(float(cfg['psi']))
    elif cfg.get('pol') not in (0, 1):
        p[('pol',)] = rnp.array(float(cfg['pol']))
    return p


NAMES = {1: 'cx', 2: 'cy', 3: 'lx', 4: 'ly', 5: 'n_index', 6: 'angle'}


def label(k):
    return f'{NAMES[k[3]]} of an object' if k[0] == 'obj' else 'index of a layer' if k[0] == 'base' else k[0]


def direction(rng, k, v, cfg):
    """random direction, of the size of the parameter"""
    d = rng.normal(size=v.shape)
    if rnp.iscomplexobj(v):
        d = d + 1j * rng.normal(size=v.shape)
    s = max(1., float(rnp.max(rnp.abs(v)))) if k[0] in ('thickness', 'wavelength', 'period') else 1.
    if k[0] == 'obj' and k[3] in (1, 2, 3, 4):
        s = min(cfg['period'])
    return d * s


def dim(cfg):
    return 2 if isinstance(cfg['ucell'], list) or rnp.asarray(cfg['ucell']).shape[1] > 1 or api.fto2(cfg)[1] else 1


def body(rep, be, cfg, some=None):
    rng = rep.rng(repr(cfg['thickness']), repr(cfg['theta']))
    with api.quiet():
        if gap(cfg, be) < 2e-2:
            return False
    p = params(rng, be, cfg)
    fx, fy = api.fto2(cfg)
    w = {k: rng.normal(size=(2 * fy + 1, 2 * fx + 1)) for k in ('de_ri', 'de_ti')}
    data = lambda k: dict(backend=be, config=api.jsonable(cfg), parameter=label(k), loss={a: b.tolist() for a, b in w.items()})
    keys = list(p)
    if some is not None and len(keys) > some:
        keys = [keys[j] for j in sorted(rng.permutation(len(keys))[:some])]
    try:
        v, g = ad(be, cfg, {k: p[k] for k in keys}, w)
        v0 = float(value(be, cfg, {k: leaf(be, p[k]) for k in keys}, w))
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        rep.fail(f'{be}: differentiation raises {type(e).__name__}: {e}'[:300], data(keys[0]))
        return True
    rep.ev((be, api.jsonable(cfg)), sample=dict(backend=be, config=api.jsonable(cfg)))
    if not abs(v - v0) <= 1e-9 * max(1, abs(v0)):
        rep.fail(f'{be}: the value changes when it is differentiated: {v} instead of {v0}', data(keys[0]))
    for k in keys:
        d = direction(rng, k, p[k], cfg)
        f, er = fd(be, cfg, p, w, k, d, H)
        if not rnp.isfinite(f) or er > 1e-4 * max(.1, abs(f)):
            continue                                     # not differentiable here (a jump or a kink), or ill-conditioned
        rep.ev((be, api.jsonable(cfg), str(k)))
        if g[k] is None:
            if abs(f) > 1e-4:
                rep.fail(f'{be}: no gradient for {label(k)} (derivative {f:.6g})', data(k))
            continue
        a = float(rnp.sum(rnp.real(rnp.conj(g[k]) * d)))
        if not abs(a - f) <= 1e-4 * abs(f) + 1e-5 + 10 * er:
            if be == 'jax' and k == ('theta',) and cfg['theta'] == 0 and (cfg.get('phi') is not None or dim(cfg) == 2):
                rep.finding('F28')
                continue
            rep.fail(f'{be}: gradient for {label(k)} gives {a:.8g} along a direction in which the value changes at rate {f:.8g}', data(k))
    if int(1e6 * abs(v0)) % 3 == 0 and be == 'torch':
        single(rep, be, cfg, p, w)
    return True


SINGLE = ('ucell', 'thickness', 'theta', 'phi', 'wavelength', 'period', 'n_top', 'n_bot', 'psi', 'pol')


def single(rep, be, cfg, p, w):
    """parameters given in single precision: the gradient is that of the same values in double precision"""
    import warnings
    lo = lambda v: v.astype(rnp.complex64 if rnp.iscomplexobj(v) else rnp.float32)
    q = {k: lo(rnp.asarray(v)) for k, v in p.items() if k[0] in SINGLE}
    up = {k: v.astype(complex if rnp.iscomplexobj(v) else float) for k, v in q.items()}
    data = lambda k: dict(backend=be, config=api.jsonable(cfg), parameter=label(k), precision='single', loss={a: b.tolist() for a, b in w.items()})
    try:
        v1, g1 = ad(be, cfg, up, w)
        v0, g0 = ad(be, cfg, q, w)
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        return rep.fail(f'{be}: differentiating with parameters in single precision raises {type(e).__name__}: {e}'[:300], data(list(q)[0]))
    for k in q:
        rep.ev((be, api.jsonable(cfg), str(k), 'single'))
        if g0[k] is None:
            if g1[k] is not None and rnp.abs(g1[k]).max() > 1e-4:
                rep.fail(f'{be}: no gradient for {label(k)} given in single precision', data(k))
            continue
        if g1[k] is None:
            continue
        er = rnp.abs(g0[k] - g1[k]).max()
        if not er <= SINGLE_TOL * (1 + rnp.abs(g1[k]).max()):
            rep.fail(f'{be}: the gradient for {label(k)} given in single precision is off by {er:.4g} (largest entry {rnp.abs(g1[k]).max():.4g})', data(k))


SINGLE_TOL = 1e-3


# ------------------------------------------------------------------ inputs
def rnd_geo(rng, i, fto=(1, 1), kinds=('r', 'R', 'e')):
    """objects with distinct edges strictly inside the cell, rotation angles away from the multiples of 90 degrees"""
    cfg = api.rnd_cfg(rng, shape=(2, int(rng.integers(1, 3)), 2, 2, fto[1], fto[0]))
    cfg['fourier_type'] = 2
    P = cfg['period']
    lossy = rng.random() < .5
    lay = []
    for _ in cfg['thickness']:
        objs = []
        for _ in range(int(rng.integers(1, 3))):
            n = round(float(rng.uniform(1.3, 3.2)), 3)
            n = complex(n, -round(float(rng.uniform(.01, .3)), 3)) if lossy else n
            k = rng.choice(kinds)
            if k == 'r':
                cx, lx = float(rng.uniform(.35, .65) * P[0]), float(rng.uniform(.15, .6) * P[0])
                cy, ly = float(rng.uniform(.35, .65) * P[1]), float(rng.uniform(.15, .6) * P[1])
                objs.append(['rectangle', cx, cy, lx, ly, n])
            else:
                lx, ly = [float(x) for x in rng.uniform(.15, .5, 2) * min(P)]
                cx, cy = float(rng.uniform(.45, .55) * P[0]), float(rng.uniform(.45, .55) * P[1])
                ang = float(rng.integers(-2, 3) * rnp.pi / 2 + rng.uniform(.2, 1.3))
                objs.append(['rectangle', cx, cy, lx, ly, n, ang, 2, int(rng.integers(2, 4))] if k == 'R' else ['ellipse', cx, cy, lx, ly, n, ang, 4, 4])
        lay.append([complex(1.2, -.05) if lossy and rng.random() < .3 else float(rng.choice([1., 1.45])), objs])
    cfg['ucell'] = lay
    return polar(rng, i, cfg)


def polar(rng, i, cfg):
    t = i % 4
    if t == 2:
        cfg['pol'] = float(rng.uniform(.1, .9))
    if t == 3:
        cfg['psi'] = float(rng.uniform(0, 1.5))
        cfg.pop('pol', None)
    return cfg


def rnd_raster(rng, i, shape=None, **kw):
    cfg = polar(rng, i, api.rnd_cfg(rng, shape=shape, **kw))
    if i % 5 == 4:
        cfg['theta'] = 0.
    if i % 3 == 1:
        cfg['use_pinv'] = True
    if i % 7 == 3:
        cfg['enhanced_dfs'] = False
    return cfg


def rnd_aniso(rng, i):
    """cells and objects with one index per axis; every second one has three equal values (a common starting point of an optimisation,
    where the derivatives with respect to the three still differ)"""
    same = i % 2 == 0
    spread = lambda v: rnp.stack([v, v, v], -1) * (1 if same else rng.uniform(.85, 1.2, size=v.shape + (3,)))
    if i % 4 == 3:
        cfg = rnd_geo(rng, i, kinds=('r',))
        k = int(rng.integers(len(cfg['ucell'])))
        for o in cfg['ucell'][k][1]:
            o[5] = spread(rnp.array(o[5])).tolist()
        return cfg
    cfg = polar(rng, i // 2, api.rnd_cfg(rng, **(dict(dim=1, conical=True) if i % 8 < 6 else dict(dim=2, fto_max=1))))
    cfg['ucell'] = spread(rnp.asarray(cfg['ucell']))
    return cfg


HA = 1e-3


def aniso_body(rep, be, cfg):
    rng = rep.rng(repr(cfg['thickness']), repr(cfg['theta']))
    with api.quiet():
        if gap(cfg, be, True) < 2e-2:
            return False
    geo = isinstance(cfg['ucell'], list)
    p = {('obj', i, j, 5): rnp.array(o[5]) for i, l in enumerate(cfg['ucell']) for j, o in enumerate(l[1]) if rnp.ndim(o[5])} if geo else {('ucell',): rnp.asarray(cfg['ucell'])}
    fx, fy = api.fto2(cfg)
    w = {k: rng.normal(size=(2 * fy + 1, 2 * fx + 1)) for k in ('de_ri', 'de_ti')}
    data = dict(backend=be, config=api.jsonable(cfg), parameter='refractive index along each axis', loss={a: b.tolist() for a, b in w.items()})
    try:
        v, g = ad(be, cfg, p, w)
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        rep.fail(f'{be}: differentiation of an anisotropic cell raises {type(e).__name__}: {e}'[:300], data)
        return True
    for k in p:
        for axis in range(3):
            d = direction(rng, k, p[k], cfg) * rnp.eye(3)[axis]
            f, er = fd(be, cfg, p, w, k, d, HA)
            if not rnp.isfinite(f) or er > 1e-2 * max(.1, abs(f)):
                continue
            rep.ev((be, api.jsonable(cfg), str(k), axis), sample=dict(backend=be, config=api.jsonable(cfg)))
            a = 0. if g[k] is None else float(rnp.sum(rnp.real(rnp.conj(g[k]) * d)))
            if not abs(a - f) <= 1e-3 * abs(f) + 1e-5 + er / 2:
                rep.fail(f'{be}: gradient for the index along {"xyz"[axis]} gives {a:.8g} along a direction in which the value changes at rate {f:.8g}', data)
    return True


def aniso_task(rep):
    rng = rep.rng()
    cnt = 24 if rep.tier == 'quick' else 200
    done = tried = 0
    while done < cnt and tried < 6 * cnt and len(rep.fails) < 3:
        done += bool(aniso_body(rep, 'torch', rnd_aniso(rng, tried)))
        tried += 1
    rep.bounded.append(('torch: gradients of anisotropic cells against difference quotients', f'{done} random structures'))


def grads(be, gen, n, some=None):
    def t(rep):
        rng = rep.rng()
        cnt = n[0] if rep.tier == 'quick' else n[1]
        done = tried = 0
        while done < cnt and tried < 6 * cnt:
            done += bool(body(rep, be, gen(rng, tried), some))
            tried += 1
            if len(rep.fails) >= 3:
                break
        rep.bounded.append((f'{be}: gradients against difference quotients', f'{done} random structures, every parameter' if some is None else f'{done} random structures, {some} parameters each'))
    return t


# ------------------------------------------------------------------ grad() and fit() of the optimisers
def conv_back(be, x):
    return api.to_np(x)


def opt_task(be):
    def t(rep):
        rng = rep.rng()
        cnt = 6 if rep.tier == 'quick' else 20
        for i in range(cnt if be == 'torch' else cnt // 3):
            cfg = api.rnd_cfg(rng, shape=e2e.SHAPES[i % 3], ft=0 if be == 'jax' else None)      # jax fit() is compiled: raster type 0
            if gap(cfg, be) < 2e-2:
                continue
            fx, fy = api.fto2(cfg)
            w = {k: rng.normal(size=(2 * fy + 1, 2 * fx + 1)) for k in ('de_ri', 'de_ti')}
            p = {('ucell',): rnp.asarray(cfg['ucell']), ('thickness',): rnp.array(cfg['thickness'])}
            pois = ['ucell', 'thickness']
            data = dict(backend=be, config=api.jsonable(cfg), call='grad')
            _, g = ad(be, cfg, p, w)
            lr = 1e-3
            try:
                with api.quiet():
                    m = build(be, cfg, {k: leaf(be, v) for k, v in p.items()})

                    def forward(**kw):
                        for k, v in kw.items():
                            setattr(m, k, v)
                        return m.conv_solve()
                    loss = lambda r: loss_of(be, r, w)
                    got = [{k: api.to_np(v) for k, v in m.grad(pois, forward, loss).items()} for _ in range(2)]
                    if be == 'torch':
                        import torch
                        res = m.fit(pois, forward, loss, torch.optim.SGD, dict(lr=lr), iteration=1)
                        new = dict(zip(pois, [api.to_np(x) for x in res]))
                    else:
                        import optax
                        res = m.fit(pois, forward, loss, optax.sgd(lr), iteration=1)
                        new = {k: api.to_np(v) for k, v in res.items()}
                    after = {k: api.to_np(getattr(m, k)) for k in pois}
                    again = {k: api.to_np(v) for k, v in m.grad(pois, forward, loss).items()}
                    cfg2 = {('ucell',): new['ucell'], ('thickness',): new['thickness']}
                    g2 = ad(be, cfg, cfg2, w)[1]
                    # several steps: each by the gradient at the point the previous one led to
                    m = build(be, cfg, {k: leaf(be, v) for k, v in p.items()})
                    res = m.fit(pois, forward, loss, torch.optim.SGD, dict(lr=lr), iteration=4) if be == 'torch' else m.fit(pois, forward, loss, optax.sgd(lr), iteration=4)
                    far = dict(zip(pois, [api.to_np(x) for x in res])) if be == 'torch' else {k: api.to_np(v) for k, v in res.items()}
                    path = {k: p[k] - lr * g[k] for k in p}
                    for _ in range(3):
                        gs = ad(be, cfg, path, w)[1]
                        path = {k: path[k] - lr * gs[k] for k in p}
            except Exception as e:  # noqa: BLE001
                if not core.from_repo(e):
                    raise
                rep.fail(f'{be}: grad or fit raises {type(e).__name__}: {e}'[:300], data)
                continue
            rep.ev((be, 'grad', api.jsonable(cfg)), n=4)
            cj = (lambda x: x) if be == 'torch' else rnp.conj        # jax: dL = Re sum g dx
            for nm, x in (('first', got[0]), ('second', got[1])):
                for k in pois:
                    if not rnp.allclose(x[k], cj(g[(k,)]), rtol=1e-6, atol=1e-9):
                        rep.fail(f'{be}: {nm} call of grad() differs from the gradient of the loss for {k}', dict(data, parameter=k))
            for k in pois:
                want = p[(k,)] - lr * g[(k,)]
                if not rnp.allclose(new[k], want, rtol=1e-8, atol=1e-10):
                    rep.fail(f'{be}: one step of fit() does not move {k} by minus the learning rate times the gradient', dict(data, call='fit', parameter=k))
                if not rnp.allclose(far[k], path[(k,)], rtol=1e-7, atol=1e-9):
                    rep.fail(f'{be}: four steps of fit() do not follow the gradient for {k}', dict(data, call='fit', iteration=4, parameter=k))
                if not rnp.allclose(after[k], new[k], rtol=1e-12):
                    rep.fail(f'{be}: after fit() the object does not hold the fitted {k}', dict(data, call='fit', parameter=k))
                if not rnp.allclose(again[k], cj(g2[(k,)]), rtol=1e-6, atol=1e-9):
                    rep.fail(f'{be}: grad() after fit() differs from the gradient at the fitted {k}', dict(data, call='fit, grad', parameter=k))
            if len(rep.fails) >= 3:
                break
        rep.bounded.append((f'{be}: grad() and fit() against the gradient of the loss', f'{cnt} random structures'))
    return t


# ------------------------------------------------------------------ proofs
PR = 'meent.on_{}.emsolver.primitives'


def eig_world(be, cplx):
    ix.reset()
    n = scal.S.sym('n', real=True)
    T = lambda nm, *d: ix.tensor(nm, *d)
    w = NS(n=n, W=T('W', n, n), Wi=T('Wi', n, n), gW=T('gW', n, n), lam=T('l', n), gl=T('gl', n), A=T('A', n, n), R=T('R', n, n), g=T('g', n, n),
           pert=S.sym('pert', real=True, pos=True))
    i, j = ix.generic('#i', n), ix.generic('#j', n)
    w.i, w.j = i, j
    forms = [('W', w.W, w.Wi), ('W^H', w.W.T.conj(), w.Wi.T.conj()), ('W^T', w.W.T, w.Wi.T), ('conj W', w.W.conj(), w.Wi.conj())]

    def inv(x, *a, **k):
        for nm, f, r in forms:
            if x.ndim == 2 and x.el(i, j).same(f.el(i, j)):
                return r
        raise Unsupported('inverse of something other than the eigenvector matrix')
    lib_ = lib(be)
    tab = dict(ix.TABLE, is_complex=lambda x: cplx, iscomplexobj=lambda x: cplx, isrealobj=lambda x: not cplx)
    w.extra = ix.extra(be, len=shim.sym_len)
    w.extra['torch' if be == 'torch' else 'jnp'] = ix.Lib(lib_, tab, {'linalg': ix.Lib(lib_.linalg, dict(inv=inv))})
    return w


def eig_rule(be, cplx):
    """the gradient the real rule returns is the adjoint of dlambda_k = P_kk, dW = W (E o P) with P = W^-1 dA W"""
    def run():
        ix.FLAT[0] = True
        try:
            w = eig_world(be, cplx)
            m = importlib.import_module(PR.format(be))
            if be == 'torch':
                E = get_attr(m, 'Eig')
                saved = NS(save_for_backward=lambda *a: setattr(saved, 'saved_tensors', a), mark_non_differentiable=lambda *a: None)
                if hasattr(E, 'setup_context'):
                    shim.sym(E.setup_context, dict(w.extra, Eig=NS(perturbation=w.pert)))(saved, (w.A,), (w.lam, w.W))
                saved.perturbation = w.pert if not isinstance(getattr(saved, 'perturbation', None), S) else saved.perturbation
                r = shim.sym(E.backward, w.extra)(saved, w.gl, w.gW)
            else:
                fwd = getattr(m.eig, 'fwd', None) or m.eig_fwd
                bwd = getattr(m.eig, 'bwd', None) or m.eig_bwd
                out, res = shim.sym(shim.unwrap(fwd), dict(w.extra, eig=lambda *a, **k: (w.lam, w.W)))(w.A, None, w.pert, 'cpu')
                yield 'the forward rule returns the eigen-decomposition', out[0] is w.lam and out[1] is w.W
                r = shim.sym(shim.unwrap(bwd), w.extra)(None, w.pert, 'cpu', res, (w.gl, w.gW))
            r = r[0] if isinstance(r, (tuple, list)) else r
            c = scal.conj if be == 'torch' else (lambda x: x)         # torch: dL = Re sum conj(g) dx, jax: dL = Re sum g dx
            d = lambda k, l: w.lam.el(l) - w.lam.el(k)
            E = lambda k, l: scal.conj(d(k, l)) / (d(k, l) * scal.conj(d(k, l)) + w.pert) * (1 - ix.delta(k, l))
            # dL = Re sum c_kl P_kl
            coef = lambda k, l: ix.delta(k, l) * c(w.gl.el(k)) + E(k, l) * ix.bsum((w.n,), lambda b: c(w.gW.el(b[0], l)) * w.W.el(b[0], k))
            want = ix.bsum((w.n, w.n), lambda b: c(w.Wi.el(b[0], w.i)) * c(coef(b[0], b[1])) * c(w.W.el(w.j, b[1])))
            yield 'shape', len(r.shape) == 2 and all(ix.same(s, w.n) for s in r.shape)
            yield 'entry (i, j)', r.el(w.i, w.j), want if cplx else scal.real(want)
        finally:
            ix.FLAT[0] = False
    return run


def get_attr(m, name):
    try:
        return getattr(m, name)
    except AttributeError:
        raise Unsupported(f'no {name}')


def pinv_rule():
    """RobustPinv: the adjoint of dR = -R dA R"""
    def run():
        ix.FLAT[0] = True
        try:
            w = eig_world('torch', True)
            P = get_attr(importlib.import_module(PR.format('torch')), 'RobustPinv')
            ctx = NS(save_for_backward=lambda *a: setattr(ctx, 'saved_tensors', a))
            shim.sym(P.setup_context, w.extra)(ctx, (w.A,), w.R)
            r = shim.sym(P.backward, w.extra)(ctx, w.g)
            r = r[0] if isinstance(r, (tuple, list)) else r
            c = scal.conj
            # dL = Re sum conj(g_kl) (-R_ki dA_ij R_jl)
            want = -ix.bsum((w.n, w.n), lambda b: c(w.R.el(b[0], w.i)) * w.g.el(b[0], b[1]) * c(w.R.el(w.j, b[1])))
            yield 'entry (i, j)', r.el(w.i, w.j), want
        finally:
            ix.FLAT[0] = False
    return run


def theory(rep):
    """first-order equation of A W = W Lambda in the basis W: P + Lambda C = C Lambda + dLambda, and the effect of the perturbation"""
    lk, ll, P = S.sym('lk'), S.sym('ll'), S.sym('P')
    d = ll - lk

    def run():
        C = P / d
        yield 'k != l: P + lambda_k C = C lambda_l with C = P/(lambda_l - lambda_k)', (P + lk * C) * d, C * ll * d
        yield 'k = l: P + lambda_k 0 = 0 lambda_k + dlambda with dlambda = P', P, P
    prove_run(rep, 'lemma: first-order change of a simple eigenpair', run)

    def run2():
        p = S.sym('pert', real=True, pos=True)
        m = d * scal.conj(d)
        E = scal.conj(d) / (m + p)
        yield 'E d = 1 - pert/(|d|^2 + pert): exact at pert = 0, relative error below pert/|d|^2', (1 - E * d) * (m + p), p
    prove_run(rep, 'lemma: regularised denominators', run2)


def cut_task(rep, be='torch'):
    """nothing on the way from the layer matrices to the efficiencies is taken out of the differentiation graph"""
    for fn, pol, lab, conds in c16.cases():
        a = c16.sargs(fn, pol)

        def run():
            scal.CUTS.clear()
            c16.go(be, fn, a)
            yield 'no value that depends on the arguments is detached', not scal.CUTS
        c16.hooked(rep, f'{be}.{lab}', run, conds(a))


def proof_task(be):
    def t(rep):
        for cplx in (True, False):
            prove_run(rep, f'{be}.eig gradient rule[{"complex" if cplx else "real"} matrix]', eig_rule(be, cplx))
        if be == 'torch':
            prove_run(rep, 'torch.RobustPinv gradient rule', pinv_rule())
        gauge.prove_modes(rep, be)
        gauge.prove_gauge(rep, be)
        if be == 'torch':
            theory(rep)
        cut_task(rep, be)
        rep.functions.update({f'{be}.primitives.Eig' if be == 'torch' else 'jax.primitives.eig'} | {f'{be}.{f}' for f in c16.FNS})
    return t


def finding_task(rep):
    """F28: jax, normal incidence given as theta = 0, conical or 2D: the theta gradient"""
    cfg = dict(n_top=1.5, n_bot=1., theta=0., phi=.85, pol=0, period=[2311., 1234.], wavelength=1063., thickness=[380.], fto=[1, 0], fourier_type=0,
               ucell=rnp.array([[[1.37 - .2j, 1.37 - .22j, 1.37 - .29j, 2.1 - .09j]]]))
    w = {k: rnp.array([[1., -.5, .7]]) for k in ('de_ri', 'de_ti')}
    p = {('theta',): rnp.array(0.)}
    f = fd('jax', cfg, p, w, ('theta',), 1., H)[0]
    a = float(ad('jax', cfg, p, w)[1][('theta',)].real)
    rep.ev(('F28',))
    if not abs(a - f) <= 1e-4 * abs(f) + 1e-5:
        rep.finding('F28')


def tasks(tier):
    out = [(f'proof[{be}]', proof_task(be)) for be in GB]
    for be in GB:
        out.append((f'optimizer[{be}]', opt_task(be)))
    for nm, kw in (('1d', dict(dim=1, conical=False)), ('conical', dict(dim=1, conical=True)), ('2d', dict(dim=2, fto_max=1))):
        out.append((f'raster[torch,{nm}]', grads('torch', lambda rng, i, kw=kw: rnd_raster(rng, i, **kw), (24 if nm != '2d' else 12, 100))))
    out.append(('anisotropic[torch]', aniso_task))
    out.append(('objects[torch]', grads('torch', rnd_geo, (10, 50))))
    out.append(('rectangles[torch]', grads('torch', lambda rng, i: rnd_geo(rng, i, kinds=('r',)), (10, 50))))
    for s in e2e.SHAPES[:4]:
        out.append((f'raster[jax,{s}]', grads('jax', lambda rng, i, s=s: rnd_raster(rng, i, shape=s), (4, 16), 4)))
    out.append(('objects[jax]', grads('jax', rnd_geo, (3, 16), 5)))
    out.append(('rectangles[jax]', grads('jax', lambda rng, i: rnd_geo(rng, i, kinds=('r',)), (3, 16), 5)))
    return out + [('finding', finding_task)]
