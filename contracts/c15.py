"""C15: results depend only on the current parameters."""
import copy
import numpy as rnp
from vkit.contract import *
from vkit import api, core
from . import e2e, history, solve
from .c09 import rnd_layer

META = dict(title='history independence', assumptions=[
    'contract of array construction, stacking, where and casting in numpy/jax/torch (values preserved)',
    'library functions do not modify their arguments unless documented (out=, in-place methods)',
    'single-threaded use'],
            rule='random histories of 6 to 14 operations on one to three solver objects; after every solve or field call the same call on a freshly built object with the current parameters is the oracle, and every object the caller handed over must be unchanged')
PAR = ('n_top', 'n_bot', 'theta', 'phi', 'pol', 'psi', 'period', 'wavelength', 'thickness', 'fto', 'fourier_type', 'enhanced_dfs', 'use_pinv', 'ucell')


def vec(rng, per, nl):
    u = [rnd_layer(rng, per, ('r', 'r', 'R', 'e'), 3, bool(rng.integers(2))) for _ in range(nl)]
    for l in u:
        if not l[1]:
            l[1] = [['rectangle', per[0] * .5, per[1] * .5, per[0] * .4, per[1] * .3, 2.5, 0, 1, 1]]
    return u


def rnd(rng, be):
    """a complete set of parameters"""
    sh = e2e.SHAPES[int(rng.integers(4))] if be == 'jax' else None
    c = api.rnd_cfg(rng, shape=sh, edge=.08, units=False, fto_max=2, mixed=bool(rng.integers(2)), layers=None if sh else int(rng.integers(1, 3)))
    c['enhanced_dfs'] = bool(rng.random() < .8)
    c['use_pinv'] = bool(rng.random() < .2) and be != 'jax'
    if rng.random() < (.1 if be == 'jax' else .3):
        c['ucell'] = vec(rng, c['period'], len(c['thickness']))
    elif be == 'torch' and rng.random() < .25:
        u = c['ucell']
        c['ucell'] = rnp.stack([u, u * rng.choice([1., 1.2]), u * rng.choice([1., .9])], -1)
    return c


def value(be, p, v, rng):
    """the value in one of its spellings, owned by the caller"""
    if p == 'ucell':
        return api.to_be(be, v)
    if p in ('period', 'thickness', 'fto') and rng.random() < .5:
        v = [rnp.array, tuple, list][int(rng.integers(3))](v)
        if be != 'numpy' and isinstance(v, rnp.ndarray) and rng.random() < .5 and p != 'fto':
            v = api.to_be(be, v)
        return v
    return copy.deepcopy(v)


def snap(v):
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(snap(x) for x in v)
    if hasattr(v, 'shape'):
        return rnp.array(api.to_np(v))
    return copy.deepcopy(v)


def unchanged(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(unchanged(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(b, rnp.ndarray):
        a = api.to_np(a)
        return a.shape == b.shape and a.dtype == b.dtype and rnp.array_equal(a, b, equal_nan=True)
    return a == b and type(a) is type(b)


class Actor:
    """a solver object, the parameters it should have and everything the caller handed over"""

    def __init__(self, be, c, rng):
        self.be, self.c, self.rng = be, {k: v for k, v in c.items() if k in PAR}, rng
        self.held = []
        self.log = [('create', api.jsonable(self.c))]
        kw = {k: self.give(k, v) for k, v in self.c.items()}
        with api.quiet():
            self.m = api.meent().call_mee(backend=api.BE[be], **kw)
        self.solved = False

    def give(self, p, v):
        v = value(self.be, p, v, self.rng)
        self.held.append((p, v, snap(v)))
        return v

    def setp(self, p, v):
        self.log.append(('assign', p, api.jsonable(v)))
        self.c[p] = v
        if p == 'pol':
            self.c.pop('psi', None)
        if p == 'psi':
            self.c.pop('pol', None)
        x = self.give(p, v)
        with api.quiet():
            setattr(self.m, p, x)
        self.solved = False

    def fresh(self):
        c = dict(self.c)
        with api.quiet():
            return api.make(self.be, c)

    def intact(self):
        for p, v, s in self.held:
            if not unchanged(v, s):
                return p, v, s
        return None

    def release(self, *ps):
        """values the caller itself edits from now on"""
        self.held = [h for h in self.held if h[0] not in ps]


def packed(r):
    return {f'{g}.{k}': v for g, d in api.pack(r).items() for k, v in d.items()}


def solve_op(a, m, how, res):
    """one call; returns dict of arrays"""
    if how == 'conv_solve':
        return packed(m.conv_solve())
    rx, ry, rz, sel = res
    if how == 'calculate_field':
        return {'field': api.to_np(m.calculate_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel))}
    if a.be == 'jax':
        r = m.conv_solve_field_no_jit(rx, ry, rz, sel)
        return {'de_ri': api.to_np(r[0]), 'de_ti': api.to_np(r[1]), 'field': api.to_np(r[2])}
    r = m.conv_solve_field(rx, ry, rz, sel)
    return dict(packed(r[0]), field=api.to_np(r[1]))


def compare(rep, acts, a, how, res, kw=None):
    data = dict(backend=a.be, history=[x.log for x in acts], parameters=api.jsonable(a.c))
    try:
        with api.quiet():
            f = a.fresh()
            if how == 'calculate_field':
                f.conv_solve()
            want = solve_op(a, f, how, res)
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        want = e
    try:
        with api.quiet():
            if kw:
                r = a.m.conv_solve(**kw)
                got = packed(r)
            else:
                if how == 'calculate_field' and not a.solved:
                    a.m.conv_solve()
                got = solve_op(a, a.m, how, res)
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        got = e
    a.log.append((how if not kw else 'conv_solve(**kwargs)',))
    a.solved = True
    if isinstance(want, Exception) or isinstance(got, Exception):
        if type(want) is not type(got):
            rep.fail(f'{a.be}: {how} after a history gives {got!r:.150}, on a fresh object {want!r:.150}', data)
            return False
        rep.raised = getattr(rep, 'raised', 0) + 1
        return True
    for k, v in want.items():
        if k not in got:
            rep.fail(f'{a.be}: {how}: {k} is missing after a history', data)
            return False
        if not rnp.all(rnp.isfinite(v)):
            continue
        ok, err = api.close(got[k], v, 1e-9)
        if not ok:
            rep.fail(f'{a.be}: {how}: {k} differs from a fresh object with the same parameters by {err}', data)
            return False
    for b in acts:
        t = b.intact()
        if t is not None:
            rep.fail(f'{a.be}: {how} changed the {t[0]} the caller passed in: {t[2]!r:.200} became {t[1]!r:.200}', data)
            return False
    return True


def new_value(be, a, p, rng):
    c = rnd(rng, be)
    if p == 'psi':
        return float(rng.uniform(0, 1.5))
    if p == 'fto':
        return list(c['fto']) if be != 'jax' else [int(rng.integers(1, 3)), a.c['fto'][1]]
    if p == 'thickness':
        return [float(t) for t in rng.uniform(20, 400, len(a.c['thickness']))]
    if p == 'ucell':
        u = a.c['ucell']
        nl = len(a.c['thickness'])
        t = rng.random()
        if isinstance(u, list):
            if t < .5:
                return vec(rng, a.c['period'], nl)
            return rng.uniform(1, 3, (nl, int(rng.choice([1, 2])), 3)).round(2)
        if t < .12 and be != 'jax':
            return vec(rng, a.c['period'], nl)
        if t < .6:                              # same shape, other values
            return (rng.uniform(1, 3, u.shape).round(2)).astype(u.dtype)
        if t < .75:                             # one pixel
            v = rnp.array(u)
            v[tuple(int(rng.integers(k)) for k in u.shape)] += .25
            return v
        if be == 'torch' and t < .85:
            w = rng.uniform(1, 3, (nl,) + u.shape[1:3]).round(2)
            return rnp.stack([w, w, w * rng.choice([1., 1.3])], -1)
        sh = (nl, u.shape[1] if be == 'jax' else int(rng.choice([1, u.shape[1], 3])), u.shape[2] if be == 'jax' else int(rng.integers(1, 6)))
        return rng.uniform(1, 3, sh).round(2) - (0 if rng.random() < .5 else .1j)
    return c.get(p, a.c.get(p))


def inplace(a, rng):
    """the user edits a parameter of the object in place"""
    p = str(rng.choice(['ucell', 'thickness', 'period']))
    v = getattr(a.m, p)
    x = float(rng.uniform(1.2, 2.8))
    if p == 'ucell' and isinstance(v, list):
        i = int(rng.integers(len(v)))
        a.release('ucell')
        a.c['ucell'] = copy.deepcopy(a.c['ucell'])
        v[i][0] = x
        a.c['ucell'][i][0] = x
    elif p == 'ucell':
        k = tuple(int(rng.integers(n)) for n in v.shape)
        a.release('ucell')
        try:
            v[k] = x
        except TypeError:
            return
        u = rnp.array(a.c['ucell'])
        u[k] = x
        a.c['ucell'] = u
    else:
        i = int(rng.integers(len(a.c[p])))
        x *= 300
        a.release(p)
        try:
            v[i] = x
        except TypeError:
            return
        a.c[p] = [x if j == i else y for j, y in enumerate(a.c[p])]
    a.log.append(('edit in place', p, x))
    a.solved = False


INVALID = [('pol', 1.5), ('pol', -1), ('fto', [1, 2, 3]), ('fto', 'abc'), ('period', 'abc'), ('thickness', {}), ('ucell', 'abc'), ('ucell', 1.5)]


def step(rep, acts, rng, be):
    a = acts[int(rng.integers(len(acts)))]
    t = rng.random()
    res = (int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3)), (True, bool(rng.integers(2)), False))
    ps = [p for p in PAR if p in a.c and p != 'use_pinv'] + ['psi']
    if t < .3:
        p = ps[int(rng.integers(len(ps)))]
        a.setp(p, new_value(be, a, p, rng))
    elif t < .36:                               # structure with another number of layers
        c = rnd(rng, be)
        for p in rng.permutation(['ucell', 'thickness', 'fto', 'period']):
            a.setp(str(p), c[str(p)])
    elif t < .44:                               # away and back
        p = ps[int(rng.integers(len(ps)))]
        old = a.c.get(p)
        if p in ('pol', 'psi'):
            return True
        a.setp(p, new_value(be, a, p, rng))
        if rng.random() < .5:
            try:
                with api.quiet():
                    a.m.conv_solve()
            except Exception:  # noqa: BLE001
                pass
            a.log.append(('conv_solve',))
        a.setp(p, old)
    elif t < .5:
        inplace(a, rng)
    elif t < .55:                               # a failed call in between
        a.log.append(('failed solve',))
        with api.quiet():
            old = a.m.connecting_algo
            a.m.connecting_algo = 'SMM'
            try:
                a.m.conv_solve()
            except Exception:  # noqa: BLE001
                pass
            a.m.connecting_algo = old
        a.solved = False
    elif t < .6:
        p, v = INVALID[int(rng.integers(len(INVALID)))]
        a.log.append(('refused', p, str(v)))
        try:
            with api.quiet():
                setattr(a.m, p, v)
        except Exception:  # noqa: BLE001
            return True
        a.setp(p, a.c.get(p, 0))
    elif t < .68 and be != 'numpy':
        kw = {}
        for p in rng.permutation(['theta', 'wavelength', 'thickness', 'n_top', 'ucell', 'pol'])[:2]:
            p = str(p)
            v = new_value(be, a, p, rng)
            a.c[p] = v
            if p == 'pol':
                a.c.pop('psi', None)
            kw[p] = a.give(p, v)
            a.log.append(('keyword', p, api.jsonable(v)))
        return compare(rep, acts, a, 'conv_solve', res, kw)
    else:
        how = ['conv_solve', 'conv_solve', 'calculate_field', 'conv_solve_field'][int(rng.integers(4))]
        return compare(rep, acts, a, how, res)
    return True


def histories(be, n):
    def t(rep):
        rng = rep.rng()
        cnt = n[0] if rep.tier == 'quick' else n[1]
        for i in range(cnt):
            acts = [Actor(be, rnd(rng, be), rng) for _ in range(int(rng.integers(1, 4)) if be != 'jax' else 2)]
            rep.ev((be, [x.log for x in acts], i), sample=dict(backend=be, first=acts[0].log) if i == 0 else None)
            good = True
            for _ in range(int(rng.integers(6, 15))):
                good = step(rep, acts, rng, be)
                rep.ev()
                if not good:
                    break
            if good:
                for a in acts:
                    good = compare(rep, acts, a, 'conv_solve', None) and compare(rep, acts, a, 'calculate_field', (2, 2, 2, (True, True, True)))
                    if not good:
                        break
            if len(rep.fails) >= 3:
                break
        rep.bounded.append((f'{be}: random histories compared with fresh objects', f'{cnt} histories, {getattr(rep, "raised", 0)} of the calls refused by both objects'))
    return t


def toolbox(be, n):
    """drawing, materials and the Fourier functions: repeatable, and what they are given stays as it was"""
    def t(rep):
        import importlib
        rng = rep.rng()
        mod = importlib.import_module(f'meent.on_{be}.modeler.modeling')
        cm = importlib.import_module(f'meent.on_{be}.emsolver.convolution_matrix')
        with api.quiet():
            table = mod.read_material_table()
        names = sorted(table)
        for i in range(n[0] if rep.tier == 'quick' else n[1]):
            per = [float(x) for x in rng.uniform(300, 900, 2)]
            with api.quiet():
                m = api.make(be, dict(n_top=1., n_bot=1., theta=.1, phi=None, pol=0, period=per, wavelength=500., thickness=[100.], fto=[1, 1], ucell=None))
                lay = rnd_layer(rng, per, ('r', 'r', 'R', 'e'), 4)
                objs = []
                for o in lay[1]:
                    objs += m.rectangle(*o[1:]) if o[0] == 'rectangle' else m.ellipse(*o[1:])
                wl = float(rng.uniform(400, 800))
                mats = [str(rng.choice(names)), 1.5, complex(2, -.1), str(rng.choice(names))][:int(rng.integers(2, 5))]
                u = rng.integers(0, len(mats), (2, 2, 4)).astype(float)
                nm = str(rng.choice(names))
                cell = api.to_be(be, rng.uniform(1, 3, (2, 2, 3)) - (0j if rng.random() < .5 else .2j))
                args = dict(draw=([[lay[0], objs]],), modeling_vector_instruction=([lay],), put_refractive_index_in_ucell=(u, mats, wl), find_nk_index=(nm, table, wl),
                            to_conv_mat_raster_discrete=(cell, 1, 1), to_conv_mat_raster_continuous=(cell, 1, 1))
            for f, a in args.items():
                fn = getattr(cm, f, None) or getattr(m, f, None) or getattr(mod, f, None)
                if fn is None or f == 'draw' and not objs:
                    continue
                rep.ev((be, f, i))
                data = dict(backend=be, function=f, args=api.jsonable(snap(a)) if f != 'find_nk_index' else [nm, wl])
                s = snap(a)
                try:
                    with api.quiet():
                        r1 = back(fn(*a))
                        if not unchanged(a, s):
                            return rep.fail(f'{be}: {f} changes what the caller passed in', data)
                        keep = snap(r1)
                        r2 = back(fn(*a))
                except Exception as e:  # noqa: BLE001
                    if not core.from_repo(e):
                        raise
                    return rep.fail(f'{be}: {f} raises {type(e).__name__}: {e}', data)
                if not unchanged(a, s):
                    return rep.fail(f'{be}: {f} changes what the caller passed in', data)
                if not (near(keep, r2) and near(r1, keep)):
                    return rep.fail(f'{be}: {f} called twice gives different results', data)
        rep.bounded.append((f'{be}: repeated tool calls', f'{n}'))
    return t


def near(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return rnp.shape(a) == rnp.shape(b) and rnp.allclose(a, b, rtol=1e-12, atol=1e-13, equal_nan=True)


def eig_state(rep):
    """torch: the gradient of one object does not depend on what other objects ran before the backward pass"""
    import torch
    rng = rep.rng()
    for i in range(6):
        c = api.rnd_cfg(rng, dim=1 + i % 2, lossy=True, fto_max=2, layers=1)
        c['fourier_type'] = 0
        g = []
        for other in (False, True):
            with api.quiet():
                a, b = api.make('torch', c, perturbation=1e-10), api.make('torch', c, perturbation=.3, theta=.77)
                u = api.to_be('torch', c['ucell']).clone().requires_grad_(True)
                a.ucell = u
                r = a.conv_solve().de_ri.sum()
                if other:
                    b.conv_solve()
                r.backward()
            g.append(u.grad.clone())
        rep.ev(('eig state', i))
        if not torch.allclose(g[0], g[1], rtol=1e-8, atol=1e-12):
            return rep.fail('torch: a gradient depends on another solver object having run before the backward pass', dict(backend='torch', config=api.jsonable(c)))


def tasks(tier):
    out = [(f'proof[{be}]', history.task(be)) for be in BACKENDS] + [(f'effects[{be}]', lambda rep, be=be: history.prove_effects(rep, be)) for be in BACKENDS]
    out += [(f'driver[{be}]', lambda rep, be=be: [solve.prove_solve(rep, be, f) for f in ('1d', '1d_conical', '2d')]) for be in BACKENDS]
    for be in ('numpy', 'torch'):
        out += [(f'histories[{be},{k}]', histories(be, (25, 300))) for k in 'abc']
        out.append((f'tools[{be}]', toolbox(be, (25, 300))))
    out += [(f'histories[jax,{k}]', histories('jax', (4, 40))) for k in 'abcd']
    out.append(('tools[jax]', toolbox('jax', (6, 60))))
    out.append(('gradients[torch]', eig_state))
    return out
