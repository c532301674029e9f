"""C09: vector modelling paints objects in order."""
import numpy as rnp
from vkit.contract import *
from vkit import api, core, ref
from . import e2e, vector

META = dict(title='vector modelling', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)',
    'the 1e-14 relative displacement of coincident edges is treated as zero (it is below every tolerance used)',
    'objects lie inside the unit cell (precondition)'],
    rule='random lists of 0-5 rectangles (also rotated) and ellipses, on a coarse lattice (coincident, touching, nested, border edges) or anywhere')
MODT = 'meent.on_{}.modeler.modeling'


# ------------------------------------------------------------------ reference: the painter's algorithm
def paint(base, rects, period):
    """rects: (x0, x1, y0, y1, n) in painting order -> grid, right ends"""
    tol = 1e-9 * max(period)

    def edges(v, p):
        out = [0.]
        for e in sorted(v):
            if tol < e < p - tol and e > out[-1] + tol:
                out.append(e)
        return rnp.array(out + [p])
    xs = edges([v for r in rects for v in r[:2]], period[0])
    ys = edges([v for r in rects for v in r[2:4]], period[1])
    cx, cy = (xs[1:] + xs[:-1]) / 2, (ys[1:] + ys[:-1]) / 2
    g = rnp.full((len(cy), len(cx)), complex(base))
    for x0, x1, y0, y1, n in rects:
        g[rnp.ix_((cy > y0) & (cy < y1), (cx > x0) & (cx < x1))] = n
    return g, xs[1:], ys[1:]


def strips(cx, cy, lx, ly, n, angle, nt, npar):
    """rotated rectangle as horizontal strips of the mean width (exact for multiples of 90 degrees)"""
    a = angle % (2 * rnp.pi)
    q = a / (rnp.pi / 2)
    if abs(q - round(q)) * rnp.pi / 2 <= 1e-5:
        w, h = (lx, ly) if round(q) % 2 == 0 else (ly, lx)
        return [(cx - w / 2, cx + w / 2, cy - h / 2, cy + h / 2, n)]
    c, s = rnp.cos(a), rnp.sin(a)
    V = [(cx + c * u - s * v, cy + s * u + c * v) for u, v in ((lx / 2, ly / 2), (lx / 2, -ly / 2), (-lx / 2, -ly / 2), (-lx / 2, ly / 2))]
    yv = sorted((p[1] for p in V), reverse=True)

    def span(y):
        xs = []
        for (xa, ya), (xb, yb) in zip(V, V[1:] + V[:1]):
            if min(ya, yb) <= y <= max(ya, yb) and ya != yb:
                xs.append(xa + (xb - xa) * (y - ya) / (yb - ya))
        return min(xs), max(xs)
    out = []
    for top, bot, k in ((yv[0], yv[1], nt), (yv[1], yv[2], npar), (yv[2], yv[3], nt)):
        for i in range(k):
            y1, y0 = top - (top - bot) * i / k, top - (top - bot) * (i + 1) / k
            if y1 - y0 > 0:
                xl, xr = span((y0 + y1) / 2)
                out.append((xl, xr, y0, y1, n))
    return out


def num(v):
    return float(rnp.real(api.to_np(v) if not isinstance(v, (int, float, complex)) else v).reshape(-1)[0]) if not isinstance(v, (int, float, complex)) else float(rnp.real(v))


def rects_of(layer, m=None):
    out = []
    for o in layer[1]:
        if o[0] == 'rectangle':
            out += strips(*(list(o[1:]) + [0, 2, 2][len(o) - 6:]))
        else:
            with api.quiet():
                out += [(num(a[1]), num(b[1]), num(a[0]), num(b[0]), complex(o[5])) for a, b, _ in m.ellipse(*o[1:])]
    return out


def rnd_layer(rng, period, kinds=('r',), nmax=5, lossy=False):
    base = float(rng.choice([1., 1.45, 2.]))
    objs = []
    for _ in range(int(rng.integers(0, nmax + 1))):
        n = round(float(rng.uniform(1, 3.5)), 2)
        n = complex(n, -round(float(rng.uniform(0, .5)), 2)) if lossy and rng.random() < .5 else n
        k = rng.choice(kinds)
        if k == 'r':
            if rng.random() < .6:
                G = int(rng.choice([4, 5, 8]))
                x0, x1 = sorted(rng.choice(G + 1, 2, replace=False) * period[0] / G)
                y0, y1 = sorted(rng.choice(G + 1, 2, replace=False) * period[1] / G)
            else:
                x0, x1 = sorted(rng.uniform(0, period[0], 2))
                y0, y1 = sorted(rng.uniform(0, period[1], 2))
            o = ['rectangle', float(x0 + x1) / 2, float(y0 + y1) / 2, float(x1 - x0), float(y1 - y0), n]
            if rng.random() < .5:
                q = int(rng.integers(0, 4))
                if q % 2:
                    o[3], o[4] = o[4], o[3]
                o += [q * rnp.pi / 2 if q else 0, int(rng.integers(0, 5)), int(rng.integers(0, 5))]
            objs.append(o)
        else:
            lim = min(period) * .9
            lx, ly = rng.uniform(.1, .65, 2) * lim
            ang = float(rng.uniform(-7, 7))
            d = rnp.hypot(lx, ly) / 2
            cx, cy = rng.uniform(d, period[0] - d), rng.uniform(d, period[1] - d)
            if k == 'R':
                objs.append(['rectangle', float(cx), float(cy), float(lx), float(ly), n, ang, int(rng.integers(1, 6)), int(rng.integers(1, 6))])
            else:
                ns = int(rng.integers(4, 14))
                if rng.random() < .4:
                    ang = float(rng.integers(0, 4)) * rnp.pi / 2
                objs.append(['ellipse', float(cx), float(cy), float(lx), float(ly), n, ang, ns, ns])
    return [base, objs]


def rnd_vcfg(rng, i, kinds=('r',), shape=None, nmax=5):
    cfg = api.rnd_cfg(rng, shape=shape or (2, int(rng.integers(1, 3)), 2, 2, int(rng.integers(0, 3)), int(rng.integers(0, 3))), edge=.05)
    cfg['fourier_type'] = 2
    lossy = bool(rng.random() < .5)
    cfg['ucell'] = [rnd_layer(rng, cfg['period'], kinds, nmax, lossy) for _ in cfg['thickness']]
    return cfg


def with_ref(be, cfg):
    m = None
    if any(o[0] == 'ellipse' for l in cfg['ucell'] for o in l[1]):
        with api.quiet():
            m = api.make(be, cfg)
    return dict(cfg, ref_layers=[paint(l[0], rects_of(l, m), cfg['period']) for l in cfg['ucell']])


def strip_ref(cfg):
    return {k: v for k, v in cfg.items() if k != 'ref_layers'}


def body(rep, be, cfg, tol):
    try:
        full = with_ref(be, cfg)
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        return rep.fail(f'{be}: drawing raises {type(e).__name__}: {e}', dict(backend=be, config=api.jsonable(cfg)))
    r = e2e.call(rep, be, cfg)
    if r is None:
        return
    e = api.expected(full, be)
    e2e.match(rep, be, cfg, r['res'], e, tol, e2e.KEYS, 'painted structure: ')


def relations(rep, be, cfg, tol):
    """the same picture described differently"""
    rng = rep.rng(repr(cfg['thickness']), 'rel')
    r = e2e.call(rep, be, cfg)
    if r is None:
        return
    P = cfg['period']
    lays = []
    for base, objs in cfg['ucell']:
        new = []
        for o in objs:
            t = rng.random()
            ang = o[6] if len(o) > 6 else 0
            if o[0] == 'rectangle' and ang == 0 and t < .4:       # split in two
                _, cx, cy, lx, ly, n = o[:6]
                f = float(rng.uniform(.2, .8))
                if rng.random() < .5:
                    new += [['rectangle', cx - lx / 2 + f * lx / 2, cy, f * lx, ly, n], ['rectangle', cx + lx / 2 - (1 - f) * lx / 2, cy, (1 - f) * lx, ly, n]]
                else:
                    new += [['rectangle', cx, cy - ly / 2 + f * ly / 2, lx, f * ly, n], ['rectangle', cx, cy + ly / 2 - (1 - f) * ly / 2, lx, (1 - f) * ly, n]]
            elif o[0] == 'rectangle' and ang == 0 and t < .6:     # hide another object under it
                _, cx, cy, lx, ly, n = o[:6]
                new += [['rectangle', cx, cy, lx * .5, ly * .5, 3.3], o]
            elif t < .75:                                        # draw it twice
                new += [o, list(o)]
            else:
                new.append(o)
        if rng.random() < .3:                                    # the background as an object
            new = [['rectangle', P[0] / 2, P[1] / 2, P[0], P[1], base]] + new
            base = 2.77
        # exchange neighbours that do not overlap
        R = lambda o: rects_of([0, [o]])[0] if o[0] == 'rectangle' and (len(o) < 7 or o[6] == 0) else None
        for j in range(len(new) - 1):
            a, b = R(new[j]), R(new[j + 1])
            if a and b and (a[1] <= b[0] or b[1] <= a[0] or a[3] <= b[2] or b[3] <= a[2]) and rng.random() < .5:
                new[j], new[j + 1] = new[j + 1], new[j]
        lays.append([base, new])
    other = dict(cfg, ucell=lays)
    r2 = e2e.call(rep, be, other)
    if r2 is None:
        return
    for k in e2e.KEYS:
        ok, err = api.close(r2['res'][k], r['res'][k], tol)
        if not ok:
            return rep.fail(f'{be} {k}: the same picture drawn differently changes the result by {err}',
                            dict(backend=be, config=api.jsonable(cfg), other=api.jsonable(lays)))
    # the same picture as a raster (only pictures on a lattice)
    G = 20
    g = []
    for base, objs in cfg['ucell']:
        rs = rects_of([base, objs])
        if any(abs(v / p * G - round(v / p * G)) > 1e-9 for q in rs for v, p in ((q[0], P[0]), (q[1], P[0]), (q[2], P[1]), (q[3], P[1]))):
            return
        c = (rnp.arange(G) + .5) / G
        u = rnp.full((G, G), complex(base))
        for x0, x1, y0, y1, n in rs:
            u[rnp.ix_((c * P[1] > y0) & (c * P[1] < y1), (c * P[0] > x0) & (c * P[0] < x1))] = n
        g.append(u[::-1])
    r3 = e2e.call(rep, be, dict(cfg, ucell=rnp.array(g), fourier_type=1))
    if r3 is None:
        return
    for k in e2e.KEYS:
        ok, err = api.close(r3['res'][k], r['res'][k], tol)
        if not ok:
            return rep.fail(f'{be} {k}: the equivalent raster differs by {err}', dict(backend=be, config=api.jsonable(cfg)))


def lattice(rng, i, **kw):
    cfg = rnd_vcfg(rng, i, **kw)
    if rng.random() < .6:
        G = 20 if rng.random() < .5 else 5
        for base, objs in cfg['ucell']:
            for o in objs:
                q = [0, 0]
                for ax in (0, 1):
                    a, b = sorted(rng.choice(G + 1, 2, replace=False))
                    o[1 + ax], o[3 + ax] = float((a + b) / 2 / G * cfg['period'][ax]), float((b - a) / G * cfg['period'][ax])
                del o[6:]
    return cfg


# ------------------------------------------------------------------ geometry of the drawing functions
def geometry_task(be):
    def t(rep):
        with api.quiet():
            m = api.make(be, dict(n_top=1., n_bot=1., theta=0., phi=0., pol=0, period=[1000., 1000.], wavelength=500., thickness=[10.], fto=[1, 1],
                                  ucell=[[1., []]], fourier_type=2))
        rng = rep.rng('geo')
        for i in range({'quick': 150 if be != 'jax' else 10, 'thorough': 2000 if be != 'jax' else 100}[rep.tier]):
            lx, ly = [float(v) for v in rng.uniform(20, 600, 2)]
            cx, cy = [float(v) for v in rng.uniform(200, 800, 2)]
            ang = float(rng.uniform(-8, 8)) if rng.random() < .6 else float(rng.integers(-4, 5)) * rnp.pi / 2
            nt, npar = int(rng.integers(1, 7)), int(rng.integers(1, 7))
            data = dict(backend=be, object=['rectangle', cx, cy, lx, ly, 2., ang, nt, npar])
            try:
                got = [(num(a[1]), num(b[1]), num(a[0]), num(b[0])) for a, b, _ in m.rectangle(cx, cy, lx, ly, 2., ang, nt, npar)]
            except Exception as e:  # noqa: BLE001
                if not core.from_repo(e):
                    raise
                rep.fail(f'{be}.rectangle raises {type(e).__name__}: {e}', data)
                return
            rep.ev((be, 'rect', data['object']))
            exp = strips(cx, cy, lx, ly, 2., ang, nt, npar)
            # equality of the painted sets: same indicator at every cell centre of the common refinement
            if not same_region(got, [e[:4] for e in exp]):
                rep.fail(f'{be}.rectangle does not draw the rotated rectangle', data)
                return
            ns = int(rng.integers(4, 42))
            data = dict(backend=be, object=['ellipse', cx, cy, lx, ly, 2., ang, ns, ns])
            try:
                got = [(num(a[1]), num(b[1]), num(a[0]), num(b[0])) for a, b, _ in m.ellipse(cx, cy, lx, ly, 2., ang, ns, ns)]
            except Exception as e:  # noqa: BLE001
                if not core.from_repo(e):
                    raise
                rep.fail(f'{be}.ellipse raises {type(e).__name__}: {e}', data)
                return
            rep.ev((be, 'ellipse', data['object']))
            bad = bad_ellipse(got, cx, cy, lx, ly, ang, ns)
            if bad:
                rep.fail(f'{be}.ellipse: {bad}', data)
                return
    return t


def same_region(a, b, tol=1e-7):
    xs = rnp.unique(rnp.round([v for r in a + b for v in r[:2]], 6))
    ys = rnp.unique(rnp.round([v for r in a + b for v in r[2:]], 6))
    cx, cy = (xs[1:] + xs[:-1]) / 2, (ys[1:] + ys[:-1]) / 2
    wx, wy = rnp.diff(xs), rnp.diff(ys)

    def ind(rs):
        g = rnp.zeros((len(cy), len(cx)), bool)
        for x0, x1, y0, y1 in rs:
            g[rnp.ix_((cy > y0) & (cy < y1), (cx > x0) & (cx < x1))] = True
        return g
    big = (wx > 1e-4)[None, :] & (wy > 1e-4)[:, None]
    return not ((ind(a) != ind(b)) & big).any()


def bad_ellipse(rs, cx, cy, lx, ly, ang, ns):
    c, s = rnp.cos(ang), rnp.sin(ang)
    lev = lambda x, y: ((c * (x - cx) + s * (y - cy)) / (lx / 2)) ** 2 + ((-s * (x - cx) + c * (y - cy)) / (ly / 2)) ** 2
    rs = [r for r in rs if r[3] - r[2] > 1e-3]
    if not rs:
        return 'nothing is drawn'
    for x0, x1, y0, y1 in rs:
        d1 = max(abs(lev(x0, y0) - 1), abs(lev(x1, y1) - 1))
        d2 = max(abs(lev(x0, y1) - 1), abs(lev(x1, y0) - 1))
        if min(d1, d2) > 1e-5:
            return f'a rectangle is not spanned by two points of the outline ({min(d1, d2):.3g})'
    o = sorted((r[2], r[3]) for r in rs)
    if any(abs(o[i][1] - o[i + 1][0]) > 5e-4 for i in range(len(o) - 1)):
        return 'the rectangles do not stack without gaps or overlap'
    H = rnp.hypot(lx / 2 * s, ly / 2 * c)
    step = 2 * rnp.pi / (ns - 1)
    low = H * rnp.cos(step)
    if o[-1][1] < cy + low - 1e-3 or o[0][0] > cy - H * rnp.cos(2 * step) + 1e-3 and ns > 5:
        return 'the rectangles do not reach the top or bottom of the ellipse'
    area = sum((r[1] - r[0]) * (r[3] - r[2]) for r in rs)
    if ns >= 20 and abs(area / (rnp.pi * lx * ly / 4) - 1) > 5 / ns + 8 / ns * abs(rnp.log(lx / ly)):
        return f'area {area / (rnp.pi * lx * ly / 4):.3f} of the ellipse'
    return None


def tasks(tier):
    out = [(f'proof[{be}]', vector.proof_task(be)) for be in BACKENDS]
    out += [(f'layer[{be},{ax}]', vector.layer_task(be, 2, ax)) for be in BACKENDS for ax in (0, 1)]
    if tier == 'thorough':
        out += [(f'layer3[{be},{ax}]', vector.layer_task(be, 3, ax)) for be in BACKENDS for ax in (0, 1)]
    out += [(f'geometry[{be}]', geometry_task(be)) for be in BACKENDS]
    for be in ('numpy', 'torch'):
        out.append((f'e2e[{be}]', e2e.sweep(be, lambda rng, i: rnd_vcfg(rng, i), (120, 1500), body)))
        out.append((f'e2e-rotated[{be}]', e2e.sweep(be, lambda rng, i: rnd_vcfg(rng, i, kinds=('r', 'R', 'e'), nmax=3), (60, 800), body)))
        out.append((f'relations[{be}]', e2e.sweep(be, lattice, (100, 1000), relations)))
    out.append(('e2e[jax]', e2e.sweep('jax', lambda rng, i: rnd_vcfg(rng, i, shape=(2, 1, 2, 2, 1, 1), nmax=3), (12, 100), body)))
    out.append(('e2e-rotated[jax]', e2e.sweep('jax', lambda rng, i: rnd_vcfg(rng, i, shape=(2, 1, 2, 2, 1, 1), kinds=('R', 'e', 'r'), nmax=2), (6, 60), body)))
    out.append(('relations[jax]', e2e.sweep('jax', lambda rng, i: lattice(rng, i, shape=(2, 1, 2, 2, 1, 1), nmax=3), (6, 60), relations)))
    return out
