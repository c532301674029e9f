"""C11: material tables are interpolated faithfully."""
import os, warnings, tempfile, shutil
import numpy as rnp
from vkit.contract import *
from vkit import api, core, scal, shim, path
from vkit.scal import S, Unsupported
from . import materials

META = dict(title='material tables', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)',
    'np.interp / jnp.interp is the piecewise-linear interpolant of an ascending table, constant outside (dependency contract; evaluated on every table)',
    'np.loadtxt and scipy.io.loadmat read the numbers in the file'],
    rule='every table of the library and random scratch tables, wavelengths at samples, between samples and outside the range')
MODT = 'meent.on_{}.modeler.modeling'


# ------------------------------------------------------------------ reference
def parse(p):
    """independent reader: ascending rows (wavelength, n, k), or None for a fitted model"""
    if p.endswith('.mat'):
        from scipy.io import loadmat
        d = loadmat(p)
        rows = rnp.stack([rnp.ravel(d[c]) for c in ('WL', 'n', 'k')], 1).astype(float)
    else:
        rows, head = [], {}
        with open(p) as f:
            for i, l in enumerate(f):
                l = l.strip()
                if i == 0 or not l:
                    continue
                if l.startswith('#'):
                    k, _, v = l[1:].partition(':')
                    head[k.strip()] = v.strip()
                    continue
                rows.append([float(v) for v in l.split('#')[0].replace(',', ' ').split()][:3])
        if not rows:
            return None
        rows = rnp.array(rows)
    return rows[rnp.argsort(rows[:, 0], kind='stable')]


def interp(rows, wl, c):
    """linear interpolation between the neighbouring samples, end values outside"""
    w = rows[:, 0]
    if wl <= w[0]:
        return rows[0, c]
    if wl >= w[-1]:
        return rows[-1, c]
    j = int(rnp.searchsorted(w, wl, side='right')) - 1
    if w[j] == wl or w[j + 1] == w[j]:
        return rows[j, c]
    t = (wl - w[j]) / (w[j + 1] - w[j])
    return rows[j, c] * (1 - t) + rows[j + 1, c] * t


def library(root=None):
    root = root or os.path.join(core.REPO, 'meent', 'nk_data')
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f[-4:] in ('.txt', '.mat'):
                out[f[:-4]] = os.path.join(d, f)
    return out


def lookup(m, name, table, wl):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = m.find_nk_index(name, table, wl)
    return v, [x for x in w if issubclass(x.category, UserWarning) or 'range' in str(x.message)]


def judge_lookup(rep, be, m, name, spell, table, rows, wl, origin):
    data = dict(backend=be, material=spell, wavelength=wl, table=origin)
    try:
        v, w = lookup(m, spell, table, wl)
        vr, _ = lookup(m, spell + '__real', table, wl)
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        return rep.fail(f'{be}: looking up {spell} raises {type(e).__name__}: {e}', data)
    rep.ev((be, name, wl))
    n, k = interp(rows, wl, 1), interp(rows, wl, 2)
    v, vr = complex(api.to_np(v)), complex(api.to_np(vr))
    dup = (rows[:, 0] == wl).sum() > 1 or (rnp.diff(rows[:, 0]) == 0).any()
    sc = max(1., abs(n), abs(k))
    if abs(v - (n - 1j * k)) > 1e-9 * sc:
        if not (dup and any(abs(v - (a - 1j * b)) <= 1e-6 * sc for a, b in rows[rnp.abs(rows[:, 0] - wl) <= 1e-3 * wl][:, 1:])):
            return rep.fail(f'{be}: {spell} at {wl:.6g} m is {v}, the table says {n - 1j * k}', data)
    if abs(vr.imag) > 0 or abs(vr.real - v.real) > 1e-9 * sc:
        return rep.fail(f'{be}: {spell}__real at {wl:.6g} m is {vr}, the table says {n}', data)
    out = wl < rows[0, 0] or wl > rows[-1, 0]
    if out and not w:
        return rep.fail(f'{be}: {spell} at {wl:.6g} m, outside [{rows[0, 0]:.6g}, {rows[-1, 0]:.6g}], is not reported', data)
    if not out and w:
        return rep.fail(f'{be}: {spell} at {wl:.6g} m is inside the table but warns', data)


def wavelengths(rng, rows, n):
    w = rows[:, 0]
    out = [w[0], w[-1]]
    for _ in range(n):
        j = int(rng.integers(len(w)))
        t = rng.random()
        if t < .3 or j == len(w) - 1:
            out.append(w[j])
        else:
            out.append(w[j] + (w[j + 1] - w[j]) * float(rng.random()))
    out += [w[0] * .9, w[-1] * 1.1, w[0] * (1 - 1e-6), w[-1] * (1 + 1e-6)]
    return [float(v) for v in out]


def native(be, a):
    if be == 'torch':
        import torch
        return torch.as_tensor(a)
    if be == 'jax':
        import meent.on_jax  # noqa: F401
        import jax.numpy as jnp
        return jnp.asarray(a)
    return a


def judge_array(rep, be, m, mat, table, wl, want, lo, hi, tol, what):
    """many wavelengths at once: each entry as if looked up alone, reported when any of them lies outside"""
    for sp, w_ in (('ndarray', wl), ('native array', native(be, wl))):
        data = dict(backend=be, material=what, wavelengths=api.jsonable(wl), given_as=sp)
        try:
            v, w = lookup(m, mat, table, w_)
        except Exception as e:  # noqa: BLE001
            if not core.from_repo(e):
                raise
            return rep.fail(f'{be}: looking up {what} at an array of wavelengths raises {type(e).__name__}: {e}', data)
        rep.ev((be, what, sp, wl.tobytes()))
        v = api.to_np(v)
        try:
            v = rnp.broadcast_to(v, wl.shape)  # an index that does not depend on the wavelength may come as one number
        except ValueError:
            return rep.fail(f'{be}: {what} at wavelengths of shape {wl.shape} has shape {v.shape}', data)
        ok, err = api.close(v, want, tol)
        if not ok:
            return rep.fail(f'{be}: {what} at an array of wavelengths differs from the single lookups by {err}', data)
        out = bool((wl < lo).any() or (wl > hi).any())
        if out != bool(w):
            return rep.fail(f'{be}: {what}: {"no " if out else ""}warning for wavelengths {wl.min():.6g} - {wl.max():.6g}, range [{lo:.6g}, {hi:.6g}]', data)


def shapes(rng):
    return [(), (1,), (int(rng.integers(2, 6)),), (2, 3), (3, 1, 2)][int(rng.integers(5))]


def array_task(be):
    def t(rep):
        m = module(be, MODT)
        table = m.read_material_table()
        rng = rep.rng('arr')
        mats = [(n, parse(p)) for n, p in sorted(library().items())]
        mats = [(n, r) for n, r in mats if r is not None and not (rnp.diff(r[:, 0]) == 0).any()]
        for _ in range({'quick': 60 if be != 'jax' else 15, 'thorough': 1000 if be != 'jax' else 100}[rep.tier]):
            name, rows = mats[int(rng.integers(len(mats)))]
            lo, hi = rows[0, 0], rows[-1, 0]
            wl = rng.uniform(lo, hi, shapes(rng))
            if rng.random() < .5:
                wl = wl.copy().reshape(-1)
                wl[int(rng.integers(wl.size))] = rng.choice([lo, hi, lo * .98, hi * 1.02])
            want = rnp.vectorize(lambda x: interp(rows, x, 1) - 1j * interp(rows, x, 2), otypes=[complex])(wl)
            judge_array(rep, be, m, name, table, wl, want, lo, hi, 1e-9 * max(1., float(rnp.abs(want).max())), name)
            if rep.failing:
                return
    return t


def library_task(be):
    def t(rep):
        m = module(be, MODT)
        table = m.read_material_table()
        rng = rep.rng('lib')
        n = {'quick': 20 if be != 'jax' else 4, 'thorough': 400 if be != 'jax' else 40}[rep.tier]
        for name, p in sorted(library().items()):
            rows = parse(p)
            if rows is None:
                continue
            if name.upper() not in table:
                rep.fail(f'{be}: material {name} of the library is not in the table', dict(backend=be, file=p))
                return
            # the interpolation routine is not the reader: no row may be lost or changed
            for wl in wavelengths(rng, rows, n):
                spell = name if rng.random() < .5 else (name.upper() if rng.random() < .5 else name.lower())
                judge_lookup(rep, be, m, name, spell, table, rows, wl, p)
                if rep.failing:
                    return
    return t


def scratch_task(be):
    """tables written by the check: any order of rows, txt and mat, comments, several folders"""
    def t(rep):
        m = module(be, MODT)
        rng = rep.rng('scratch')
        d = tempfile.mkdtemp(prefix='verif_nk_')
        try:
            files = {}
            for i in range(12):
                k = int(rng.integers(1, 9))
                w = rnp.sort(rng.uniform(2e-7, 2e-6, k))
                rows = rnp.stack([w, rng.uniform(.1, 4, k), rng.uniform(0, 6, k)], 1)
                name = f'mat{i}_Zz'
                sub = os.path.join(d, f's{i % 3}')
                os.makedirs(sub, exist_ok=True)
                if i % 4 == 3:
                    from scipy.io import savemat
                    p = os.path.join(sub, name + '.mat')
                    o = rng.permutation(k) if i % 8 == 7 else rnp.arange(k)
                    savemat(p, dict(WL=rows[o, :1], n=rows[o, 1:2], k=rows[o, 2:]))
                else:
                    p = os.path.join(sub, name + '.txt')
                    o = rng.permutation(k) if i % 4 == 2 else rnp.arange(k)
                    with open(p, 'w') as f:
                        f.write('Wavelength(m)\tn\tk\n' + ('# material: x\n# type: tabulated\n' if i % 2 else ''))
                        for r in rows[o]:
                            f.write('\t'.join(repr(float(v)) for v in r) + '\n')
                files[name] = (p, rows)
            try:
                table = m.read_material_table(nk_path=d)
            except Exception as e:  # noqa: BLE001
                if not core.from_repo(e):
                    raise
                return rep.fail(f'{be}: read_material_table raises {type(e).__name__}: {e}', dict(backend=be))
            for name, (p, rows) in files.items():
                for wl in wavelengths(rng, rows, 6 if be != 'jax' else 2):
                    judge_lookup(rep, be, m, name, name, table, rows, wl, rows.tolist())
                    if rep.failing:
                        return
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return t


def cell_task(be):
    """put_refractive_index_in_ucell: each pixel gets the index of the material with its number"""
    def t(rep):
        rng = rep.rng('cell')
        names = [n for n, p in sorted(library().items()) if parse(p) is not None]
        lib = library()
        with api.quiet():
            mee = api.make(be, dict(n_top=1., n_bot=1., theta=0., phi=0., pol=0, period=[1., 1.], wavelength=1., thickness=[1.], fto=[1, 0], ucell=rnp.ones((1, 1, 4)), fourier_type=0))
        for i in range({'quick': 20 if be != 'jax' else 4, 'thorough': 200}[rep.tier]):
            k = int(rng.integers(1, 5))
            mats, wl = [], None
            for _ in range(k):
                t_ = rng.random()
                mats.append(str(rng.choice(names)) if t_ < .6 else (float(rng.uniform(1, 4)) if t_ < .8 else complex(rng.uniform(1, 4), -rng.uniform(0, 3))))
            wl = float(rng.uniform(3e-7, 3e-6))
            u = rng.integers(0, k, (int(rng.integers(1, 3)), 2, 3))
            u = u.astype([int, float][i % 2])
            data = dict(backend=be, materials=api.jsonable(mats), wavelength=wl, ucell=api.jsonable(u))
            try:
                with api.quiet():
                    r = api.to_np(mee.put_refractive_index_in_ucell(u.copy(), list(mats), wl))
            except Exception as e:  # noqa: BLE001
                if not core.from_repo(e):
                    raise
                return rep.fail(f'{be}: put_refractive_index_in_ucell raises {type(e).__name__}: {e}', data)
            rep.ev((be, repr(data)))
            val = []
            for x in mats:
                if isinstance(x, str):
                    rows = parse(lib[x])
                    val.append(interp(rows, wl, 1) - 1j * interp(rows, wl, 2))
                else:
                    val.append(x)
            e = rnp.array(val)[u.astype(int)]
            ok, err = api.close(r, e, 1e-6)
            if not ok:
                return rep.fail(f'{be}: put_refractive_index_in_ucell differs from the tables by {err}', data)
    return t


def tasks(tier):
    out = [(f'proof[{be}]', materials.table_proof(be)) for be in BACKENDS]
    for be in BACKENDS:
        out += [(f'library[{be}]', library_task(be)), (f'scratch[{be}]', scratch_task(be)), (f'arrays[{be}]', array_task(be))]
    out += [(f'cell[{be}]', cell_task(be)) for be in ('numpy', 'torch')]
    return out
