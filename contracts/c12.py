"""C12: dispersion models give the index they define."""
import os, warnings, tempfile, shutil, math
import numpy as rnp
from vkit.contract import *
from vkit import api, core
from . import materials
from .c11 import library, MODT, judge_array, shapes

META = dict(title='dispersion', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)',
    'scipy.special.wofz is the Faddeeva function, scipy.integrate.quad integrates to its tolerance (dependency contracts)',
    'the Falkovsky graphene model is checked by evaluation against an independent quadrature (bounded)'],
    rule='every fitted material of the library, random coefficient sets of every model (inline and in scratch files), wavelengths inside and outside the range')
EV = 8065.54429
E0, KB, HB, EPS0, VF, C0 = 1.6021773349e-19, 1.38064852e-23, 1.0545718e-34, 8.85418781762039e-12, 1e6, 299792458


def wof(z):
    from scipy.special import wofz
    return wofz(z)


def eps_model(form, cs, wl):
    """permittivity (n + ik convention) as documented"""
    if form in (1, 2):
        e = 1 + cs[0]
        for b, p in zip(cs[1::2], cs[2::2]):
            e += b * wl ** 2 / (wl ** 2 - (p ** 2 if form == 1 else p))
        return e + 0j
    if form == 'brendel-bormann-ev':
        om = .01 / wl / EV
        wp = cs[0]
        e = 1 - cs[1] * wp ** 2 / (om * (om + 1j * cs[2]))
        osc = [(cs[i] * wp ** 2, cs[i + 1], cs[i + 2], cs[i + 3]) for i in range(3, len(cs), 4)]
    elif form == 'brendel-bormann-cm':
        om = .01 / wl
        e = cs[0]
        osc = [(cs[i], cs[i + 1], cs[i + 3], cs[i + 2]) for i in range(1, len(cs), 4)]
    for s, g, ce, sg in osc:
        a = (om ** 2 + 1j * om * g) ** .5
        e = e + 1j * math.sqrt(math.pi / 8) * s / (a * sg) * (wof((a - ce) / (math.sqrt(2) * sg)) + wof((a + ce) / (math.sqrt(2) * sg)))
    return e


def eps_graphene(cs, wl):
    ef, mob, temp, d = cs
    T = temp * KB / E0
    E = HB * 2 * math.pi * C0 / wl / E0
    sc = HB * VF ** 2 / (mob * 1e-4 * E0 * ef)

    def occ(z):
        x, y = rnp.asarray(z) / T, ef / T
        m = rnp.maximum(x, y)      # sinh x / (cosh y + cosh x), scaled
        return (rnp.exp(x - m) - rnp.exp(-x - m)) / (rnp.exp(y - m) + rnp.exp(-y - m) + rnp.exp(x - m) + rnp.exp(-x - m))
    h = occ(E / 2)
    xs, ws = rnp.polynomial.legendre.leggauss(60)
    tot = 0.
    top = 1000.
    pts = [0., E / 2]
    while pts[-1] < top:
        pts.append(min(top, pts[-1] + max(.5 * min(T, E), (pts[-1] - ef) * .5)))
    for lo, hi in zip(pts[:-1], pts[1:]):
        n = max(1, int(rnp.ceil((hi - lo) / max(2 * T, .05 * lo, E * .1))))
        ed = rnp.linspace(lo, hi, min(n, 400) + 1)
        z = ((ed[1:] + ed[:-1]) / 2)[:, None] + ((ed[1:] - ed[:-1]) / 2)[:, None] * xs
        tot += (((occ(z) - h) / (E ** 2 - 4 * z ** 2)) @ ws @ ((ed[1:] - ed[:-1]) / 2))
    intra = 2j * E0 ** 2 * T / (math.pi * HB * (E + 1j * sc)) * (ef / (2 * T) + math.log1p(math.exp(-ef / T)))
    sig = intra + E0 ** 2 / (4 * HB) * (h + 4j * E / math.pi * tot)
    return 1 + 1j * sig / (E0 * E / HB * d * EPS0)


def index(spec, wl):
    f = spec['formula']
    e = eps_graphene(spec['coefficients'], wl) if f == 'graphene-falkovsky' else eps_model(f, spec['coefficients'], wl)
    n = e ** .5
    return n


def lookup(m, mat, table, wl):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = m.find_nk_index(mat, table, wl)
    return complex(api.to_np(v)), [x for x in w if 'range' in str(x.message)]


def judge_model(rep, be, m, mat, table, spec, wl, tol=1e-9):
    data = dict(backend=be, material=mat if isinstance(mat, str) else 'inline', spec=api.jsonable(spec), wavelength=wl)
    try:
        v, w = lookup(m, mat, table, wl)
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        return rep.fail(f'{be}: {spec["formula"]} raises {type(e).__name__}: {e}', data)
    rep.ev((be, repr(data)))
    n = index(spec, wl)
    if spec['formula'] in (1, 2) and n.imag != 0:
        return                                      # outside the domain of a transparent fit
    e = n.conjugate()
    if not abs(v - e) <= tol * max(1, abs(e)):
        return rep.fail(f'{be}: {spec["formula"]} at {wl:.6g} m gives {v}, its coefficients define {e}', data)
    if v.imag > 1e-12:
        return rep.fail(f'{be}: {spec["formula"]} at {wl:.6g} m: negative absorption {v}', data)
    lo, hi = spec['wavelength_range']
    if (wl < lo or wl > hi) != bool(w):
        return rep.fail(f'{be}: {spec["formula"]} at {wl:.6g} m, range [{lo:.6g}, {hi:.6g}]: {"no " if not w else ""}warning', data)
    if isinstance(mat, str):
        r, _ = lookup(m, mat + '__real', table, wl)
        if abs(r - e.real) > tol * max(1, abs(e)):
            return rep.fail(f'{be}: {mat}__real at {wl:.6g} m gives {r}, expected {e.real}', data)


def header(p):
    """independent reader of a fitted material file"""
    h = {}
    with open(p) as f:
        lines = f.read().split('\n')[1:]
    for l in lines:
        if not l.startswith('#'):
            break
        k, _, v = l[1:].partition(':')
        h[k.strip()] = v.strip()
    if 'coefficients' not in h or not h.get('type', '').split() or h['type'].split()[0] not in ('formula', 'model'):
        return None
    kind, name = h['type'].split(None, 1)
    a = h['range'].split()
    return dict(formula=int(name) if kind == 'formula' else name, coefficients=[float(x) for x in h['coefficients'].split()],
                wavelength_range=(float(a[0]), float(a[2])))


def rnd_spec(rng):
    f = [1, 2, 'brendel-bormann-ev', 'brendel-bormann-cm'][int(rng.integers(4))]
    k = int(rng.integers(0, 5))
    if f in (1, 2):
        cs = [float(rng.uniform(0, 1))]
        for _ in range(k):
            p = float(rng.uniform(2e-8, 2e-7))
            cs += [float(rng.uniform(.1, 2)), p if f == 1 else p * p]
    elif f == 'brendel-bormann-ev':
        cs = [float(rng.uniform(3, 10)), float(rng.uniform(.3, 1)), float(rng.uniform(.01, .2))]
        for _ in range(k):
            cs += [float(rng.uniform(.01, 1)), float(rng.uniform(.05, 2)), float(rng.uniform(.2, 6)), float(rng.uniform(.1, 2))]
    else:
        cs = [float(rng.uniform(1, 4))]
        for _ in range(k):
            ce = float(rng.uniform(200, 9000))
            cs += [float(rng.uniform(1e4, 1e6)), float(rng.uniform(5, 100)), float(rng.uniform(5, 100)), ce]
    return dict(formula=f, coefficients=cs, wavelength_range=(3e-7, 1.2e-6))


def library_task(be):
    def t(rep):
        m = module(be, MODT)
        table = m.read_material_table()
        rng = rep.rng('lib')
        for name, p in sorted(library().items()):
            if not p.endswith('.txt'):
                continue
            spec = header(p)
            if spec is None:
                continue
            if not isinstance(table.get(name.upper()), dict):
                return rep.fail(f'{be}: fitted material {name} is not read as a model', dict(file=p))
            lo, hi = spec['wavelength_range']
            wls = [lo, hi, lo * .97, hi * 1.03] + [float(v) for v in rng.uniform(lo, hi, {'quick': 8 if be != 'jax' else 3, 'thorough': 100}[rep.tier])]
            for wl in wls:
                spell = [name, name.upper(), name.lower()][int(rng.integers(3))]
                judge_model(rep, be, m, spell, table, spec, wl)
                if rep.failing:
                    return
    return t


def random_task(be):
    """random coefficient sets, inline and through files"""
    def t(rep):
        m = module(be, MODT)
        rng = rep.rng('rnd')
        d = tempfile.mkdtemp(prefix='verif_disp_')
        try:
            specs = {}
            for i in range({'quick': 40 if be != 'jax' else 10, 'thorough': 400 if be != 'jax' else 60}[rep.tier]):
                s = rnd_spec(rng)
                name = f'fit{i}_Qq'
                with open(os.path.join(d, name + '.txt'), 'w') as f:
                    f.write('Wavelength(m)\tn\tk\n# material: x\n# source: a: b - c\n')
                    f.write(f'# type: {"formula" if s["formula"] in (1, 2) else "model"} {s["formula"]}\n')
                    f.write('# coefficients: ' + ' '.join(repr(v) for v in s['coefficients']) + '\n')
                    f.write(f'# range: {s["wavelength_range"][0]:.4e} - {s["wavelength_range"][1]:.4e} m\n')
                specs[name] = s
            # a sampled model stays a table
            with open(os.path.join(d, 'sampled.txt'), 'w') as f:
                f.write('Wavelength(m)\tn\tk\n# type: model brendel-bormann-ev\n5e-7\t2.0\t.5\n6e-7\t3.0\t1.5\n')
            table = m.read_material_table(nk_path=d)
            rep.ev((be, 'sampled'))
            v, _ = lookup(m, 'sampled', table, 5.5e-7)
            if abs(v - (2.5 - 1j)) > 1e-9:
                return rep.fail(f'{be}: a table sampled from a model is not read as data rows: {v}', dict(backend=be))
            for name, s in specs.items():
                for wl in [float(v) for v in rng.uniform(3.1e-7, 1.19e-6, 2)] + [2.5e-7, 1.5e-6][:1 if rng.random() < .5 else 2]:
                    judge_model(rep, be, m, name if rng.random() < .5 else name.upper(), table, s, wl)
                    judge_model(rep, be, m, dict(s), {}, s, wl)
                    if rep.failing:
                        return
        except Exception as e:  # noqa: BLE001
            if not core.from_repo(e):
                raise
            rep.fail(f'{be}: {type(e).__name__}: {e}', dict(backend=be, specs=api.jsonable(specs)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return t


def array_task(be):
    """models evaluated at many wavelengths at once"""
    def t(rep):
        import meent.dispersion as D
        m = module(be, MODT)
        rng = rep.rng('arr')
        for i in range({'quick': 30 if be != 'jax' else 10, 'thorough': 300 if be != 'jax' else 60}[rep.tier]):
            gr = i % 6 == 5
            if gr:
                spec = D.graphene_falkovsky(float(rng.uniform(.05, .9)), float(rng.uniform(500, 20000)), float(rng.uniform(80, 500)))
            else:
                spec = rnd_spec(rng)
            lo, hi = (3e-7, 1.2e-6) if not gr else (5e-7, 2e-5)
            wl = rng.uniform(lo, hi, shapes(rng))
            if rng.random() < .4 and not gr:
                wl = wl.copy().reshape(-1)
                wl[int(rng.integers(wl.size))] = rng.choice([lo, hi, lo * .98, hi * 1.02])
            want = rnp.vectorize(lambda x: complex(index(spec, float(x))).conjugate(), otypes=[complex])(wl)
            if spec['formula'] in (1, 2) and rnp.abs(want.imag).max() > 0:
                continue
            a, b = spec['wavelength_range']
            judge_array(rep, be, m, spec, {}, wl, want, a, b, (2e-6 if gr else 1e-9) * max(1., float(rnp.abs(want).max())), f'inline {spec["formula"]}')
            if rep.failing:
                return
    return t


def graphene_task(be):
    def t(rep):
        import meent.dispersion as D
        m = module(be, MODT)
        rng = rep.rng('gr')
        for i in range({'quick': 25 if be == 'numpy' else 6, 'thorough': 400 if be == 'numpy' else 60}[rep.tier]):
            args = [float(rng.uniform(.05, .9)), float(rng.uniform(500, 20000)), float(rng.uniform(80, 500)), float(rng.uniform(.3e-9, 1e-9))]
            full = rng.random() < .6
            try:
                spec = D.graphene_falkovsky(*args) if full else D.graphene_falkovsky(args[0])
            except Exception as e:  # noqa: BLE001
                return rep.fail(f'graphene_falkovsky raises {type(e).__name__}: {e}', dict(args=args))
            if not full:
                args = [args[0], 10000., 300., .34e-9]
            wl = float(10 ** rng.uniform(-6.3, -4.3))
            judge_model(rep, be, m, spec, {}, dict(formula='graphene-falkovsky', coefficients=args, wavelength_range=(0, math.inf)), wl, tol=2e-6)
            if rep.failing:
                return
    return t


def refusal_task(rep):
    """malformed or unknown models are refused"""
    import meent.dispersion as D
    bad = [(lambda v=v, k=k: D.graphene_falkovsky(**dict(dict(fermi_level=.3), **{k: v}))) for k in ('fermi_level', 'mobility', 'temperature', 'thickness')
           for v in (0, -1., float('nan'), float('inf'), 'abc', None, [1, 2])]
    names = [f'graphene_falkovsky({k}={v})' for k in ('fermi_level', 'mobility', 'temperature', 'thickness') for v in ('0', '-1', 'nan', 'inf', 'text', 'None', 'list')]
    for be in BACKENDS:
        m = module(be, MODT)
        for f in (3, 0, 'sellmeier', 'brendel-bormann', None):
            bad.append(lambda m=m, f=f: m.find_nk_index(dict(formula=f, coefficients=[0., 1., 1e-8], wavelength_range=(0, 1)), {}, 5e-7))
            names.append(f'{be} formula {f!r}')
        for w in (0., -5e-7, float('nan')):
            bad.append(lambda m=m, w=w: m.find_nk_index(D.graphene_falkovsky(.3), {}, w))
            names.append(f'{be} graphene at wavelength {w}')
        bad.append(lambda m=m: m.find_nk_index('no_such_material', {'X': rnp.ones((2, 3))}, 5e-7))
        names.append(f'{be} unknown material name')
    for n, f in zip(names, bad):
        rep.ev(n)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                r = f()
            except Exception:  # noqa: BLE001
                continue
        rep.fail(f'{n} is accepted: {r!r}'[:300], dict(call=n))


def tasks(tier):
    out = [('proof[formulas]', materials.formula_proof), ('proof[dispatch]', materials.dispatch_proof), ('refusal', refusal_task)]
    for be in BACKENDS:
        out += [(f'proof[{be}]', materials.lookup_proof(be)), (f'library[{be}]', library_task(be)), (f'random[{be}]', random_task(be)), (f'graphene[{be}]', graphene_task(be)), (f'arrays[{be}]', array_task(be))]
    return out
