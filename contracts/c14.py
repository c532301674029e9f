"""C14: specialised formulations equal the general one."""
import numpy as rnp
from vkit.contract import *
from vkit import api, core, alg, scal
from vkit.scal import S
from . import tm, e2e, setters, c02, c05, solve

META = dict(title='formulations', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)',
    'linalg.inv/pinv: exact inverse of an invertible matrix; linalg.eig: M W = W diag(lambda), W invertible',
    'the boundary-value system of a structure has one solution, and simple layer eigenvalues determine the modes up to order and scale '
    '(so results that satisfy the contract of the general formulation are its results)',
    'the 2D cell with repeated rows at fto_y > 0 decouples order by order: evaluated (bounded), the case fto_y = 0 is proved'],
            rule='random one-row structures solved by every applicable formulation; rotated structures; all three backends')


# ------------------------------------------------------------------ lemmas: a 1D result is a result of the conical and 2D contracts at ky = 0
def run1(be, fn, a):
    f = get(module(be), fn)
    return shim.sym(f)(**bind(f, a, ('kx',)))


def blocks(np, M, N):
    O = np.zeros((N, N))
    return np.block([[M[0], O], [O, M[1]]])


def lemma_1(be):
    def run():
        np = shim.np_shim()
        a = {0: tm.sym_args('transfer_1d_1', be, 0)}
        a[1] = dict(a[0], pol=S.const(1))
        kz, kzb, F, G, T = run1(be, 'transfer_1d_1', a[0])
        kz2, kzb2, Fm, Gm, Tm = run1(be, 'transfer_1d_1', a[1])
        n = kz.shape[0]
        yield 'TE and TM use the same kz (top)', kz, kz2
        yield 'TE and TM use the same kz (bottom)', kzb, kzb2
        ky = alg.Arr(((S.const(1),),), S.const(0))
        lifted = (kz, kzb, 0 * kz, blocks(np, (F, Gm), n), blocks(np, (G, Fm), n), blocks(np, (T, Tm), n))
        yield from tm.post_2d_1(np, dict(kx=a[0]['kx'], ky=ky, n_top=a[0]['n_top'], n_bot=a[0]['n_bot']), lifted)
        f2 = get(module(be), 'transfer_1d_conical_1')
        kzc, kzbc, vc, *_ = shim.sym(f2)(**bind(f2, dict(kx=a[0]['kx'], ky=ky, n_top=a[0]['n_top'], n_bot=a[0]['n_bot'])))
        yield 'conical kz^2 at ky = 0 (top)', kzc * kzc, kz * kz
        yield 'conical kz^2 at ky = 0 (bottom)', kzbc * kzbc, kzb * kzb
        yield 'conical: no rotation at ky = 0', vc, 0 * kz
        f3 = get(module(be), 'transfer_2d_1')
        kzc, kzbc, vc, *_ = shim.sym(f3)(**bind(f3, dict(kx=a[0]['kx'], ky=ky, n_top=a[0]['n_top'], n_bot=a[0]['n_bot'])))
        yield '2D kz^2 at ky = 0 (top)', kzc * kzc, kz * kz
        yield '2D kz^2 at ky = 0 (bottom)', kzbc * kzbc, kzb * kzb
        yield '2D: no rotation at ky = 0', vc, 0 * kz
    return run


def lemma_2(be):
    """conical modes at ky = 0 are 1D modes"""
    def run():
        np = shim.np_shim()
        a = tm.sym_modes('transfer_1d_conical_2', 0)
        a['ky'] = alg.Arr(((S.const(1),),), S.const(0))
        f = get(module(be), 'transfer_1d_conical_2')
        for nm, l, r in tm.pre_con_2(np, a):
            d = alg.as_mat(l) - alg.as_mat(r)
            alg.CTX.hyp('pre:' + nm, d.b[0][0])
        W, V, q = shim.sym(f)(**bind(f, a))
        N = tm.half(q)
        W1, W2 = W[:, :N], W[:, N:]
        V11, V12, V21, V22 = V[:N, :N], V[:N, N:], V[N:, :N], V[N:, N:]
        O = 0 * np.eye(N)
        yield 'polarisations decouple (V12)', V12, W2 @ O
        yield 'polarisations decouple (V21)', V21, W1 @ O
        q1, q2 = q[:N], q[N:]
        for tag, pol, w, v, qq in (('s modes', 0, V11, W1, q1), ('p modes', 1, V22, W2, q2)):
            Kx = np.diag(a['kx'])
            I = np.eye(N)
            Q = np.diag(qq)
            if pol == 0:
                yield f'{tag}: (Kx^2 - epy) E = H Q', (Kx @ Kx - a['epy_conv']) @ w, v @ Q
                yield f'{tag}: E Q = H', w @ Q, v
            else:
                yield f'{tag}: (Kx epzi Kx - 1) H = E Q', (Kx @ a['epz_conv_i'] @ Kx - I) @ w, v @ Q
                yield f'{tag}: epx E = H Q', a['epx_conv'] @ v, w @ Q
    return run


def lemma_2b(be):
    """1D modes, combined, are modes of the 2D system at ky = 0"""
    def run():
        np = shim.np_shim()
        a = {0: tm.sym_modes('transfer_1d_2', 0)}
        a[1] = dict(a[0], pol=S.const(1))
        We, Ve, qe = run1(be, 'transfer_1d_2', a[0])
        Wm, Vm, qm = run1(be, 'transfer_1d_2', a[1])
        n = qe.shape[0]
        O = np.zeros((n, n))
        ky = alg.Arr(((S.const(1),),), S.const(0))
        W, V = np.block([[O, Vm], [We, O]]), np.block([[Ve, O], [O, Wm]])
        b = dict(a[0], ky=ky)
        for g in tm.post_2d_2(np, b, (W, V, SegVec([qe, qm]))):
            yield g
    return run


def lemma_3(be, form):
    """one layer: the 1D recursion, in block form with any mode normalisation P, satisfies the contract of the conical/2D recursion"""
    def run():
        np = shim.np_shim()
        z = tm.Sizes()
        n = z.nx
        k0, d = S.sym('k0', real=True), S.sym('d', real=True)
        st = {}
        for p in 'em':
            st[p] = dict(k0=k0, d=d, W=smat('W' + p, n), V=smat('V' + p, n), q=svec('q' + p, n), F=smat('F' + p, n), G=smat('G' + p, n), T=smat('T' + p, n))
        r = {p: run1(be, 'transfer_1d_3', st[p]) for p in 'em'}
        pv = {p: svec('p' + p, n) for p in 'em'}
        sv = {p: svec('s' + p, n) for p in 'em'}
        P = {p: np.diag(pv[p]) for p in 'em'}
        Pi = {p: np.diag(1 / pv[p]) for p in 'em'}
        Sm = {p: np.diag(sv[p]) for p in 'em'}
        Si = {p: np.diag(1 / sv[p]) for p in 'em'}
        O = np.zeros((n, n))
        e, m = st['e'], st['m']
        q = SegVec([e['q'], m['q']])
        bd = lambda x, y: np.block([[x, O], [O, y]])
        a = dict(k0=k0, d=d, q=q, varphi=alg.Arr(((n,),), S.const(0)), big_F=bd(e['F'] @ Sm['e'], m['G'] @ Sm['m']),
                 big_G=bd(e['G'] @ Sm['e'], m['F'] @ Sm['m']), big_T=bd(e['T'] @ Sm['e'], m['T'] @ Sm['m']))
        if form == 'conical':
            a['W'] = np.block([[e['V'] @ P['e'], m['V'] @ P['m']]])
            a['V'] = np.block([[e['W'] @ P['e'], O], [O, m['W'] @ P['m']]])
        else:
            a['W'] = np.block([[O, m['V'] @ P['m']], [e['W'] @ P['e'], O]])
            a['V'] = np.block([[e['V'] @ P['e'], O], [O, m['W'] @ P['m']]])
        (Xe, Fe, Ge, Te, Ae, Be), (Xm, Fm, Gm, Tm, Am, Bm) = r['e'], r['m']
        out = (bd(Xe, Xm), bd(Fe @ P['e'], Gm @ P['m']), bd(Ge @ P['e'], Fm @ P['m']), bd(Te @ P['e'], Tm @ P['m']),
               bd(Si['e'] @ Ae @ P['e'], Si['m'] @ Am @ P['m']), bd(Pi['e'] @ Be @ Sm['e'], -(Pi['m'] @ Bm @ Sm['m'])))
        yield from (tm.post_con_3 if form == 'conical' else tm.post_2d_3)(np, a, out)
    return run


def lemma_4(be):
    """top interface and efficiencies"""
    def run():
        np = shim.np_shim()
        A = {p: tm.sym_args('transfer_1d_4', be, p) for p in (0, 1)}
        n = A[0]['ff_x']
        for p in (0, 1):
            for x in 'FGT':
                A[p][x] = smat(x + 'em'[p], n)
        r = {p: run1(be, 'transfer_1d_4', A[p]) for p in (0, 1)}
        a = dict(A[0], psi=S.sym('psi', real=True), ff_y=S.const(1))
        O = np.zeros((n, n))
        sv = {p: svec(f's{p}', n) for p in (0, 1)}
        Sm, Si = [np.diag(sv[p]) for p in (0, 1)], [np.diag(1 / sv[p]) for p in (0, 1)]
        bd = lambda x, y: np.block([[x, O], [O, y]])
        a.update(big_F=bd(A[0]['F'] @ Sm[0], A[1]['G'] @ Sm[1]), big_G=bd(A[0]['G'] @ Sm[0], A[1]['F'] @ Sm[1]),
                 big_T=bd(A[0]['T'] @ Sm[0], A[1]['T'] @ Sm[1]))
        Jn = J * a['n_top']
        te, tmr = r[0][0]['res'], r[1][0]['res']
        raw = lambda p, k: tm.raw(np, A[p], r[p][0]['res'], k, be, '1d').reshape((n,))
        T1 = {0: alg.as_mat(tm.col_of(r[0][1])), 1: alg.as_mat(tm.col_of(r[1][1]))}
        blks, T1all = {}, []
        for blk, (s, c) in (('res', (np.sin(a['psi']), np.cos(a['psi']))), ('res_te_inc', (S.const(1), S.const(0))), ('res_tm_inc', (S.const(0), S.const(1)))):
            o = dict(R_s=s * raw(0, 'R_s'), T_s=s * raw(0, 'T_s'), R_p=c * Jn * raw(1, 'R_p'), T_p=c * Jn * raw(1, 'T_p'))
            f = lambda v: v.reshape((n,))
            for x in 'rt':
                o[f'de_{x}i_s'], o[f'de_{x}i_p'] = s * s * f(te[f'de_{x}i_s']), c * c * f(tmr[f'de_{x}i_p'])
                o[f'de_{x}i'] = s * s * f(te[f'de_{x}i']) + c * c * f(tmr[f'de_{x}i'])
            blks[blk] = o
            T1all.append(np.block([[(Si[0] @ T1[0]) * s], [(Si[1] @ T1[1]) * (c * Jn)]]))
        yield from tm.post_2d_4('numpy')(np, a, (blks, T1all))
        yield from c05.post_eff('numpy', '2d')(np, a, (blks, None))
    return run


def lemma_task(be):
    def t(rep):
        for nm, run in (('half-spaces', lemma_1(be)), ('conical modes at ky = 0 are 1D modes', lemma_2(be)), ('1D modes are 2D modes at ky = 0', lemma_2b(be)),
                        ('layer, conical', lemma_3(be, 'conical')), ('layer, 2D', lemma_3(be, '2d')), ('top interface', lemma_4(be))):
            try:
                prove_run(rep, f'{be}.lemma[{nm}]', run)
            except Unsupported as e:
                rep.ob(f'{be}.lemma[{nm}]', 'unsupported', '-', 0, str(e))
    return t


J = 1j
KEYS = ('de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p')


# ------------------------------------------------------------------ the contracts of all formulations, and their drivers
def contracts_task(be):
    def t(rep):
        m = module(be)
        for fn in tm.CONTRACTS:
            for pol in ((0, 1) if tm.CONTRACTS[fn][1] else (0,)):
                post, _ = tm.get_post(fn, be)
                lab = f'{be}.{fn}' + (f'[pol={pol}]' if tm.CONTRACTS[fn][1] else '')
                try:
                    f = get(m, fn)
                except Unsupported as e:
                    rep.ob(lab, 'unsupported', '-', 0, str(e))
                    continue
                args = tm.sym_args(fn, be, pol)
                prove(rep, lab, f, args, post, optional=('kx',), conds=tm.sym_conds(fn, args))
        for fn, (post, haspol, pre) in tm.MODES.items():
            for pol in ((0, 1) if haspol else (0,)):
                lab = f'{be}.{fn}' + (f'[pol={pol}]' if haspol else '')
                try:
                    f = get(m, fn)
                except Unsupported as e:
                    rep.ob(lab, 'unsupported', '-', 0, str(e))
                    continue
                alg.ITE_HOOK = c02.clamp_hook(False)
                prove(rep, lab, f, tm.sym_modes(fn, pol), post, pre=pre)
                alg.ITE_HOOK = None
        for form in ('1d', '1d_conical', '2d'):
            solve.prove_solve(rep, be, form)
    return t


# ------------------------------------------------------------------ evaluation on real structures
def gen(rng, i, shape=None, conical=None):
    """one-row structures; i % 3: no azimuth; azimuth zero; any azimuth"""
    c = api.rnd_cfg(rng, dim=1, edge=.08, conical=False, shape=shape)
    if i % 3 == 2:
        c['phi'] = float(rng.choice([rng.uniform(-3.1, 3.1), rng.uniform(-1.5, 1.5), rnp.pi / 2, rnp.pi, -rnp.pi / 2, 1e-3]))
        if rng.random() < .5:
            c['pol'] = float(rng.uniform(.05, .95))
    return c


def rel(rep, be, data, what, a, b, t=lambda x: x, tol=1e-6):
    if a is None or b is None:
        return True
    for k in KEYS:
        ok, err = api.close(t(a['res'][k]), b['res'][k], tol)
        if not ok:
            rep.fail(f'{be} {k}: {what}: differs by {err}', data)
            return False
    return True


def body(rep, be, cfg, tol):
    rng = rep.rng(repr(cfg['thickness']), 'form')
    data = dict(backend=be, config=api.jsonable(cfg))
    r = e2e.call(rep, be, cfg)
    if r is None:
        return
    fx = api.fto2(cfg)[0]
    u = rnp.asarray(cfg['ucell'])
    rows = int(rng.integers(2, 5)) if be != 'jax' else 3
    rep2 = rnp.repeat(u, rows, 1)
    zero = cfg['phi'] is None or cfg['phi'] == 0
    if zero:
        other = 0. if cfg['phi'] is None else None
        if not rel(rep, be, data, f'azimuth {cfg["phi"]} and azimuth {other}', e2e.call(rep, be, dict(cfg, phi=other)), r):
            return
        if rng.random() < .3:
            for p in (0., -0.) + ((0,) if be != 'jax' else ()):
                if not rel(rep, be, data, f'azimuth {cfg["phi"]} and azimuth {p!r}', e2e.call(rep, be, dict(cfg, phi=p)), r):
                    return
        # a small azimuth approaches it
        eps = 1e-7
        if not rel(rep, be, data, f'azimuth {cfg["phi"]} and azimuth {eps}', e2e.call(rep, be, dict(cfg, phi=eps)), r, tol=1e-4):
            return
        # a mixed polarisation is the weighted sum of the two pure ones (only the 1D formulation treats pure polarisations apart)
        p = float(rng.uniform(.1, .9))
        mix, te, tmm = [e2e.call(rep, be, dict(cfg, pol=x)) for x in (p, 0, 1)]
        if mix and te and tmm:
            s = rnp.sin(rnp.pi / 2 * (1 - p)) ** 2
            w = {'res': {k: s * te['res'][k] + (1 - s) * tmm['res'][k] for k in KEYS}}
            if not rel(rep, be, dict(data, pol=p), f'pol {p} is not the weighted sum of TE and TM', mix, w):
                return
    if not rel(rep, be, data, f'the row repeated {rows} times', e2e.call(rep, be, dict(cfg, ucell=rep2)), r):
        return
    fy = 1 if be == 'jax' else int(rng.integers(1, 3))

    def centre(x):
        if rnp.abs(rnp.delete(x, fy, 0)).max() > 1e-7:
            return rnp.full((1, 2 * fx + 1), rnp.nan)
        return x[fy:fy + 1]
    if 2 * fx * fy < 20:
        for cell, what in ((rep2, f'the row repeated {rows} times'), (u, 'the one-row cell')):
            if not rel(rep, be, data, f'{what} with fto_y = {fy} (no y order may appear)', e2e.call(rep, be, dict(cfg, ucell=cell, fto=[fx, fy])), r, centre):
                return
    # rotation by 90 degrees: x -> y
    col = rnp.swapaxes(u, 1, 2)
    if cfg['fourier_type'] == 1:
        col = col[:, ::-1]
    ncol = int(rng.integers(1, 4)) if be != 'jax' else 1
    if u.shape[2] > 1:
        phi = (cfg['phi'] or 0.) + rnp.pi / 2
        px, py = api.period2(cfg)
        q = dict(cfg, ucell=rnp.repeat(col, ncol, 2), phi=phi, period=[py, px], fto=[0, fx])
        rel(rep, be, data, f'rotated by 90 degrees ({ncol} equal columns)', e2e.call(rep, be, q), r, lambda x: x.T)


def tasks(tier):
    out = [(f'lemmas[{be}]', lemma_task(be)) for be in BACKENDS] + [(f'contracts[{be}]', contracts_task(be)) for be in BACKENDS]
    out += [(f'formulation[{be}]', setters.dispatch_task(be)) for be in BACKENDS]
    for be in ('numpy', 'torch'):
        for k in range(3):
            out.append((f'relations[{be},{k}]', e2e.sweep(be, lambda rng, i, k=k: gen(rng, 3 * i + k), (60, 800), body)))
            out.append((f'e2e[{be},{k}]', e2e.sweep(be, lambda rng, i, k=k: gen(rng, 3 * i + k), (60, 800))))
    for j, s in enumerate((e2e.SHAPES[0], e2e.SHAPES[1])):
        for k in range(3):
            out.append((f'relations[jax,{s},{k}]', e2e.sweep('jax', lambda rng, i, s=s, k=k: gen(rng, 3 * i + k, s), (4, 60), body)))
    return out
