"""C10: field maps are the solved fields."""
import numpy as rnp
from vkit.contract import *
from vkit import api, core, ref
from . import e2e, fieldproof

META = dict(title='fields', assumptions=[
    'floating-point arithmetic is treated as exact field arithmetic (R, C)', 'numpy/torch/jax array primitives by contract (linspace, diag, tile, matmul, indexing)',
    'rcwa.calculate_field and conv_solve_field are covered by evaluation, not proof'],
            rule='random structures, resolutions and field selections; every sample point compared with the field of the reference solution')
SIGNS = rnp.array([-1, 1, -1, 1, -1, 1.])


def ref_map(cfg, rx, ry, rz, psi=None, ps=1):
    """fields of the reference solution on the documented sampling: z from the top of each layer to its bottom, y downwards"""
    sol, lay, k0 = api.solution(cfg, psi, None, ps)
    px, py = api.period2(cfg)
    N = len(sol.KX)
    x, y = rnp.linspace(0, px, rx), rnp.linspace(0, py, ry)[::-1]
    ph = rnp.exp(-1j * k0 * (sol.KX[None, None] * x[None, :, None] + sol.KY[None, None] * y[:, None, None]))
    out = []
    for l in range(len(lay)):
        Md, Mu, gd, gu, h = sol.modes[l]
        a, b = sol.coef[l]
        for t in rnp.linspace(0, 1, rz):
            F = Md @ (rnp.exp(gd * h * t) * a) + Mu @ (rnp.exp(gu * h * (t - 1)) * b)
            S, U = F[:2 * N], F[2 * N:]
            Ez = -1j * lay[l][2] @ (sol.KX * U[N:] - sol.KY * U[:N])
            Hz = sol.KX * S[N:] - sol.KY * S[:N]
            out.append(rnp.stack([ph @ v for v in (S[:N], S[N:], Ez, 1j * U[:N], 1j * U[N:], Hz)], -1))
    return rnp.array(out), sol


def expected_map(cfg, be, rx, ry, rz, sel):
    form = api.formulation(cfg, be)
    ps = -1 if be == 'torch' else 1
    if form == '1d':
        F, sol = ref_map(cfg, rx, 1, rz, ps=ps)
        if be == 'torch':
            pol = round(1 - 2 * api.psi_of(cfg) / rnp.pi)
            if pol == 1:
                return F.conj() * SIGNS / cfg['n_top']
            return F.conj() * SIGNS
        te = api.psi_of(cfg) > .7
        return F[..., [1, 3, 5]] if te else F[..., [4, 0, 2]] / cfg['n_top']
    out = [ref_map(cfg, rx, ry, rz, psi=p, ps=ps)[0] for p, s in zip((None, rnp.pi / 2, 0.), sel) if s]
    out = rnp.array(out)
    return out.conj() * SIGNS if be == 'torch' else out


def field(be, m, rx, ry, rz, sel, how):
    if how == 'conv_solve_field' and be != 'jax':
        return m.conv_solve_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel)[-1]
    if how == 'conv_solve_field':
        return m.conv_solve_field_no_jit(rx, ry, rz, sel)[-1]
    m.conv_solve()
    return m.calculate_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel)


def body(rep, be, cfg, tol):
    rng = rep.rng(repr(cfg['thickness']), 'res')
    rx, ry, rz = [int(v) for v in rng.integers(1, 6, 3)] if be != 'jax' else (3, 2, 3)
    sel = [(True, False, False), (True, True, True), (False, True, False), (False, False, True), (True, False, True)][int(rng.integers(5)) if rng.random() < .6 else 0]
    how = ['calculate_field', 'conv_solve_field'][int(rng.integers(2))]
    data = dict(backend=be, config=api.jsonable(cfg), res=[rx, ry, rz], select=list(sel), call=how)
    try:
        with api.quiet():
            f = api.to_np(field(be, api.make(be, cfg), rx, ry, rz, sel, how))
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        return rep.fail(f'{be} {how}: {type(e).__name__}: {e}', data)
    e = expected_map(cfg, be, rx, ry, rz, sel)
    ok, err = api.close(f, e, tol)
    if not ok:
        # a wrong solution (amplitudes) is a matter of C01-C08, not of the field map
        r = e2e.call(rep, be, cfg)
        ex = api.expected(cfg, be)
        if r is None or not all(api.close(r['res'][k], ex[k], 1e-6)[0] for k in e2e.KEYS):
            rep.bounded.append((f'{be}: the solution itself differs (see C01-C08); field map not judged', '1 configuration'))
            return
        rep.fail(f'{be} {how}: field map differs from the fields of the solution by {err}', data)


def gen(rng, i, shape=None, **kw):
    cfg = api.rnd_cfg(rng, shape=shape, mixed=True, edge=.05, fto_max=2, **kw)
    # keep exp() of the modes in range of the tolerance
    return cfg


def finding_task(rep):
    """F13: the jit-compiled jax entry raises; if it returns, it must return the fields of the no_jit entry"""
    for u, more in ((rnp.array([[[1., 2., 1.5, 1.]]]), dict(pol=0)), (rnp.array([[[1., 2., 1.5], [1., 3., 1.], [2., 1., 1.]]]), dict(pol=0, phi=.4))):
        cfg = dict(n_top=1., n_bot=1.5, theta=.3, period=[900., 800.], wavelength=600., ucell=u, thickness=[200.], fto=[1, 0 if u.shape[1] == 1 else 1], fourier_type=0, **more)
        rep.ev('F13', n=1)
        try:
            with api.quiet():
                f = api.to_np(api.make('jax', cfg).conv_solve_field(3, 2, 3)[-1])
        except Exception as e:  # noqa: BLE001
            if not type(e).__name__.startswith(('Tracer', 'NonConcrete')):
                raise
            rep.finding('F13')
            continue
        e = api.to_np(api.make('jax', cfg).conv_solve_field_no_jit(3, 2, 3)[-1])
        if not api.close(f, e, 1e-6)[0]:
            rep.fail('jax conv_solve_field differs from conv_solve_field_no_jit', dict(backend='jax', config=api.jsonable(cfg)))


def tasks(tier):
    out = [t for be in BACKENDS for t in fieldproof.proof_tasks(be)]
    for be in ('numpy', 'torch'):
        out += e2e.strata(be, '', gen, (150, 1500), body)
    for s in e2e.SHAPES[:4]:
        out.append((f'e2e[jax,{s}]', e2e.sweep('jax', lambda rng, i, s=s: gen(rng, i, shape=s), (6, 80), body)))
    return out + [('finding', finding_task)]
