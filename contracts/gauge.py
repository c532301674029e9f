"""The normalisation of the layer modes does not matter: eigenvectors scaled by any invertible diagonal matrix D give the same result.

For each formulation, with the real functions of a backend:
  modes      eig returns W D          ->  the mode matrices become W D, V D and q is unchanged
  recursion  modes W D, V D           ->  F, G, T become F D, G D, T D
  recursion  F D, G D, T D from below ->  the same F, G, T
  result     F D, G D, T D            ->  the same amplitudes and efficiencies
so the scale cancels at the next layer or in the final solve, for any number of layers."""
from vkit.contract import *
from vkit import alg, scal
from . import tm, c16


def scale(fn):
    z = tm.Sizes()
    n = z.nx if fn in ('transfer_1d_3', 'transfer_1d_4', 'transfer_1d_2', 'transfer_1d_conical_2') else z.N
    if fn in ('transfer_1d_3', 'transfer_1d_4', 'transfer_1d_2'):
        return alg.diag(svec('D', n))
    return alg.diag(alg.SegVec([svec('D1', n), svec('D2', n)]))


def wide(d):
    """diag(1, 1, D1, D2)"""
    if len(d.rows) != 2:
        return []
    n, Z, I = d.rows[0], alg.zeros((d.rows[0], d.rows[0])), alg.eye(d.rows[0])
    x = [alg.Mat([n], [n], [[d.b[k][k]]]) for k in (0, 1)]
    return [alg.block([[I, Z, Z, Z], [Z, I, Z, Z], [Z, Z, x[0], Z], [Z, Z, Z, x[1]]])]


FGT = ('F', 'G', 'T', 'big_F', 'big_G', 'big_T')


def recursion(be, fn, below):
    def run():
        a, d = tm.sym_args(fn, be), scale(fn)
        r0 = c16.go(be, fn, a)
        alg.CTX.rfac = [d] + wide(d)
        r1 = c16.go(be, fn, {k: v @ d if k in (FGT if below else ('W', 'V')) else v for k, v in a.items()})
        for k, nm in ((1, 'F'), (2, 'G'), (3, 'T')):
            yield nm, r0[k] if below else r0[k] @ d, r1[k]
    return run


def final(be, fn, pol):
    def run():
        a, d = tm.sym_args(fn, be, pol), scale(fn)
        r0 = c16.go(be, fn, a)
        alg.CTX.rfac = [d] + wide(d)
        r1 = c16.go(be, fn, {k: v @ d if k in FGT else v for k, v in a.items()})
        for (nm, x), (_, y) in zip(c16.flat('result', r0[0]), c16.flat('result', r1[0])):
            yield nm, x, y
    return run


def prove_gauge(rep, be):
    for f in ('1d', '1d_conical', '2d'):
        fn = f'transfer_{f}_3'
        c16.hooked(rep, f'{be}.{fn}[scaled modes scale F, G, T]', recursion(be, fn, False))
        c16.hooked(rep, f'{be}.{fn}[the scale of the layer below cancels]', recursion(be, fn, True))
        for pol in (0, 1) if f == '1d' else (0,):
            fn = f'transfer_{f}_4'
            c16.hooked(rep, f'{be}.{fn}[pol={pol}, scale of the top layer cancels]', final(be, fn, pol))


def modes(be, fn, pol):
    def run():
        a, d = tm.sym_modes(fn, pol), scale(fn)
        r0 = c16.go(be, fn, a)
        es = list(alg.CTX.eigs.items())
        if len(es) not in (1, 2):
            raise Unsupported(f'{len(es)} eigenproblems')
        for key, (lam, W) in es:
            if len(es) == 2:
                j = [j for j, x in enumerate(r0[0].b[0]) if set(x.t) == set(W.b[0][0].t)]
                if len(j) != 1:
                    raise Unsupported('columns of the mode matrix')
                dk = alg.Mat([d.rows[j[0]]], [d.cols[j[0]]], [[d.b[j[0]][j[0]]]])
            else:
                dk = d
            alg.CTX.eigs[key] = (lam, W @ dk)
        alg.CTX.rfac = [d] + wide(d)
        r1 = c16.go(be, fn, a)
        if len(r0) < 3:
            raise Unsupported('result')
        x, y = r0[0], r1[0]
        if isinstance(x, (tuple, list, alg.Stack)):
            raise Unsupported('mode matrices in parts')
        yield 'W', x @ d if len(x.cols) == len(d.rows) else x, y
        yield 'V', r0[1] @ d, r1[1]
        yield 'q', r0[2], r1[2]
    return run


def prove_modes(rep, be):
    for fn in tm.MODES:
        for pol in (0, 1) if tm.MODES[fn][1] else (0,):
            c16.hooked(rep, f'{be}.{fn}[pol={pol}, scaled eigenvectors scale the modes]', modes(be, fn, pol))
