"""Contracts of the enhanced-transmittance-matrix functions transfer_{1d,1d_conical,2d}_{1,3,4} of the three backends (C01, C04, C05)
and of the mode functions transfer_*_2 (C02)."""
import numpy as rnp
from vkit.contract import *
from vkit.scal import S
from vkit.path import intsym
from vkit import alg, scal

J = 1j
RES = ('R_s', 'R_p', 'T_s', 'T_p')


# ------------------------------------------------------------------ symbolic arguments, for every number of orders
class Sizes:
    def __init__(self):
        self.a, self.b = S.sym('a', real=True), S.sym('b', real=True)      # fto
        self.nx, self.ny = 2 * self.a + 1, 2 * self.b + 1
        self.N = self.nx * self.ny


def scalars():
    return dict(n_top=S.sym('n_top', real=True), n_bot=S.sym('n_bot'), theta=S.sym('theta', real=True), psi=S.sym('psi', real=True))


def ismat(x):
    return isinstance(x, (alg.Mat,)) or getattr(x, 'ndim', 0) == 2


def as_orders(x):
    """result matrices of orders may be given as (ny, nx) arrays: one comparison object"""
    return x


def bmat(M, N, k):
    return [[M[i * N:(i + 1) * N, j * N:(j + 1) * N] for j in range(k)] for i in range(k)]


# ------------------------------------------------------------------ 1D
def post_1d_1(np, a, r):
    kz_top, kz_bot, F, G, T = r
    n = kz_bot.shape[0]
    I = np.eye(n)
    adm = kz_bot if a['pol'] == 0 else kz_bot / a['n_bot'] ** 2
    yield 'substrate: F is the identity (tangential field of a unit outgoing order)', F, I
    yield 'substrate: G is the outgoing admittance', G, np.diag(J * adm)
    yield 'substrate: T is the identity', T, I


def post_3(np, a, r, W, V):
    """W, V: tangential mode matrices (rotated to each order's s/p basis)"""
    X, F, G, T, A_i, B = r
    F0, G0, T0 = (a['F'], a['G'], a['T']) if 'F' in a else (a['big_F'], a['big_G'], a['big_T'])
    I = np.eye(len_of(W))
    yield 'X is the attenuation across the layer', X, np.diag(np.exp(-a['k0'] * a['q'] * a['d']))
    yield 'E-type tangential field continuous at the lower interface', W @ (I + B @ A_i) @ X, F0 @ A_i @ X
    yield 'H-type tangential field continuous at the lower interface', V @ (I - B @ A_i) @ X, G0 @ A_i @ X
    yield 'F is the E-type tangential field at the top of the layer', F, W @ (I + X @ B @ A_i @ X)
    yield 'G is the H-type tangential field at the top of the layer', G, V @ (I - X @ B @ A_i @ X)
    yield 'T carries the amplitude of the transmitted orders', T, T0 @ A_i @ X


def len_of(W):
    return sum(W.rows, S.const(0)) if isinstance(W, alg.Mat) else W.shape[0]


def post_1d_3(np, a, r):
    yield from post_3(np, a, r, a['W'], a['V'])


def rot_2d(np, a):
    N = half(a['q'])
    c, s = np.diag(np.cos(a['varphi'])), np.diag(np.sin(a['varphi']))
    W, V = a['W'], a['V']
    W1, W2, V1, V2 = W[:N, :], W[N:, :], V[:N, :], V[N:, :]
    # E_s = cos E_y - sin E_x ; E_p(along k) = cos E_x + sin E_y ; H likewise
    return (np.block([[c @ W2 - s @ W1], [c @ W1 + s @ W2]]), np.block([[c @ V1 + s @ V2], [c @ V2 - s @ V1]]))


def half(q):
    return q.parts[0].shape[0] if isinstance(q, alg.SegVec) else q.shape[0] // 2


def rot_con(np, a):
    """conical: mode fields (E-type pair and H-type pair) in layer axes, then rotated like the 2D ones"""
    N = half(a['q'])
    c, s = np.diag(np.cos(a['varphi'])), np.diag(np.sin(a['varphi']))
    W, V = a['W'], a['V']
    W1, W2 = W[:, :N], W[:, N:]
    O = W1 @ (0 * c)
    Ex, Ey = np.block([[O, W2]]), V[:N, :]
    Hx, Hy = np.block([[W1, O]]), V[N:, :]
    return (np.block([[c @ Ey - s @ Ex], [c @ Ex + s @ Ey]]), np.block([[c @ Hx + s @ Hy], [c @ Hy - s @ Hx]]))


def post_2d_3(np, a, r):
    W, V = rot_2d(np, a)
    yield from post_3(np, a, r, W, V)


def post_con_3(np, a, r):
    W, V = rot_con(np, a)
    yield from post_3(np, a, r, W, V)


def post_2d_1(np, a, r):
    kz_top, kz_bot, varphi, F, G, T = r
    n = kz_bot.shape[0]
    I, O = np.eye(n), np.zeros((n, n))
    kx, ky = a['kx'], a['ky']
    one = np.ones((ky.shape[0], 1))
    KX = (kx * one).flatten()
    KY = (ky.reshape((-1, 1)) * np.ones((1, kx.shape[0]))).flatten()
    yield 'orders are numbered row-major in (y, x): tan(varphi) = ky/kx', np.sin(varphi) * KX, np.cos(varphi) * KY
    yield 'substrate: F', F, np.block([[I, O], [O, np.diag(J * kz_bot / a['n_bot'] ** 2)]])
    yield 'substrate: G', G, np.block([[np.diag(J * kz_bot), O], [O, I]])
    yield 'substrate: T', T, np.block([[I, O], [O, I]])


# ------------------------------------------------------------------ top interface
def delta(np, n, like=None):
    if np is rnp:
        d = rnp.zeros(n, dtype=complex)
        d[n // 2] = 1
        return d
    d = alg.zeros((n,))
    d[n // 2] = 1
    return d


def col(v):
    return v.reshape((-1, 1))


def phase(np, a):
    """torch only: orientation of each order's local basis relative to the incident one (order-local amplitudes)"""
    kx = a['kx']

    def sgn(v):
        return np.where(np.real(v) < 0, -1, 1) if np is rnp else np.where(v.real < 0, -1, 1)
    i0 = kx.shape[0] // 2
    return sgn(kx) * (sgn(kx[i0]) if np is rnp else sgn(kx[i0]))


def raw(np, a, res, key, be, form):
    """amplitudes in the numpy/jax convention recovered from the backend's documented output convention"""
    v = res[key]
    if be != 'torch':
        return v
    v = np.conj(v * phase(np, a)) if False else np.conj(v) * phase(np, a)
    if form != '1d' and key.endswith('_p'):
        v = v * (a['n_top'] if key[0] == 'R' else a['n_bot']) / J
    return v


def post_1d_4(be):
    def post(np, a, r):
        result, T1 = r
        res = result['res']
        n = a['ff_x']
        d = delta(np, n)
        n_top, th, kz = a['n_top'], a['theta'], a['kz_top']
        p = '_s' if a['pol'] == 0 else '_p'
        o = '_p' if a['pol'] == 0 else '_s'
        R = raw(np, a, res, 'R' + p, be, '1d').flatten()
        T = raw(np, a, res, 'T' + p, be, '1d').flatten()
        T1 = T1.flatten() if np is rnp else T1
        F, G, bT = a['F'], a['G'], a['T']
        y0 = n_top * np.cos(th) if a['pol'] == 0 else np.cos(th) / n_top
        ykz = kz if a['pol'] == 0 else kz / n_top ** 2
        yield 'incident + reflected E-type field = field at the top of the stack', d + R, vec(np, F @ T1)
        yield 'incident - reflected H-type field = field at the top of the stack', J * y0 * d - J * ykz * R, vec(np, G @ T1)
        yield 'transmitted amplitudes', T, vec(np, bT @ T1)
        yield 'cross-polarised amplitude is zero (R)', res['R' + o], 0 * res['R' + p]
        yield 'cross-polarised amplitude is zero (T)', res['T' + o], 0 * res['T' + p]
    return post


def vec(np, m):
    if np is rnp:
        return rnp.asarray(m).flatten()
    return alg.vec_of(m) if isinstance(m, alg.Mat) else m


def col_of(v):
    """T1 as a column, whatever its shape"""
    return v if isinstance(v, alg.Mat) else v.reshape((-1, 1))


def resblocks(result):
    return [('res', None)] + [(k, v) for k, v in (('res_te_inc', 'te'), ('res_tm_inc', 'tm')) if k in result]


def post_2d_4(be):
    sg = -1 if be == 'torch' else 1

    def post(np, a, r):
        result, T1all = r
        nx, ny = a['ff_x'], a['ff_y']
        N = nx * ny
        d = delta(np, N)
        n_top, th, kz = a['n_top'], a['theta'], a['kz_top']
        F, G, bT = a['big_F'], a['big_G'], a['big_T']
        for k, (blk, inc) in enumerate([('res', None), ('res_te_inc', 'te'), ('res_tm_inc', 'tm')]):
            res = result[blk]
            psi = a['psi'] if inc is None else ({'te': np.pi / 2, 'tm': 0}[inc])
            s, c = (np.sin(psi), sg * np.cos(psi)) if inc is None else {'te': (1, 0), 'tm': (0, sg)}[inc]
            T1 = T1all[k]
            Rs, Rp, Ts, Tp = [raw(np, a, res, q, be, '2d').reshape((N,)) for q in RES]
            FT, GT, TT = F @ T1, G @ T1, bT @ T1
            ct = np.cos(th)
            tag = f'{blk}: '
            half_ = lambda M, i: vec(np, M[i * N:(i + 1) * N, :])
            yield tag + 'E_s continuous at the top', Rs + s * d, half_(FT, 0)
            yield tag + 'E_p continuous at the top', -J * kz / n_top ** 2 * Rp - c * ct * d, half_(FT, 1)
            yield tag + 'H_p continuous at the top', -J * kz * Rs + J * n_top * ct * s * d, half_(GT, 0)
            yield tag + 'H_s continuous at the top', Rp + J * n_top * c * d, half_(GT, 1)
            yield tag + 'transmitted s amplitudes', Ts, half_(TT, 0)
            yield tag + 'transmitted p amplitudes', Tp, half_(TT, 1)
    return post


# ------------------------------------------------------------------ argument sets (symbolic, concrete)
def sym_args(fn, be, pol=0):
    z = Sizes()
    sc = scalars()
    kx, ky = svec('kx', z.nx, real=True), svec('ky', z.ny, real=True)
    if fn == 'transfer_1d_1':
        return dict(pol=S.const(pol), kx=kx, n_top=sc['n_top'], n_bot=sc['n_bot'])
    if fn in ('transfer_1d_conical_1', 'transfer_2d_1'):
        return dict(kx=kx, ky=ky, n_top=sc['n_top'], n_bot=sc['n_bot'])
    k0, d = S.sym('k0', real=True), S.sym('d', real=True)
    if fn == 'transfer_1d_3':
        n = z.nx
        return dict(k0=k0, W=smat('W', n), V=smat('V', n), q=svec('q', n), d=d, F=smat('F', n), G=smat('G', n), T=smat('T', n))
    if fn in ('transfer_1d_conical_3', 'transfer_2d_3'):
        N = z.N
        W = smat('W', N, rows=2, cols=2) if '2d' in fn else smat('W', N, rows=1, cols=2)
        return dict(k0=k0, W=W, V=smat('V', N, rows=2, cols=2), q=SegVec([svec('q1', N), svec('q2', N)]), d=d,
                    varphi=svec('varphi', N, real=True), big_F=smat('F', N, rows=2, cols=2), big_G=smat('G', N, rows=2, cols=2),
                    big_T=smat('T', N, rows=2, cols=2))
    if fn == 'transfer_1d_4':
        n = z.nx
        return dict(pol=S.const(pol), ff_x=n, F=smat('F', n), G=smat('G', n), T=smat('T', n), kx=kx, kz_top=svec('kzt', n),
                    kz_bot=svec('kzb', n), theta=sc['theta'], n_top=sc['n_top'], n_bot=sc['n_bot'])
    if fn in ('transfer_1d_conical_4', 'transfer_2d_4'):
        N = z.N
        return dict(ff_x=z.nx, ff_y=z.ny, big_F=smat('F', N, rows=2, cols=2), big_G=smat('G', N, rows=2, cols=2),
                    big_T=smat('T', N, rows=2, cols=2), kx=kx, kz_top=svec('kzt', N), kz_bot=svec('kzb', N), psi=sc['psi'],
                    theta=sc['theta'], n_top=sc['n_top'], n_bot=sc['n_bot'])
    raise KeyError(fn)


def sym_conds(fn, args):
    """preconditions of the proofs (the cases left out are evaluated: kx = 0 exactly)"""
    if fn in ('transfer_1d_conical_1', 'transfer_2d_1'):
        return [~(args['kx'].expr == 0)]
    return ()


def cmat(rng, n, m=None):
    m = m or n
    return rng.normal(size=(n, m)) + 1j * rng.normal(size=(n, m))


def gen_args(fn, be, rng, pol=0):
    a, b = (int(rng.integers(0, 4)), int(rng.integers(0, 3))) if be != 'jax' else [(0, 0), (1, 0), (2, 1)][int(rng.integers(3))]
    nx, ny = 2 * a + 1, 2 * b + 1
    N = nx * ny
    kx = rng.uniform(-3, 3, nx)
    if rng.random() < .3:
        kx[rng.integers(nx)] = rng.choice([0., 1e-9, -1e-9])
    ky = rng.uniform(-3, 3, ny)
    if rng.random() < .3:
        ky[rng.integers(ny)] = 0.
    kxc, kyc = kx.astype(complex), ky.astype(complex)
    n_top, n_bot = float(rng.uniform(1, 2.5)), complex(rng.uniform(.2, 3.5), -rng.choice([0, rng.uniform(0, 2)]))
    if n_bot.imag == 0 and be != 'torch':
        n_bot = n_bot.real if rng.random() < .5 else n_bot
    theta, psi = float(rng.uniform(0, 1.4)), float(rng.uniform(-3, 3))
    k0, d = float(rng.uniform(.1, 2)), float(rng.uniform(0, 2))
    q = lambda n: rng.uniform(0, 2, n) + 1j * rng.uniform(-2, 2, n)
    if fn == 'transfer_1d_1':
        return dict(pol=pol, kx=kxc, n_top=complex(n_top), n_bot=n_bot)
    if fn in ('transfer_1d_conical_1', 'transfer_2d_1'):
        return dict(kx=kxc, ky=kyc, n_top=complex(n_top), n_bot=n_bot)
    if fn == 'transfer_1d_3':
        return dict(k0=k0, W=cmat(rng, nx), V=cmat(rng, nx), q=q(nx), d=d, F=cmat(rng, nx), G=cmat(rng, nx), T=cmat(rng, nx))
    if fn in ('transfer_1d_conical_3', 'transfer_2d_3'):
        W = cmat(rng, 2 * N) if '2d' in fn else cmat(rng, N, 2 * N)
        return dict(k0=k0, W=W, V=cmat(rng, 2 * N), q=q(2 * N), d=d, varphi=rng.uniform(-1.5, 1.5, N).astype(complex), big_F=cmat(rng, 2 * N),
                    big_G=cmat(rng, 2 * N), big_T=cmat(rng, 2 * N))
    kz = lambda n: rng.uniform(0, 2, n) - 1j * rng.uniform(0, 2, n)
    if fn == 'transfer_1d_4':
        return dict(pol=pol, ff_x=nx, F=cmat(rng, nx), G=cmat(rng, nx), T=cmat(rng, nx), kx=kxc, kz_top=kz(nx), kz_bot=kz(nx),
                    theta=theta, n_top=n_top, n_bot=n_bot)
    return dict(ff_x=nx, ff_y=ny, big_F=cmat(rng, 2 * N), big_G=cmat(rng, 2 * N), big_T=cmat(rng, 2 * N), kx=kxc, kz_top=kz(N),
                kz_bot=kz(N), psi=psi, theta=theta, n_top=n_top, n_bot=n_bot)


CONTRACTS = {
    'transfer_1d_1': (post_1d_1, True), 'transfer_1d_3': (post_1d_3, False), 'transfer_1d_4': (post_1d_4, True),
    'transfer_1d_conical_1': (post_2d_1, False), 'transfer_1d_conical_3': (post_con_3, False), 'transfer_1d_conical_4': (post_2d_4, False),
    'transfer_2d_1': (post_2d_1, False), 'transfer_2d_3': (post_2d_3, False), 'transfer_2d_4': (post_2d_4, False),
}


def get_post(fn, be):
    p, haspol = CONTRACTS[fn]
    if fn.endswith('_4'):
        p = p(be)
    return p, haspol


# ------------------------------------------------------------------ sign conditions
def nonneg(np, name, v, sign=1, part='real', tol=1e-9):
    """part(v) * sign >= 0 for every element"""
    if np is rnp:
        x = getattr(rnp.asarray(v), part) * sign
        yield name, bool((x >= -tol * max(1., float(rnp.max(rnp.abs(x))) if x.size else 1.)).all())
        return
    parts = v.parts if isinstance(v, alg.Container) else [v]
    for i, p in enumerate(parts):
        e = (scal.real if part == 'real' else scal.imag)(p.expr if isinstance(p, alg.Arr) else scal.coerce(p))
        yield name + (f' [{i}]' if len(parts) > 1 else ''), ~(e < 0) if sign == 1 else ~(e > 0)


def neg_or_bool(c):
    return (not c) if isinstance(c, bool) else ~c


# ------------------------------------------------------------------ layer modes (C02)
def omegas(np, kx, ky, epx, epy, epzi):
    nx, ny = kx.shape[0], ky.shape[0]
    Kx = np.diag((kx * np.ones((ny, 1))).flatten())
    Ky = np.diag((ky.reshape((-1, 1)) * np.ones((1, nx))).flatten())
    I = np.eye(nx * ny)
    OR = [[-(Kx @ Ky), Kx @ Kx - epy], [epx - Ky @ Ky, Ky @ Kx]]
    OL = [[-(Kx @ epzi @ Ky), Kx @ epzi @ Kx - I], [I - Ky @ epzi @ Ky, Ky @ epzi @ Kx]]
    return Kx, Ky, I, OR, OL


def apply2(M, x):
    return [M[0][0] @ x[0] + M[0][1] @ x[1], M[1][0] @ x[0] + M[1][1] @ x[1]]


def post_2d_2(np, a, r):
    W, V, q = r
    Kx, Ky, I, OR, OL = omegas(np, a['kx'], a['ky'], a['epx_conv'], a['epy_conv'], a['epz_conv_i'])
    N = half(q)
    Ws, Vs = [W[:N, :], W[N:, :]], [V[:N, :], V[N:, :]]
    Q = np.diag(q)
    x = apply2(OR, Ws)
    y = apply2(OL, Vs)
    for i in (0, 1):
        yield f'Faraday/Ampere: Omega_R W = V Q, row {i}', x[i], Vs[i] @ Q
    for i in (0, 1):
        yield f'Faraday/Ampere: Omega_L V = W Q, row {i}', y[i], Ws[i] @ Q
    yield from nonneg(np, 'modes decay or propagate forward: Re q >= 0', q)


def post_con_2(np, a, r):
    W, V, q = r
    epx, epy, epzi = a['epx_conv'], a['epy_conv'], a['epz_conv_i']
    Kx, Ky, I, OR, OL = omegas(np, a['kx'], a['ky'], epx, epy, epzi)
    N = half(q)
    W1, W2 = W[:, :N], W[:, N:]
    if np is not rnp:
        A, B = Kx @ Kx - epy, Kx @ epzi @ Kx - I
        Ai, Bi = np.linalg.inv(A), np.linalg.inv(B)
        alg.intertwine(Kx, Kx @ epzi, B, A, Bi, Ai)
        alg.intertwine(epzi @ Kx, Kx, A, B, Ai, Bi)
    O = W1 @ (0 * I)
    S_ = [np.block([[O, W2]]), V[:N, :]]
    U_ = [np.block([[W1, O]]), V[N:, :]]
    Q = np.diag(q)
    x, y = apply2(OR, S_), apply2(OL, U_)
    for i in (0, 1):
        yield f'Faraday/Ampere: Omega_R W = V Q, row {i}', x[i], U_[i] @ Q
    for i in (0, 1):
        yield f'Faraday/Ampere: Omega_L V = W Q, row {i}', y[i], S_[i] @ Q
    yield from nonneg(np, 'modes decay or propagate forward: Re q >= 0', q)


def post_1d_2(np, a, r):
    W, V, q = r
    epx, epy, epzi = a['epx_conv'], a['epy_conv'], a['epz_conv_i']
    Kx = np.diag(a['kx'])
    I = np.eye(a['kx'].shape[0])
    Q = np.diag(q)
    if a['pol'] == 0:
        yield 'TE: (Kx^2 - epy) W = V Q', (Kx @ Kx - epy) @ W, V @ Q
        yield 'TE: V = W Q', V, W @ Q
    else:
        yield 'TM: (Kx epzi Kx - 1) W = V Q', (Kx @ epzi @ Kx - I) @ W, V @ Q
        yield 'TM: epx V = W Q', epx @ V, W @ Q
    yield from nonneg(np, 'modes decay or propagate forward: Re q >= 0', q)


def pre_con_2(np, a):
    I = np.eye(a['kx'].shape[0] * a['ky'].shape[0])
    yield 'y-invariant layer: epz_conv_i is the inverse of epy_conv', a['epz_conv_i'] @ a['epy_conv'], I
    yield 'y-invariant layer: epy_conv is the inverse of epz_conv_i', a['epy_conv'] @ a['epz_conv_i'], I


MODES = {'transfer_1d_2': (post_1d_2, True, None), 'transfer_1d_conical_2': (post_con_2, False, pre_con_2), 'transfer_2d_2': (post_2d_2, False, None)}


def sym_modes(fn, pol):
    z = Sizes()
    kx = svec('kx', z.nx, real=True)
    if fn == 'transfer_1d_2':
        n = z.nx
        return dict(pol=S.const(pol), kx=kx, epx_conv=smat('epx', n), epy_conv=smat('epy', n), epz_conv_i=smat('epzi', n))
    if fn == 'transfer_1d_conical_2':
        n, ky = z.nx, alg.Arr(((S.const(1),),), S.sym('ky0', real=True))
        return dict(kx=kx, ky=ky, epx_conv=smat('epx', n), epy_conv=smat('epy', n), epz_conv_i=smat('epzi', n))
    n, ky = z.N, svec('ky', z.ny, real=True)
    return dict(kx=kx, ky=ky, epx_conv=smat('epx', n), epy_conv=smat('epy', n), epz_conv_i=smat('epzi', n))


def gen_modes(fn, be, rng, pol):
    a, b = (int(rng.integers(0, 4)), int(rng.integers(0, 3))) if be != 'jax' else [(0, 0), (1, 0), (2, 1)][int(rng.integers(3))]
    nx, ny = 2 * a + 1, 2 * b + 1
    if fn != 'transfer_2d_2':
        ny = 1
    N = nx * ny
    kx, ky = rng.uniform(-3, 3, nx).astype(complex), rng.uniform(-3, 3, ny).astype(complex)
    M = lambda: np_herm(rng, N)
    epx, epy = M(), M()
    epzi = rnp.linalg.inv(epy) if fn == 'transfer_1d_conical_2' else rnp.linalg.inv(M())
    d = dict(kx=kx, epx_conv=epx, epy_conv=epy, epz_conv_i=epzi)
    if fn == 'transfer_1d_2':
        d['pol'] = pol
    else:
        d['ky'] = ky
    return d


def np_herm(rng, n):
    m = cmat(rng, n) * .3
    m = m + m.conj().T + rnp.diag(rng.uniform(2, 9, n)).astype(complex)
    if rng.random() < .5:
        m = m - 1j * rnp.diag(rng.uniform(0, 2, n))
    return m
