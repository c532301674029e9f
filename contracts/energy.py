"""Energy balance of a whole lossless stack, as lemmas over the contracts of the transfer functions.

With the form <F, G> = F^H s G - G^H s F (s = 1 in 1D, diag(-1, 1) in the rotated basis of the conical and 2D formulations):
  modes      the mode equations with Hermitian layer matrices make h Q and Q^H h Hermitian, h = E^H J H      (contract of transfer_*_2)
  rotation   the same h in the rotated basis                                                                  (definition used by transfer_*_3)
  entries    so X^H (h - h^H) X = h - h^H and X^H (h + h^H) = (h + h^H) X with X = exp(-k0 q d), k0 d real
  layer      <F, G> at the top of a layer = (A_i X)^H <F0, G0> (A_i X) from below, T = T0 A_i X               (contract of transfer_*_3)
  substrate  <F, G> = +-2j diag(flux factors of the transmitted orders), T = 1                                 (contract of transfer_*_1)
  top        u^H <F, G> u = +-2j (incident flux - flux of the reflected orders), u the solved amplitudes       (contract of transfer_*_4)
  efficiency the flux factors are those of de_ri, de_ti                                                        (contract of this property)
By induction over the layers u^H <F, G> u = (T u)^H <substrate> (T u), that is sum de_ri + sum de_ti = 1.
The equations used are the ones the contracts yield (tm.post_*), not copies of them."""
import time
from vkit.contract import *
from vkit import alg, scal, shim
from vkit.alg import NC, Mat
from vkit.scal import S
from . import tm, c05

J = 1j
_adj = {}


def adj_letter(k, x):
    if k == 'D':
        return alg.nc_diag(scal.conj(alg.mono_S(x)))
    if (k, x) not in _adj:
        n = alg._newname(alg._names[x] + '^H')
        k2 = {'M': 'M', 'C': 'R', 'R': 'C'}[k]
        _adj[(k, x)] = NC({((k2, n),): S.const(1)})
        _adj[(k2, n)] = NC({((k, x),): S.const(1)})
    return _adj[(k, x)]


def adj_nc(nc):
    out = NC()
    for w, c in nc.t.items():
        r = NC({(): scal.conj(c)})
        for k, x in reversed(w):
            r = r * adj_letter(k, x)
        out = out + r
    return out


def adj(m):
    return Mat(m.cols, m.rows, [[adj_nc(m.b[i][j]) for i in range(len(m.rows))] for j in range(len(m.cols))])


def letter(nc):
    (w, c), = nc.t.items()
    return w[0]


def hermitian(m, sign=1):
    """declare the letters of a (block) matrix: m^H = sign m"""
    n = len(m.rows)
    for i in range(n):
        for j in range(n):
            _adj[letter(m.b[i][j])] = m.b[j][i].scale(S.const(sign))
    return m


def hyp(name, l, r):
    d = l - r
    for row in d.b:
        for x in row:
            alg.CTX.hyp(name, x)


def form(E, H):
    """E^H J H for lists of tangential components: 1 component: E^H H; (x, y): E_x^H H_y - E_y^H H_x"""
    if len(E) == 1:
        return adj(E[0]) @ H[0]
    return adj(E[0]) @ H[1] - adj(E[1]) @ H[0]


def sform(F, G):
    """F^H s G in the basis of transfer_*_3"""
    if len(F.rows) == 1:
        return adj(F) @ G
    n = F.rows[0]
    top, bot = (lambda M: Mat([n], M.cols, [M.b[0]])), (lambda M: Mat([n], M.cols, [M.b[1]]))
    return adj(bot(F)) @ bot(G) - adj(top(F)) @ top(G)


def Phi(F, G):
    h = sform(F, G)
    return h - adj(h)


# ------------------------------------------------------------------ modes
def mode_case(fn, pol):
    z = tm.Sizes()
    a = tm.sym_modes(fn, pol)
    for k in ('epx_conv', 'epy_conv', 'epz_conv_i'):
        hermitian(a[k])
    n = z.N if fn == 'transfer_2d_2' else z.nx
    if fn == 'transfer_1d_2':
        r = (smat('W', n), smat('V', n), svec('q', n))
    elif fn == 'transfer_2d_2':
        r = (smat('W', n, rows=2, cols=2), smat('V', n, rows=2, cols=2), SegVec([svec('q1', n), svec('q2', n)]))
    else:
        r = (smat('W', n, rows=1, cols=2), smat('V', n, rows=2, cols=2), SegVec([svec('q1', n), svec('q2', n)]))
    return a, r


def fields(np, fn, r):
    """tangential (E, H) mode fields in layer axes"""
    W, V, q = r
    if fn == 'transfer_1d_2':
        return [W], [V]
    N = tm.half(q)
    if fn == 'transfer_2d_2':
        return [W[:N, :], W[N:, :]], [V[:N, :], V[N:, :]]
    O = W[:, :N] @ (0 * np.eye(N))
    return [np.block([[O, W[:, N:]]]), V[:N, :]], [np.block([[W[:, :N], O]]), V[N:, :]]


def modes(fn, pol):
    def run():
        np = shim.np_shim()
        a, r = mode_case(fn, pol)
        E, H = fields(np, fn, r)
        Q = np.diag(r[2])
        first, second = equations(np, fn, pol, a, r)
        h = form(E, H)
        A = form(E, [l for _, l, _ in first])
        yield 'E^H J (left side of the first mode equation) is Hermitian', A, adj(A)
        yield 'its right side gives h Q', form(E, [x for _, _, x in first]), h @ Q
        B = form([l for _, l, _ in second], H)
        yield '(left side of the second mode equation)^H J H is Hermitian', B, adj(B)
        yield 'its right side gives Q^H h', form([x for _, _, x in second], H), adj(Q) @ h
    return run


def rotation(fn):
    def run():
        np = shim.np_shim()
        a = tm.sym_args(fn, 'numpy')
        W, V = (tm.rot_2d if fn == 'transfer_2d_3' else tm.rot_con)(np, a)
        E, H = fields(np, fn.replace('_3', '_2'), (a['W'], a['V'], a['q']))
        yield 'W^H s V in the rotated basis is E^H J H', sform(W, V), form(E, H)
    return run


def entries():
    """from entries of the two Hermitian matrices to the action of X"""
    def run():
        p, q, h, g = S.sym('q_i'), S.sym('q_j'), S.sym('h_ij'), S.sym('h_ji')       # entry (i, j) of h and (j, i)
        c = scal.conj
        e1 = h * q - c(p) * c(g)                  # h Q Hermitian, entry (i, j):  h_ij q_j = conj(h_ji q_i)
        e2 = c(p) * h - c(g) * q                  # Q^H h Hermitian: conj(q_i) h_ij = conj(conj(q_j) h_ji)
        yield '(h - h^H)_ij (q_j + conj q_i) = 0', (h - c(g)) * (q + c(p)), e1 + e2
        yield '(h + h^H)_ij (q_j - conj q_i) = 0', (h + c(g)) * (q - c(p)), e1 - e2
        k0, d, k = S.sym('k0', real=True), S.sym('d', real=True), S.sym('k')
        X = lambda v: scal.exp(-k0 * v * d)
        yield 'q_j = -conj q_i: conj(X_i) k X_j = k', c(X(p)) * k * X(-c(p)), k
        yield 'q_j = conj q_i: conj(X_i) k = k X_j', c(X(p)) * k, k * X(c(p))
        yield 'k = 0: both sides vanish', c(X(p)) * (k * 0) * X(q), k * 0
    return run


# ------------------------------------------------------------------ absorption: the flux never grows along a layer
def lossy(name, n, sign):
    """ep = H + sign j N with Hermitian H, N"""
    H, N = hermitian(smat(f'{name}_H', n)), hermitian(smat(f'{name}_N', n))
    return H + N * (J * sign), N


def equations(np, fn, pol, a, r):
    """(first, second): left and right sides of the two mode equations of the contract"""
    eqs = [g for g in tm.MODES[fn][0](np, a, r) if len(g) == 3]
    k = 1 if fn == 'transfer_1d_2' else 2
    return eqs[:k], eqs[k:2 * k]


def absorb(fn, pol):
    """E(z) = W (p + m), H(z) = V (p - m), p' = -k0 Q p, m' = k0 Q m: derivative of the flux"""
    def run():
        np = shim.np_shim()
        a, r = mode_case(fn, pol)
        n = a['epx_conv'].rows[0]
        a['epx_conv'], Nx = lossy('epx', n, -1)
        a['epy_conv'], Ny = lossy('epy', n, -1)
        a['epz_conv_i'], Nz = lossy('epzi', n, 1)
        first, second = equations(np, fn, pol, a, r)
        E, H = fields(np, fn, r)
        k = len(r[2].parts) if isinstance(r[2], SegVec) else 1
        p, m = (Mat([n] * k, [1], [[alg.nc_atom(f'{x}{i}')] for i in range(k)]) for x in 'pm')
        Q, k0 = np.diag(r[2]), S.sym('k0', real=True)
        dp, dm = (Q @ p) * (-k0), (Q @ m) * k0
        Ez, Hz = [e @ (p + m) for e in E], [h @ (p - m) for h in H]
        # the derivatives, by the right sides of the contract's equations, then by their left sides
        for i, (_, l, rr) in enumerate(second):
            yield f'E_{i}\' = -k0 (W Q)(p - m)', E[i] @ (dp + dm), (rr @ (p - m)) * (-k0)
        for i, (_, l, rr) in enumerate(first):
            yield f'H_{i}\' = -k0 (V Q)(p + m)', H[i] @ (dp - dm), (rr @ (p + m)) * (-k0)
        dE = [(l @ (p - m)) * (-k0) for _, l, _ in second]
        dH = [(l @ (p + m)) * (-k0) for _, l, _ in first]
        d = form(dE, Hz) + form(Ez, dH)
        d = d - adj(d)
        sq = lambda N, v: adj(v) @ N @ v
        if fn == 'transfer_1d_2':
            Kx = np.diag(a['kx'])
            loss = sq(Ny, Ez[0]) if pol == 0 else sq(Nz, Kx @ Ez[0]) + sq(Nx, Hz[0])
            yield 'flux\' = -k0 (absorbed power)', d, loss * (2 * J * -k0)
        else:
            Kx, Ky = tm.omegas(np, a['kx'], a['ky'], a['epx_conv'], a['epy_conv'], a['epz_conv_i'])[:2]
            loss = sq(Nx, Ez[0]) + sq(Ny, Ez[1]) + sq(Nz, Kx @ Hz[1] - Ky @ Hz[0])
            yield 'flux\' = -k0 (absorbed power)', d, loss * (-2 * J * -k0)
    return run


def ends(fn):
    """the field inside the layer takes the values of the layer contract at both faces"""
    def run():
        np = shim.np_shim()
        z = tm.Sizes()
        one = fn == 'transfer_1d_3'
        n, k = (z.nx, 1) if one else (z.N, 2)
        mk = lambda nm: smat(nm, n, rows=k, cols=k)
        W, V, F0, G0, T0, F, G, T, Ai, B = [mk(x) for x in ('W', 'V', 'F0', 'G0', 'T0', 'F', 'G', 'T', 'Ai', 'B')]
        a = dict(k0=S.sym('k0', real=True), d=S.sym('d', real=True), q=svec('q', n) if one else SegVec([svec('q1', n), svec('q2', n)]),
                 **(dict(F=F0, G=G0, T=T0) if one else dict(big_F=F0, big_G=G0, big_T=T0)))
        X = np.diag(np.exp(-a['k0'] * a['q'] * a['d']))
        Y = np.diag(np.exp(a['k0'] * a['q'] * a['d']))
        eq = list(tm.post_3(np, a, (X, F, G, T, Ai, B), W, V))
        if len(eq) != 6:
            raise Unsupported('contract of the layer step')
        I = np.eye(k * n) if k == 1 else np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), np.eye(n)]])
        m0 = X @ B @ Ai @ X
        yield 'X of the contract', eq[0][1], eq[0][2]
        yield 'top, E', W @ (I + m0), eq[3][2]
        yield 'top, H', V @ (I - m0), eq[4][2]
        yield 'bottom, E', W @ (X + Y @ m0), eq[1][1]
        yield 'bottom, H', V @ (X - Y @ m0), eq[2][1]
    return run


def convolution():
    """matrices of the layer: entry (m, n) of the convolution matrix of g is the mean of g exp(-j (m - n) t)"""
    def run():
        np = shim.np_shim()
        c = scal.conj
        t, mm, nn, g = S.sym('t', real=True), S.sym('m', real=True), S.sym('n', real=True), S.sym('g', real=True)
        e = lambda v: scal.exp(-J * v * t)
        yield 'g real: the matrix is Hermitian, term by term', c(g * e(nn - mm)), g * e(mm - nn)
        x, y = S.sym('c_m'), S.sym('c_n')
        yield 'the quadratic form is the mean of g |sum c_n exp(j n t)|^2, term by term', c(x) * g * e(mm - nn) * y, g * c(x * e(-mm)) * (y * e(-nn))
        n = tm.Sizes().N
        H, N = hermitian(smat('H', n)), hermitian(smat('N', n))
        M = H + N * J                                    # 1/ep = 1/(ep' - j ep''): imaginary part >= 0
        Mi = np.linalg.inv(M)
        Mh = adj(Mi)
        hyp('adjoint of the inverse', adj(M) @ Mh, np.eye(n))
        hyp('adjoint of the inverse', Mh @ adj(M), np.eye(n))
        yield 'inverse rule: M^-1 - M^-H = -2j M^-1 N M^-H', Mi - Mh, Mi @ N @ Mh * (-2 * J)
        e1, e2 = S.sym('e1', real=True), S.sym('e2', real=True)
        ep = e1 - J * e2
        yield 'Im(1/ep) |ep|^2 = -Im ep', scal.imag(ep.recip()) * ep * c(ep), e2
    return run


# ------------------------------------------------------------------ one layer
def layer(fn):
    def run():
        np = shim.np_shim()
        z = tm.Sizes()
        one = fn == 'transfer_1d_3'
        n, k = (z.nx, 1) if one else (z.N, 2)
        mk = lambda nm: smat(nm, n, rows=k, cols=k)
        W, V, F0, G0, T0, F, G, T, Ai, B = [mk(x) for x in ('W', 'V', 'F0', 'G0', 'T0', 'F', 'G', 'T', 'Ai', 'B')]
        Kp, Km = hermitian(mk('Kp')), hermitian(mk('Km'), -1)
        x = svec('x', n) if one else SegVec([svec('x1', n), svec('x2', n)])
        X = np.diag(x)
        a = dict(k0=S.sym('k0', real=True), d=S.sym('d', real=True), q=svec('q', n) if one else SegVec([svec('q1', n), svec('q2', n)]),
                 **(dict(F=F0, G=G0, T=T0) if one else dict(big_F=F0, big_G=G0, big_T=T0)))
        eq = [g for g in tm.post_3(np, a, (X, F, G, T, Ai, B), W, V)]
        if len(eq) != 6:
            raise Unsupported('contract of the layer step')
        (_, _, _), (_, el, er), (_, hl, hr), (_, fl, fr), (_, gl, gr), (_, tl, tr) = eq
        h = sform(W, V)
        two = S.const(2).recip()
        hyp('h = (Kp + Km)/2', h, (Kp + Km) * two)
        hyp('h^H = (Kp - Km)/2', adj(h), (Kp - Km) * two)
        hyp('X^H Km X = Km', adj(X) @ Km @ X, Km)
        hyp('X^H Kp = Kp X', adj(X) @ Kp, Kp @ X)
        C = Ai @ X
        yield 'the contract gives F and G', fl, F
        yield 'G', gl, G
        yield 'F0 A_i X and G0 A_i X are the fields below', Phi(er, hr), adj(C) @ Phi(F0, G0) @ C
        yield '<F, G> = <fields below>', Phi(fr, gr), Phi(el, hl)
        s = np.diag(svec('s', n, real=True) if one else SegVec([svec('s1', n, real=True), svec('s2', n, real=True)])) * J
        yield 'induction: <F0, G0> = T0^H s T0 gives (A_i X)^H <F0, G0> A_i X = T^H s T', adj(C) @ (adj(T0) @ s @ T0) @ C, adj(tr) @ s @ tr
        yield 'the contract gives T', tl, T
    return run


# ------------------------------------------------------------------ ends of the stack
def weights(np, a, kz, n, pol, k):
    w = [scal_re(np, kz), scal_re(np, kz / n ** 2)]
    return [w[pol]] if k == 1 else w


def scal_re(np, v):
    return np.real(v)


def substrate(fn, pol):
    def run():
        np = shim.np_shim()
        z = tm.Sizes()
        a = tm.sym_args(fn, 'numpy', pol)
        one = fn == 'transfer_1d_1'
        n, k = (z.nx, 1) if one else (z.N, 2)
        kz = svec('kzb', n)
        mk = lambda nm: smat(nm, n, rows=k, cols=k)
        F, G, T = mk('F'), mk('G'), mk('T')
        r = (svec('kzt', n), kz) + (() if one else (svec('varphi', n, real=True),)) + (F, G, T)
        eq = {g[0].split(':')[1].split()[0]: g for g in tm.get_post(fn, 'numpy')[0](np, a, r) if g[0].startswith('substrate')}
        f, g, t = [eq[x][2] for x in 'FGT']
        w = weights(np, a, kz, a['n_bot'], pol, k)
        s = np.diag(w[0]) if k == 1 else np.diag(SegVec(w))
        yield '<F, G> = 2j s', Phi(f, g), s * (2 * J * (1 if k == 1 else -1))
        yield 'T^H s T = s', adj(t) @ s @ t, s
    return run


def at_order(e, inc):
    """value at the incident order (inc = 1) or at another one (0): the Kronecker delta of the incident wave"""
    def f(a):
        if a.kind == 'el' and len(a.args[0].w) == 1 and a.args[0].w[0][1] in set(alg._units.values()):
            return S.const(inc)
        if a.kind == 'conj':
            x = f(scal._by_id[a.args[0]])
            return None if x is None else scal.conj(x)
        return None
    return scal.map_atoms(e, f)


def top(be, fn, pol):
    def run():
        np = shim.np_shim()
        a = tm.sym_args(fn, be, pol)
        one = fn == 'transfer_1d_4'
        n = a['ff_x'] if one else a['ff_x'] * a['ff_y']
        kz, nt = a['kz_top'], a['n_top']
        post = tm.get_post(fn, be)[0]
        blocks = ['res'] if one else ['res', 'res_te_inc', 'res_tm_inc']
        shp = lambda v: v if one else v.reshape((a['ff_y'], a['ff_x']))
        res = {b: {q: shp(svec(f'{b}.{q}', n)) for q in tm.RES} for b in blocks}
        u = smat('u', n, 1, rows=1 if one else 2)
        r = (res, u if one else [u, u, u])
        eq = list(post(np, a, r))
        form_ = '1d' if one else '2d'
        for bi, b in enumerate(blocks):
            e = [x[1] for x in (eq[:2] if one else eq[6 * bi:6 * bi + 4])]
            ex = [v.expr if isinstance(v, alg.Arr) else scal.coerce(v) for v in e]
            c = scal.conj
            if one:
                flow = c(ex[0]) * ex[1] - c(ex[1]) * ex[0]
                sg = 1
            else:
                flow = c(ex[1]) * ex[3] - c(ex[3]) * ex[1] - c(ex[0]) * ex[2] + c(ex[2]) * ex[0]
                sg = -1
            ps = [pol] if one else [0, 1]
            amp = [tm.raw(np, a, res[b], 'R_' + 'sp'[p], be, form_).reshape((n,)).expr for p in ps]
            w = [x.expr for x in weights(np, a, kz, nt, pol, 1 if one else 2)]
            refl = sum((x * c(x) * y for x, y in zip(amp, w)), S.const(0))
            ct = scal.cos(a['theta'])
            inc = ct / nt if one and pol == 1 else nt * ct
            kz0 = lambda x: sub_kz(x, kz.expr, nt * ct)
            yield f'{b}: flux through an order without incident wave', at_order(flow, 0), S.const(2 * J * sg) * (-refl)
            yield f'{b}: flux through the incident order', kz0(at_order(flow, 1)), S.const(2 * J * sg) * (inc - kz0(refl))
            # the efficiencies are these fluxes over the incident one
            fl = [c05.flux(np, a, form_, 'r', 'sp'[p]).expr for p in ps]
            for x, y, p in zip(fl, w, ps):
                yield f'{b}: de_ri_{"sp"[p]} is the flux over the incident flux', x * inc, y
            ft = [c05.flux(np, a, form_, 't', 'sp'[p]).expr for p in ps]
            wt = [x.expr for x in weights(np, a, a['kz_bot'], a['n_bot'], pol, 1 if one else 2)]
            for x, y, p in zip(ft, wt, ps):
                yield f'{b}: de_ti_{"sp"[p]} is the flux over the incident flux', x * inc, y
    return run


def sub_kz(e, kz, val):
    (m, _), = kz.terms.items()
    aid = m[0][0]

    def f(a):
        if a.id == aid:
            return val
        if a.kind == 'conj' and a.args[0] == aid:
            return scal.conj(val)
        return None
    return scal.map_atoms(e, f)


def prove_energy(rep):
    for fn in tm.MODES:
        for pol in (0, 1) if tm.MODES[fn][1] else (0,):
            prove_run(rep, f'energy: modes of {fn}' + (f'[pol={pol}]' if tm.MODES[fn][1] else ''), modes(fn, pol))
    for fn in ('transfer_2d_3', 'transfer_1d_conical_3'):
        prove_run(rep, f'energy: rotation of {fn}', rotation(fn))
    prove_run(rep, 'energy: entries', entries())
    for fn in tm.MODES:
        for pol in (0, 1) if tm.MODES[fn][1] else (0,):
            prove_run(rep, f'absorption: layers of {fn}' + (f'[pol={pol}]' if tm.MODES[fn][1] else ''), absorb(fn, pol))
    for fn in ('transfer_1d_3', 'transfer_2d_3'):
        prove_run(rep, 'absorption: faces of a layer ' + ('1d' if '1d' in fn else '2d and conical'), ends(fn))
    prove_run(rep, 'lossless and absorbing layers: convolution matrices', convolution())
    for fn in ('transfer_1d_3', 'transfer_2d_3'):
        prove_run(rep, 'energy: layer step ' + ('1d' if '1d' in fn else '2d and conical'), layer(fn))
    for fn, pol in (('transfer_1d_1', 0), ('transfer_1d_1', 1), ('transfer_2d_1', 0)):
        prove_run(rep, f'energy: substrate {fn}[pol={pol}]', substrate(fn, pol))
    for be in BACKENDS:
        for fn, pol in (('transfer_1d_4', 0), ('transfer_1d_4', 1), ('transfer_2d_4', 0)):
            prove_run(rep, f'energy: {be} {fn}[pol={pol}]', top(be, fn, pol))
