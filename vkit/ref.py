"""Independent reference for the truncated Fourier-modal problem (numpy only, no meent code).

Convention read off the documented behaviour of meent: time dependence exp(+jwt), fields exp(-j k.r), complex index n - ik,
lengths in units 1/k0, H = jU/Z0, z counted downwards from the top interface while the z axis points up.
 S = (Ex, Ey),  U = (Ux, Uy):  dS/dz = OL U,  dU/dz = OR S.
Per layer the full first-order 4N x 4N system is diagonalised; all interface conditions are solved in one dense linear
system (no transfer-matrix recursion)."""
import numpy as np


def coef_pc(edges, vals, orders):
    """exact Fourier coefficients over [0,1] of a piecewise constant function; edges: right ends (last = 1), vals (...,n)"""
    e = np.asarray(edges, dtype=float)
    left = np.concatenate(([0.], e[:-1]))
    vals = np.asarray(vals, dtype=complex)
    out = []
    for m in orders:
        if m == 0:
            w = e - left
        else:
            w = (np.exp(-2j * np.pi * m * left) - np.exp(-2j * np.pi * m * e)) / (2j * np.pi * m)
        out.append(vals @ w)
    return np.stack(out, -1)


def toep(c, fto):
    """c[..., m + 2 fto] -> T[..., r, s] = c_{s - r}"""
    n = 2 * fto + 1
    i = np.arange(n)
    return c[..., (i[None, :] - i[:, None]) + 2 * fto]


def coef_dft(vals, orders):
    n = vals.shape[-1]
    j = np.arange(n)
    return np.stack([vals @ np.exp(-2j * np.pi * m * j / n) / n for m in orders], -1)


def conv_mats(eps, fx, fy, coef_x, coef_y):
    """eps[iy, ix] on a product grid; coef_x/coef_y: (values over last axis, orders) -> coefficients. Li's rules."""
    eps = np.asarray(eps, dtype=complex)
    ox, oy = range(-2 * fx, 2 * fx + 1), range(-2 * fy, 2 * fy + 1)
    ny = 2 * fy + 1
    nx = 2 * fx + 1

    def y_toep(g):     # g[iy, ix] -> (ix, ny, ny)
        return toep(coef_y(g.T, oy), fy)

    def x_toep(t):     # t (ix, ny, ny) -> (ny*nx, ny*nx), y-major
        c = coef_x(np.moveaxis(t, 0, -1), ox)
        T = toep(c, fx)                                # (ny, ny, nx, nx)
        return T.transpose(0, 2, 1, 3).reshape(ny * nx, ny * nx)

    epz = x_toep(y_toep(eps))
    epy = x_toep(np.linalg.inv(y_toep(1 / eps)))
    epx = np.linalg.inv(x_toep(np.linalg.inv(y_toep(eps))))
    return epx, epy, np.linalg.inv(epz)


def conv_raster_continuous(n_cell, fx, fy):
    """n_cell[row, col], rows counted downwards in y (row 0 is the largest y)"""
    eps = np.asarray(n_cell, dtype=complex)[::-1] ** 2
    ny, nx = eps.shape
    ex, ey = np.arange(1, nx + 1) / nx, np.arange(1, ny + 1) / ny
    return conv_mats(eps, fx, fy, lambda v, o: coef_pc(ex, v, o), lambda v, o: coef_pc(ey, v, o))


def conv_raster_discrete(n_cell, fx, fy, enhanced=True):
    cell = np.asarray(n_cell, dtype=complex)
    my, mx = (4 * fy + 1), (4 * fx + 1)
    if enhanced:
        my, mx = my * cell.shape[0], mx * cell.shape[1]
    if cell.shape[0] < my:
        cell = np.repeat(cell, my // cell.shape[0] + 1, axis=0)
    if cell.shape[1] < mx:
        cell = np.repeat(cell, mx // cell.shape[1] + 1, axis=1)
    return conv_mats(cell ** 2, fx, fy, coef_dft, coef_dft)


def conv_vector(n_grid, xs, ys, fx, fy):
    """n_grid[iy, ix], xs/ys right ends; normalised by the last end"""
    xs, ys = np.asarray(xs, dtype=float).ravel(), np.asarray(ys, dtype=float).ravel()
    eps = np.asarray(n_grid, dtype=complex) ** 2
    return conv_mats(eps, fx, fy, lambda v, o: coef_pc(xs / xs[-1], v, o), lambda v, o: coef_pc(ys / ys[-1], v, o))


def kxy(n_top, theta, phi, wavelength, period, fx, fy):
    kx = n_top * np.sin(theta) * np.cos(phi) + np.arange(-fx, fx + 1) * wavelength / period[0]
    ky = n_top * np.sin(theta) * np.sin(phi) + np.arange(-fy, fy + 1) * wavelength / period[1]
    return kx.astype(complex), ky.astype(complex)


def kz_of(n, k2):
    """outgoing/decaying root of n^2 - k^2 for exp(-j kz z): Im kz <= 0, and Re kz >= 0"""
    z = np.sqrt(n ** 2 - k2 + 0j)
    z = np.where(z.imag > 1e-300, -z, z)            # decaying
    z = np.where((np.abs(z.imag) <= 1e-14 * np.abs(z)) & (z.real < 0), -z, z)
    return z


def omegas(Kx, Ky, epx, epy, epzi):
    I = np.eye(len(Kx))
    OL = np.block([[-Kx @ epzi @ Ky, Kx @ epzi @ Kx - I], [I - Ky @ epzi @ Ky, Ky @ epzi @ Kx]])
    OR = np.block([[-Kx @ Ky, Kx @ Kx - epy], [epx - Ky @ Ky, Ky @ Kx]])
    return OL, OR


class Sol:
    pass


def solve(kx, ky, layers, k0, n_top, n_bot, theta, phi, inc_s, inc_p):
    """layers: list of (epx, epy, epzi, thickness). Incident field: E_s = inc_s along s, and U_s = inc_p (a p wave).
    s is the unit vector (-sin phi, cos phi); U_s is the s component of U."""
    nx, ny = len(kx), len(ky)
    N = nx * ny
    KX, KY = np.tile(kx, ny), np.repeat(ky, nx)
    Kx, Ky = np.diag(KX), np.diag(KY)
    k2 = KX ** 2 + KY ** 2

    def half(n, sign):
        """modes exp(sign*j kz z)"""
        kz = kz_of(n, k2)
        e = np.eye(N) * n ** 2
        _, OR = omegas(Kx, Ky, e, e, np.linalg.inv(e))
        g = sign * 1j * kz
        Y = np.diag(np.concatenate((1 / g, 1 / g))) @ OR      # U = OR S / g   (homogeneous: block diagonal per order)
        return kz, Y
    kzt, Yr = half(n_top, +1)
    _, Yi = half(n_top, -1)
    kzb, Yt = half(n_bot, -1)
    c = N // 2
    # incident tangential field
    S0 = np.zeros(2 * N, complex)
    U0 = np.zeros(2 * N, complex)
    s = np.array([-np.sin(phi), np.cos(phi)])
    p = np.array([np.cos(phi), np.sin(phi)])
    S0[c], S0[N + c] = inc_s * s
    # p wave: U along s with amplitude inc_p ; E tangential from dU/dz = OR S -> use dS/dz = OL U : S = OL U / g
    g = -1j * n_top * np.cos(theta)
    e = np.eye(N) * n_top ** 2
    OLt, _ = omegas(Kx, Ky, e, e, np.linalg.inv(e))
    Up = np.zeros(2 * N, complex)
    Up[c], Up[N + c] = inc_p * s
    S0 = S0 + OLt @ Up / g
    Ss = np.zeros(2 * N, complex)
    Ss[c], Ss[N + c] = inc_s * s
    _, ORt = omegas(Kx, Ky, e, e, np.linalg.inv(e))
    U0 = ORt @ Ss / g + Up
    # layers
    modes = []
    for epx, epy, epzi, d in layers:
        OL, OR = omegas(Kx, Ky, epx, epy, epzi)
        Z = np.zeros_like(OL)
        g, M = np.linalg.eig(np.block([[Z, OL], [OR, Z]]))
        o = np.argsort(g.real + 1e-9 * g.imag, kind='stable')
        dn, up = o[:2 * N], o[2 * N:]
        gd, gu = g[dn], g[up]
        Md, Mu = M[:, dn], M[:, up]
        modes.append((Md, Mu, gd, gu, k0 * d))
    n_l = len(modes)
    # unknowns: R (2N, S), per layer a (2N, down referenced to top), b (2N, up referenced to bottom), T (2N, S)
    D = 2 * N
    A = np.zeros((D * 2 * (n_l + 1), D * 2 * (n_l + 1)), complex)
    b = np.zeros(D * 2 * (n_l + 1), complex)
    col_R = 0
    col = lambda l: D + 2 * D * l
    col_T = D + 2 * D * n_l
    I = np.eye(D)
    for f in range(n_l + 1):
        r = 2 * D * f
        # fields above
        if f == 0:
            A[r:r + D, col_R:col_R + D] += I
            A[r + D:r + 2 * D, col_R:col_R + D] += Yr
            b[r:r + D] -= S0
            b[r + D:r + 2 * D] -= U0
        else:
            Md, Mu, gd, gu, h = modes[f - 1]
            A[r:r + 2 * D, col(f - 1):col(f - 1) + D] += Md * np.exp(gd * h)
            A[r:r + 2 * D, col(f - 1) + D:col(f - 1) + 2 * D] += Mu
        if f == n_l:
            A[r:r + D, col_T:col_T + D] -= I
            A[r + D:r + 2 * D, col_T:col_T + D] -= Yt
        else:
            Md, Mu, gd, gu, h = modes[f]
            A[r:r + 2 * D, col(f):col(f) + D] -= Md
            A[r:r + 2 * D, col(f) + D:col(f) + 2 * D] -= Mu * np.exp(-gu * h)
    x = np.linalg.solve(A, b)
    out = Sol()
    out.kx, out.ky, out.KX, out.KY, out.kzt, out.kzb = kx, ky, KX, KY, kzt, kzb
    R, T = x[:D], x[col_T:col_T + D]
    out.SR, out.UR, out.ST, out.UT = R, Yr @ R, T, Yt @ T
    out.modes, out.coef = modes, [(x[col(l):col(l) + D], x[col(l) + D:col(l) + 2 * D]) for l in range(n_l)]
    # flux per order, normalised to a unit-amplitude incident wave in n_top
    norm = (n_top * np.cos(theta)).real

    def flux(S, U):
        # downward Poynting flux ~ Re(Ey Hx* - Ex Hy*) for z up, H = jU
        Ex, Ey, Hx, Hy = S[:N], S[N:], 1j * U[:N], 1j * U[N:]
        return (Ey * Hx.conj() - Ex * Hy.conj()).real / norm
    out.de_r, out.de_t = -flux(out.SR, out.UR), flux(out.ST, out.UT)
    # order-local s/p amplitudes, basis angle atan(ky/kx) (range -pi/2..pi/2)
    with np.errstate(divide='ignore', invalid='ignore'):
        vp = np.arctan(KY / KX)
    vp = np.where((KX == 0) & (KY == 0), 0, vp)
    out.varphi = vp
    comp = lambda F: np.cos(vp) * F[N:] - np.sin(vp) * F[:N]
    out.R_s, out.R_p, out.T_s, out.T_p = comp(out.SR), -comp(out.UR), comp(out.ST), -comp(out.UT)
    out.de_r_s = abs(out.R_s) ** 2 * kzt.real / norm
    out.de_r_p = abs(out.R_p) ** 2 * (kzt / n_top ** 2).real / norm
    out.de_t_s = abs(out.T_s) ** 2 * kzb.real / norm
    out.de_t_p = abs(out.T_p) ** 2 * (kzb / n_bot ** 2).real / norm
    return out


def field(sol, k0, layers, period, l, zfrac, x, y):
    """(Ex,Ey,Ez,Hx,Hy,Hz) at depth zfrac*d inside layer l"""
    N = len(sol.KX)
    Md, Mu, gd, gu, h = sol.modes[l]
    a, b = sol.coef[l]
    F = Md @ (np.exp(gd * h * zfrac) * a) + Mu @ (np.exp(gu * h * (zfrac - 1)) * b)
    S, U = F[:2 * N], F[2 * N:]
    epzi = layers[l][2]
    Ez = -1j * epzi @ (sol.KX * U[N:] - sol.KY * U[:N])
    Hz = sol.KX * S[N:] - sol.KY * S[:N]
    ph = np.exp(-1j * k0 * (sol.KX * x + sol.KY * y))
    return np.array([ph @ S[:N], ph @ S[N:], ph @ Ez, ph @ (1j * U[:N]), ph @ (1j * U[N:]), ph @ Hz])
