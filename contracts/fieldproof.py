"""Proofs about the field maps: d_exp and the three field_dist_* functions of each backend, for all truncation orders, resolutions and
numbers of layers, and the continuity of the mapped field across interfaces."""
import time
from vkit.contract import *
from vkit import scal, shim, path, loops, ix, alg
from vkit.scal import S, Unsupported, coerce
from vkit.path import PATH, intsym
from vkit.ix import Ix, generic, dim
from .fourier import nat, Rule, MapRule, call, safe_goals, sym_loop, start

FD = 'meent.on_{}.emsolver.field_distribution'
J = S.const(1j)
PI = shim.PI
SELS = [(True, False, False), (False, True, False), (False, False, True), (True, True, False), (True, False, True), (False, True, True),
        (True, True, True)]


def dexp_c(x):
    """contract of d_exp: the diagonal matrices of the exponentials of the diagonals"""
    if x.ndim != 3 or len(x.dims[1]) != len(x.dims[2]):
        raise Unsupported('d_exp called outside its contract')
    x = x.close().snap()
    p, w = len(x.dims[0]), len(x.dims[1])

    def f(i, b):
        d = ix.prod([ix.delta(a, c) for a, c in zip(i[p:p + w], i[p + w:])])
        return d * scal.exp(x.fn(tuple(i[:p + w]) + tuple(i[p:p + w]), ())) if d.terms else d
    return Ix(x.dims, f)


def prove_dexp(rep, be):
    m = module(be, FD)
    try:
        f = get(m, 'd_exp')
    except Unsupported as e:
        return rep.ob(f'{be}.d_exp', 'unsupported', '-', 0, str(e))

    def run():
        start()
        B, n = nat('B', 1), nat('n', 1)
        x = ix.tensor('x', B, n, n)
        r = sym_loop(f, be, Rule())(**call(f, dict(x=x)))
        yield 'shape', len(r.shape) == 3 and all(ix.same(a, c) for a, c in zip(r.shape, (B, n, n)))
        b, i, j = generic('#z', B), generic('#i', n), generic('#j', n)
        got = r.el(b, i, j)
        if i == j:
            yield 'diagonal: exp of the diagonal', got, scal.exp(scal.fn('el_x', b, i, i))
        else:
            yield 'zero off the diagonal', got, S.const(0)
    prove_run(rep, f'{be}.d_exp', run)


class LayerRule(Rule):
    """loop over the layers: the array being filled holds arbitrary values on entry of a generic iteration, and every other tensor the
    body updates from its previous value (the amplitudes) is arbitrary of the same shape"""

    def begin(self, k, it, env, names, bad):
        keep = {n: v for n, v in env.items() if type(v) is Ix and getattr(v, 'made', False) and n not in names and n not in self.stores}
        self.keep = {n: (v, v.fn) for n, v in keep.items()}
        for v in keep.values():
            v.made = False
        super().begin(k, it, env, names, bad)
        self.carried, self.entry = {}, {}
        for n in names:
            v = env.get(n)
            if isinstance(v, Ix) and n not in self.arr:
                self.entry[n] = v
                self.carried[n] = Ix(v.dims, (lambda n: lambda i, b: scal.fn('carry_' + n, *i))(n))

    def havoc(self, k, n):
        return self.arr.get(n, self.carried.get(n))

    def end(self, k, env):
        if any(v.fn is not f for v, f in self.keep.values()):
            raise Unsupported('an array is modified through another name')
        self.last = dict(env)


def layer(i, n, conical, form):
    """the i-th entry of layer_info_list"""
    T = lambda name, *sz: Ix([dim(s) for s in sz], lambda idx, b: scal.fn('el_' + name, i, *idx))
    m = 2 * n if form != '1d' else n
    w = n if form == 'conical' else m
    return (T('epz', n, n), T('W', w, m), T('V', m, m), T('q', m), scal.fn('el_d', i, real=True), T('A', m, m), T('B', m, m))


def at(name, i):
    return lambda *idx: scal.fn('el_' + name, i, *idx)


def prove_field(rep, be, form, pol=None, sel=(True, True, True), part='field'):
    m = module(be, FD)
    name = {'1d': 'field_dist_1d', 'conical': 'field_dist_1d_conical', '2d': 'field_dist_2d'}[form]
    label = f'{be}.{name}:{part}' + (f'[pol={pol}]' if form == '1d' else f'[inputs {"".join("01"[s] for s in sel)}]')
    try:
        f = get(m, name)
        get(m, 'd_exp')
    except Unsupported as e:
        return rep.ob(label, 'unsupported', '-', 0, str(e))

    def run():
        start()
        ix.FLAT[0] = True
        try:
            yield from body()
        finally:
            ix.FLAT[0] = False

    def body():
        fx = nat('ffx', 1)
        fy = nat('ffy', 1) if form != '1d' else S.const(1)
        n = fx * fy
        if form != '1d':
            PATH.assume(~(n < 1))
            PATH.assume(~(n < fx))
            PATH.assume(~(n < fy))
        L = nat('L', 1)
        rx, ry, rz = nat('rx', 1), nat('ry', 1), nat('rz', 1)
        lam = S.sym('lam', real=True, pos=True)
        px, py = S.sym('px', real=True, pos=True), S.sym('py', real=True, pos=True)
        KX, KY = (lambda i: scal.fn('el_kx', i)), (lambda i: scal.fn('el_ky', i))
        kx, ky = Ix([dim(fx)], lambda i, b: KX(i[0])), Ix([dim(fy)], lambda i, b: KY(i[0]))
        mm = n if form == '1d' else 2 * n
        lay = loops.Seq(L, lambda i: layer(i, n, form == 'conical', form))
        kw = dict(wavelength=lam, kx=kx, layer_info_list=lay, period=(px, py), res_x=rx, res_y=ry, res_z=rz, device='cpu')
        if form == '1d':
            T1 = ix.tensor('T1', n)
            kw.update(T1=T1, pol=pol)
        else:
            T1 = Ix([[S.const(3)], [mm], []], lambda i, b: scal.fn('el_T1', *i))
            kw.update(T1=T1, ky=ky, set_field_input=sel)
        rule = LayerRule()
        out = sym_loop(f, be, rule, d_exp=lambda x: dexp_c(x))(**bind(f, kw, optional=('device',)))
        if rule.k is None:
            raise Unsupported('the layers are not visited by one loop')
        lead = [] if form == '1d' else [S.const(sum(sel))]
        ncomp = 3 if form == '1d' else 6
        yield 'shape (inputs, z, y, x, component)', len(out.shape) == len(lead) + 4 and \
            all(ix.same(a, b) for a, b in zip(out.shape, lead + [rz * L, ry, rx, ncomp]))
        # ---- the loop: layers from the top, amplitudes carried downwards
        k = rule.k
        li = L - 1 - k                       # layer_info_list is ordered from the substrate
        yield 'every layer is visited', ix.same(rule.it.n, L)
        if len(rule.carried) != 1:
            raise Unsupported('state carried by the loop')
        (cn, cv), = rule.carried.items()
        e0 = rule.entry[cn]
        pos = [q for q, s in enumerate(sel) if s]
        M = len(pos)
        r = generic('#a', mm)
        q_, d_ = at('q', li), scal.fn('el_d', li, real=True)
        A, B = at('A', li), at('B', li)
        k0 = 2 * PI / lam
        X = lambda j: scal.exp(-k0 * q_(j) * d_)
        nxt = rule.last[cn]
        if form == '1d':
            idxs = [()]
            init = lambda s: scal.fn('el_T1', r)
            Tk = lambda s: (lambda j: scal.fn('carry_' + cn, j))
            pick = lambda t, s: t.el(r)
        else:
            idxs = [((S.const(q),) if M > 1 else ()) for q in range(M)]
            init = lambda s: scal.fn('el_T1', S.const(pos[s]), r)
            Tk = lambda s: (lambda j: scal.fn('carry_' + cn, *(idxs[s] + (j,))))
            pick = lambda t, s: t.el(*(idxs[s] + (r,)))
        if form != '1d':
            yield 'amplitudes keep their shape', [len(d) for d in e0.dims] == [int(M > 1), 1, 0] and [len(d) for d in nxt.dims] == [int(M > 1), 1, 0]
        for s in range(len(idxs)):
            yield f'amplitudes of the top layer are those of input {s}', pick(e0, s), init(s)
            yield f'amplitudes of the next layer: A_i X T, input {s}', pick(nxt, s), ix.bsum((mm,), lambda j: A(r, j[0]) * X(j[0]) * Tk(s)(j[0]))
        # ---- the field of a generic layer at a generic point
        if part == 'loop':
            yield from frame(out, rule, form, M, L, rz, ry, rx)
            yield from safe_goals()
            return
        zi, yi, xi = generic('#z', rz), generic('#y', ry), generic('#x', rx)
        line = lambda i, N, len_: len_ * ix.frac(i, N)
        z = line(zi, rz, d_)
        x = line(xi, rx, px)
        y = line(ry - 1 - yi, ry, py)
        dn = lambda j: scal.exp(-k0 * q_(j) * z)
        up = lambda j: scal.exp(k0 * q_(j) * (z - d_))
        W, V, E = at('W', li), at('V', li), at('epz', li)
        for s in range(len(idxs)):
            T = Tk(s)
            cm = lambda j: ix.bsum((mm,), lambda a: ix.bsum((mm,), lambda c: B(j, c[0]) * A(c[0], a[0])) * X(a[0]) * T(a[0]))

            def modes(Mx, row, off, sign):
                return ix.bsum((n,), lambda j: Mx(row, j[0] + off) * (sign * dn(j[0] + off) * T(j[0] + off) + up(j[0] + off) * cm(j[0] + off)))
            if form == '1d':
                comp1 = lambda o: modes(W, o, S.const(0), 1)
                comp2 = lambda o: modes(V, o, S.const(0), -1)
                if pol == 0:
                    third = lambda o: -J * KX(o) * comp1(o)
                    sg = J
                else:
                    third = lambda o: -J * ix.bsum((n,), lambda j: E(o, j[0]) * KX(j[0]) * comp1(j[0]))
                    sg = -J
                comps = [comp1, lambda o: sg * comp2(o), lambda o: sg * third(o)]
                inv = lambda g: ix.bsum((fx,), lambda o: scal.exp(-J * k0 * KX(o[0]) * x) * g(o[0]))
            else:
                nn = n
                if form == '2d':
                    Sx = lambda o: modes(W, o, S.const(0), 1) + modes(W, o, nn, 1)
                    Sy = lambda o: modes(W, o + nn, S.const(0), 1) + modes(W, o + nn, nn, 1)
                    Ux = lambda o: modes(V, o, S.const(0), -1) + modes(V, o, nn, -1)
                    Uy = lambda o: modes(V, o + nn, S.const(0), -1) + modes(V, o + nn, nn, -1)
                else:
                    Sx = lambda o: modes(W, o, nn, 1)
                    Sy = lambda o: modes(V, o, S.const(0), 1) + modes(V, o, nn, 1)
                    Ux = lambda o: modes(W, o, S.const(0), -1)
                    Uy = lambda o: modes(V, o + nn, S.const(0), -1) + modes(V, o + nn, nn, -1)
                lin = lambda o: o[0] * fx + o[1]
                inner = lambda o: KX(o[1]) * Uy(lin(o)) - KY(o[0]) * Ux(lin(o))
                Sz = lambda oy, ox: -J * ix.bsum((fy, fx), lambda o: E(oy * fx + ox, lin(o)) * inner(o))
                Uz = lambda oy, ox: -J * (KX(ox) * Sy(oy * fx + ox) - KY(oy) * Sx(oy * fx + ox))
                L1 = lambda g: (lambda oy, ox: g(oy * fx + ox))
                comps = [L1(Sx), L1(Sy), Sz, lambda *o: J * L1(Ux)(*o), lambda *o: J * L1(Uy)(*o), lambda *o: J * Uz(*o)]
                inv = lambda g: ix.bsum((fy, fx), lambda o: scal.exp(-J * k0 * KX(o[1]) * x) * scal.exp(-J * k0 * KY(o[0]) * y) * g(o[0], o[1]))
            for c, g in enumerate(comps):
                got = out.el(*(idxs[s] + (rz * k + zi, yi, xi, S.const(c))))
                want = inv(g)
                yield f'component {c} of input {s} at a generic point of a generic layer', got, want
        yield from safe_goals()
    prove_run(rep, label, run)


def frame(out, rule, form, M, L, rz, ry, rx):
    """the samples of the other layers are left alone"""
    k = rule.k
    yi, xi = generic('#y', ry), generic('#x', rx)
    for nm, v in rule.arr.items():
        w = rule.last.get(nm, v)
        oth = generic('#h', L)
        PATH.assume(~(oth == k))
        zo = generic('#zo', rz)
        row = rz * oth + zo
        # products of non-negative integers are non-negative
        PATH.assume(~(rz * ((k - 1 - oth) if oth < k else (oth - k - 1)) < 0))
        for c in range(3 if form == '1d' else 6):
            idx = ((S.const(0),) if form != '1d' and M > 1 else ()) + (row, yi, xi, S.const(c))
            yield f'the samples of the other layers are left alone, component {c}', w.el(*idx), v.pre(idx, ())


def proof_task(be, which, tier='quick'):
    def t(rep):
        if which == '1d':
            prove_dexp(rep, be)
            for pol in (0, 1):
                for part in ('loop', 'field'):
                    prove_field(rep, be, '1d', pol=pol, part=part)
            continuity(rep, be)
            return
        form, part, m = which
        if part == 'loop':
            for sel in SELS:
                prove_field(rep, be, form, sel=sel, part='loop')
        else:
            prove_field(rep, be, form, sel=SELS[0] if m == 1 else SELS[-1] if m == 3 else SELS[4], part='field')
    return t


def proof_tasks(be):
    out = [(f'proof[{be},1d]', proof_task(be, '1d'))]
    for form in ('conical', '2d'):
        out.append((f'proof[{be},{form},loop]', proof_task(be, (form, 'loop', 0))))
        for m in (1, 2, 3):
            out.append((f'proof[{be},{form},field of {m} inputs]', proof_task(be, (form, 'field', m))))
    return out


def continuity(rep, be):
    """with the recursion matrices of transfer_*_3 the mapped field is continuous: W(X T + c-) = F T' and V(X T - c-) = G T' at the
    bottom of a layer, where T' = A_i X T are the amplitudes of the layer below and F, G its field at the top"""
    from . import tm
    m = module(be)
    for fn, post in (('transfer_1d_3', tm.post_1d_3), ('transfer_1d_conical_3', tm.post_con_3), ('transfer_2d_3', tm.post_2d_3)):
        try:
            f = get(m, fn)
        except Unsupported as e:
            rep.ob(f'{be}.{fn}', 'unsupported', '-', 0, str(e))
            continue
        prove(rep, f'{be}.{fn}', f, tm.sym_args(fn, be), post)
