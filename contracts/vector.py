"""Proofs about vector modelling: rectangle (exact and rotated, any number of strips) and the edge bookkeeping of a layer."""
import time
from vkit.contract import *
from vkit import scal, shim, path, loops, ix, alg
from vkit.scal import S, Unsupported, coerce
from vkit.path import PATH, intsym
from vkit.ix import Ix, generic

MODT = 'meent.on_{}.modeler.modeling'
CLS = {'numpy': 'ModelingNumpy', 'jax': 'ModelingJax', 'torch': 'ModelingTorch'}
PI = shim.PI


class GenRange:
    """range(n), n symbolic, iterated by a comprehension: the first, a generic, its successor and the last element"""
    log = []

    def __init__(self, n):
        self.n = coerce(n)

    def __iter__(self):
        k = generic('#k', self.n - 1)
        GenRange.log.append((self.n, k))
        return iter([S.const(0), k, k + 1, self.n - 1])


class NoLoop:
    def is_sym(self, it):
        if isinstance(it, GenRange):
            raise Unsupported('for statement over a symbolic range')
        return False


def rng(*a):
    if len(a) == 1 and coerce(a[0]).as_int() is None:
        return GenRange(a[0])
    return range(*[int(coerce(x).as_int()) for x in a])


class Self:
    """the object: only its numeric types are read; other methods resolve to the class"""

    def __init__(self, be, cls, extra):
        import numpy, torch, jax.numpy as jnp
        self.__dict__['type_complex'] = {'numpy': numpy.complex128, 'torch': torch.complex128, 'jax': jnp.complex128}[be]
        self.__dict__['type_float'] = {'numpy': numpy.float64, 'torch': torch.float64, 'jax': jnp.float64}[be]
        self.__dict__['device'] = 'cpu'
        self.__dict__['_c'], self.__dict__['_e'] = cls, extra

    def __getattr__(self, n):
        a = self._c.__dict__.get(n)
        if a is None:
            raise AttributeError(n)
        if isinstance(a, staticmethod):
            return shim.sym(loops.loopify(a.__func__), self._e)
        f = shim.sym(loops.loopify(a), self._e)
        return lambda *x, **k: f(self, *x, **k)


def scalar(v):
    if isinstance(v, Ix):
        if any(v.dims):
            raise Unsupported('edge is not a single number')
        return v.el()
    return coerce(v)


def ge(a, b):
    c = coerce(a) < coerce(b)
    return (not c) if isinstance(c, bool) else ~c


def conj(*cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    if not cs:
        return True
    r = cs[0]
    for c in cs[1:]:
        r = r & c
    return r


def entails(c):
    if isinstance(c, bool):
        return c
    try:
        return path.check(PATH.facts + [~c], 10000)[0] == 'unsat'
    except Unsupported:
        return False


def prove_rectangle(rep, be):
    m = module(be, MODT)
    lab = f'{be}.rectangle'
    try:
        cls = get(m, CLS[be])
        f = cls.__dict__['rectangle']
    except (Unsupported, KeyError) as e:
        return rep.ob(lab, 'unsupported', '-', 0, str(e))
    ex = ix.extra(be, len=shim.sym_len, range=rng, abs=abs, **{'__L': NoLoop()})

    def run():
        ix.reset()
        GenRange.log.clear()
        PATH.assume(~(PI < 3))
        PATH.assume(PI < 4)
        cx, cy, lx, ly, a = [S.sym(n, real=True) for n in ('cx', 'cy', 'lx', 'ly', 'ang')]
        for v in (lx, ly):
            PATH.assume(~(v < 0))
            PATH.assume(~(v == 0))
        nt, npar = intsym('nt'), intsym('np')
        PATH.assume(~(nt < 1))
        PATH.assume(~(npar < 1))
        n = S.sym('n')
        one = lambda v: Ix([[]], lambda i, b: v)
        sf = Self(be, cls, ex)
        f2 = shim.sym(loops.loopify(f), ex)
        kw = call_kw(f, dict(cx=cx, cy=cy, lx=one(lx), ly=one(ly), n_index=n, angle=one(a), n_split_triangle=nt, n_split_parallelogram=npar))
        r = f2(sf, **kw)
        th = scal.fn('mod', a, 2 * PI, real=True)
        c, s = scal.cos(th), scal.sin(th)
        rows = [((scalar(q[0][0]), scalar(q[0][1])), (scalar(q[1][0]), scalar(q[1][1])), q[2]) for q in r]
        for k, q in enumerate(rows):
            yield f'the index of the object is kept [{k}]', coerce(q[2]), n
        if not GenRange.log:
            # drawn without approximation: only at multiples of 90 degrees (within the margin), with the sides exchanged at odd ones
            yield 'one rectangle', len(rows) == 1
            quad = [q for q in range(4) if entails(conj(ge(th, q * PI / 2 - S.const(2e-5)), ge(q * PI / 2 + S.const(2e-5), th)))]
            yield 'drawn exactly only at a multiple of 90 degrees', len(quad) == 1
            if len(quad) == 1:
                w, h = (lx, ly) if quad[0] % 2 == 0 else (ly, lx)
                (y0, x0), (y1, x1), _ = rows[0]
                for nm, got, want in (('left', x0, cx - w / 2), ('right', x1, cx + w / 2), ('lower', y0, cy - h / 2), ('upper', y1, cy + h / 2)):
                    yield f'{nm} edge at {90 * quad[0]} degrees', got, want
            return
        quad = [q for q in range(4) if entails(conj(ge(th, q * PI / 2), th < (q + 1) * PI / 2))]
        yield 'the quadrant is decided', len(quad) == 1
        if len(quad) != 1:
            return
        q = quad[0]
        # signs of sine and cosine in the open quadrant (the borders are the exact cases above)
        yield 'not at a border of the quadrant', ~(th == q * PI / 2)
        PATH.assume(~(c < 0) & ~(c == 0) if q in (0, 3) else (c < 0))
        PATH.assume(~(s < 0) & ~(s == 0) if q in (0, 1) else (s < 0))
        V = [(cx + c * u - s * v, cy + s * u + c * v) for u, v in ((lx / 2, ly / 2), (lx / 2, -ly / 2), (-lx / 2, -ly / 2), (-lx / 2, ly / 2))]
        t1 = V[q]
        t4 = V[(q + 2) % 4]
        p, p2 = V[(q + 1) % 4], V[(q + 3) % 4]
        if p[1] < p2[1]:
            p, p2 = p2, p
        t2, t3 = p, p2
        yield 'vertex order', conj(ge(t1[1], t2[1]), ge(t2[1], t3[1]), ge(t3[1], t4[1]))
        cross = lambda A, B, y: A[0] + (B[0] - A[0]) * (y - A[1]) / (B[1] - A[1])
        bands = [('upper', t1, t2, (t1, t2), (t1, t3)), ('middle', t2, t3, (t2, t4), (t1, t3)), ('lower', t3, t4, (t2, t4), (t3, t4))]
        tied = []
        if entails(t2[1] == t3[1]):      # two vertices at the same height: either may be called the second
            tied = [('upper', t1, t3, (t1, t3), (t1, t2)), ('middle', t3, t2, (t3, t4), (t1, t2)), ('lower', t2, t4, (t3, t4), (t2, t4))]
        if len(rows) != 4 or len(GenRange.log) != 1:
            raise Unsupported('shape of the list of strips')
        N, k = GenRange.log[0]
        ka = scal._by_id[next(iter(k.terms))[0][0]]
        for v in (S.const(0), nt - 1, nt, nt + npar, nt + npar + 1, N - 2):
            if entails(k == v):          # on this path k is the seam between two bands
                rows = [tuple(tuple(scal.subst(z, {ka: v}) for z in e) for e in q[:2]) + (q[2],) for q in rows]
                break
        for nm, ((y0, x0), (y1, x1), _) in zip(('first', 'strip k', None, 'last'), rows):
            if nm is None:
                continue
            mid = (y0 + y1) / 2
            hit = None
            for bn, top, bot, A, B in bands + tied:
                xa, xb = cross(*A, mid), cross(*B, mid)
                for l, r_ in ((xa, xb), (xb, xa)):
                    if alg.equal(x0, l)[0] and alg.equal(x1, r_)[0]:
                        hit = (bn, top, bot, l, r_)
            if hit is None:              # not recognised: compare at samples of the inputs
                for bn, top, bot, A, B in bands + tied:
                    xa, xb = cross(*A, mid), cross(*B, mid)
                    for l, r_ in ((xa, xb), (xb, xa)):
                        if scalar_differ(x0, l) is False and scalar_differ(x1, r_) is False:
                            hit = (bn, top, bot, l, r_)
            if hit is None:
                yield f'{nm}: its ends are the outline at its mid height', False
                continue
            bn, top, bot, l, r_ = hit
            yield f'{nm}: left end is the outline at mid height ({bn} band)', x0, l
            yield f'{nm}: right end is the outline at mid height ({bn} band)', x1, r_
            # the heights lie in the band: y = top - t (top - bot) with 0 <= t <= 1
            h = top[1] - bot[1]
            ta, tb = (top[1] - y1) / h, (top[1] - y0) / h
            yield f'{nm}: lies within the {bn} band', frac_between(ta, tb)
            yield f'{nm}: left end is left of the right end ({bn} band)', nonneg(x1 - x0, lx, ly, c, s, N)
        yield 'the first strip starts at the highest corner', rows[0][1][0], t1[1]
        yield 'the last strip ends at the lowest corner', rows[3][0][0], t4[1]
        yield 'consecutive strips meet', rows[1][0][0], rows[2][1][0]
        for nm, cnd in safe():
            yield nm, cnd
    prove_run(rep, lab, run)


def safe():
    for nm, a, b in list(ix.SAFE):
        for c in (a, b):
            if c is not True:
                yield nm, c


def call_kw(f, kw):
    import inspect
    ps = list(inspect.signature(shim.unwrap(f)).parameters)[1:]
    miss = [p for p in kw if p not in ps]
    if miss:
        raise Unsupported(f'parameters {miss}')
    return kw


def local(c):
    """discharge with the facts about the atoms of the goal only (fewer nonlinear terms); the full set otherwise"""
    if isinstance(c, bool):
        return c
    at = ix.cond_atoms(c)
    fs = [f for f in PATH.facts if ix.cond_atoms(f) <= at]
    try:
        if path.check(fs + [~c], 10000)[0] == 'unsat':
            return True
    except Unsupported:
        pass
    return c


def frac_between(ta, tb):
    """0 <= ta <= tb <= 1"""
    return local(conj(ge(ta, 0), ge(tb, ta), ge(1, tb)))


def nonneg(e, lx, ly, c, s, N):
    return local(ge(e, 0))


# --------------------------------------------------------------------------------------------- edge bookkeeping of a layer
class Grid:
    """array of concrete shape with scalar entries"""

    def __init__(self, a):
        self.a = a

    @property
    def shape(self):
        return self.a.shape

    def __len__(self):
        return len(self.a)

    def __mul__(self, o):
        import numpy
        b = o.a if isinstance(o, Grid) else o
        if isinstance(b, S) or not hasattr(b, 'shape'):
            c = numpy.empty((), dtype=object)
            c[()] = coerce(b)
            b = c
        A, B = numpy.broadcast_arrays(self.a, b)
        out = numpy.empty(A.shape, dtype=object)
        for q in numpy.ndindex(A.shape):
            out[q] = coerce(A[q]) * coerce(B[q])
        return Grid(out)
    __rmul__ = __mul__

    def __setitem__(self, k, v):
        self.a[k] = v.a if isinstance(v, Grid) else coerce(v)

    def __getitem__(self, k):
        r = self.a[k]
        return Grid(r) if hasattr(r, 'shape') and not isinstance(r, S) else r

    def reshape(self, *s):
        return Grid(self.a.reshape(*s))

    def to(self, *a, **k):
        return self
    astype = type = to

    @property
    def at(self):
        g = self

        class _At:
            def __getitem__(self, k):
                class _Set:
                    def set(self, v):
                        n = Grid(g.a.copy())
                        n[k] = v
                        return n
                return _Set()
        return _At()


def num(x):
    """a scalar, possibly wrapped in a one-element array"""
    while not isinstance(x, S) and hasattr(x, '__getitem__'):
        x = x[0]
    c = coerce(x)
    if c is NotImplemented:
        raise Unsupported(f'edge of type {type(x).__name__}')
    return c


def glib(real):
    import numpy as np

    def ones(s, **k):
        a = np.empty(tuple(int(x) for x in s), dtype=object)
        a[...] = S.const(1)
        return Grid(a)

    def full(s, v, **k):
        return ones(s) * coerce(v)

    def cat(xs, *a, **k):
        out = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            out[i] = num(x)
        return Grid(out)

    def zeros(s, *a, **k):
        return full(s, 0) if not isinstance(s, int) else Grid(np.zeros(s, dtype=object))
    def tensor(v, *a, **k):
        if isinstance(v, (list, tuple)):
            return cat(v)
        return num(v)
    return ix.Lib(real, dict(ones=ones, full=full, tensor=tensor, as_tensor=tensor, concatenate=cat, cat=cat, concat=cat, array=cat, hstack=cat, zeros=zeros, stack=cat,
                             is_tensor=lambda x: False))


class LayerSelf(Self):
    pass


def prove_layer(rep, be, nobj, axis, aniso=None):
    """aniso: tuple of flags (base, object 0, object 1, ...): that index is given as (nx, ny, nz)"""
    m = module(be, MODT)
    lab = f'{be}.vector_per_layer_numeric[{nobj} objects, {"rows" if axis == 0 else "columns"}]' + (f'[anisotropic {aniso}]' if aniso else '')
    try:
        cls = get(m, CLS[be])
        f = shim.unwrap(cls.__dict__['vector_per_layer_numeric'])
    except (Unsupported, KeyError) as e:
        return rep.ob(lab, 'unsupported', '-', 0, str(e))
    import numpy
    ex = dict(np=glib(numpy))
    if be == 'torch':
        import torch
        ex['torch'] = glib(torch)
    if be == 'jax':
        import jax.numpy as jnp
        ex['jnp'] = glib(jnp)

    def run():
        P = S.sym('P', real=True)
        Q = S.const(1000)
        PATH.assume(~(P < 1))
        slack = P * S.const(1e-9)
        E = []
        for o in range(nobj):
            t, b = S.sym(f't{o}', real=True), S.sym(f'b{o}', real=True)
            PATH.assume(~(t < 0))
            PATH.assume(slack < b - t)
            PATH.assume(~(P < b))
            E += [t, b]
        for i, u in enumerate(E):
            for v in [S.const(0), P] + E[:i]:
                if (u is E[1] or i % 2) and v is E[i - 1] and i % 2:
                    continue
                # two edges coincide or are apart by more than the slack
                PATH.assume((u - v == 0) | (slack < u - v) | (slack < v - u))
        other = [(S.const(100 + o), S.const(400 - o)) for o in range(nobj)]
        idx = [S.sym(f'n{o}') for o in range(nobj)]
        base = S.sym('nb')
        comps = 1
        if aniso and any(aniso):
            comps = 3
            vec = lambda nm, f: [S.sym(f'{nm}{x}') for x in 'xyz'] if f else S.sym(nm)
            base, idx = vec('nb', aniso[0]), [vec(f'n{o}', aniso[1 + o]) for o in range(nobj)]
        objs = []
        for o in range(nobj):
            t, b = E[2 * o], E[2 * o + 1]
            u, v = other[o]
            objs.append([[t, u], [b, v], idx[o]] if axis == 0 else [[u, t], [v, b], idx[o]])
        sf = LayerSelf(be, cls, ex)
        sf.__dict__['period'] = [Q, P] if axis == 0 else [P, Q]
        r = shim.sym(f, ex)(sf, [base, objs])
        g, xs, ys = r
        V = (ys if axis == 0 else xs).a.reshape(-1)
        W = (xs if axis == 0 else ys).a.reshape(-1)
        G = g.a if axis == 0 else g.a.swapaxes(0, 1)
        yield 'grid has one row per recorded end', G.shape[:2] == (len(V), len(W)) and G.shape[2:] == ((3,) if comps == 3 else ())
        yield 'the last end is the period', conj(ge(V[-1], P - slack), ge(P + slack, V[-1]))
        prev = S.const(0)
        wp = S.const(0)
        mids = []
        for q in range(len(W)):
            w = coerce(W[q])
            mids.append((float(wp.const_value()[0]) + float(w.const_value()[0])) / 2)
            wp = w
        for j in range(len(V)):
            v = coerce(V[j])
            yield f'ends are ordered up to the perturbation', ge(v, prev - slack / 4)
            if entails(ge(slack / 2, v - prev)):
                prev = v
                continue
            inside = []
            for o in range(nobj):
                t, b = E[2 * o], E[2 * o + 1]
                yes = conj(ge(prev, t - slack / 4), ge(b + slack / 4, v))
                no = (~(ge(t + slack / 4, v)) if False else None)
                if entails(yes):
                    inside.append(True)
                elif entails(ge(t + slack / 4, v)) or entails(ge(prev, b - slack / 4)):
                    inside.append(False)
                else:
                    inside.append(None)
            yield f'the edges of every object are ends of the grid', None not in inside
            if None not in inside:
                for q in range(len(W)):
                    want = base
                    for o in range(nobj):
                        if inside[o] and other[o][0].const_value()[0] < mids[q] < other[o][1].const_value()[0]:
                            want = idx[o]
                    if comps == 1:
                        yield 'the cell holds the index of the last object that covers it, else the base', coerce(G[j, q]), want
                        continue
                    for x in range(3):
                        yield (f'component {"xyz"[x]} of the cell is component {"xyz"[x]} of the last object that covers it, else of the base',
                               coerce(G[j, q, x]), want[x] if isinstance(want, list) else want)
            prev = v
    prove_run(rep, lab, run, max_paths=6000)
    for o in rep.obs:
        if o['name'].startswith(lab):
            o['bounded'] = True
    rep.bounded.append((f'{be}.vector_per_layer_numeric ({"rows" if axis == 0 else "columns"})', f'{nobj} objects, all real edges, all coincidences'))


def proof_task(be):
    def t(rep):
        prove_rectangle(rep, be)
        rep.assume('contract of the array primitives (arange, roll, concatenation, matrix product)', 'sine and cosine have the sign of their quadrant',
                   'floating point treated as exact real arithmetic')
    return t


def layer_task(be, nobj, axis, aniso=None):
    def t(rep):
        prove_layer(rep, be, nobj, axis, aniso)
        rep.assume('edges coincide or are further apart than 1e-9 of the period (the code displaces coincident edges by 1e-14)')
    return t
