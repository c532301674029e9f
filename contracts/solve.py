"""Contract of the solver drivers solve_1d / solve_1d_conical / solve_2d, verified against the contracts of their callees.

Callees are replaced by tokens that carry their contract: transfer_*_1 starts the state St(0) (substrate), transfer_*_3 applied
to St(k) with the modes and thickness of layer L-1-k yields St(k+1), transfer_*_4 must be given St(L).  The loop over layers
is discharged with the invariant "after k iterations the state is St(k)", for every number of layers L."""
import inspect, time, types
from vkit.contract import *
from vkit import loops, shim, alg, path
from vkit.scal import S, Unsupported, coerce
from vkit.path import intsym


class Broken(Exception):
    """a callee is used outside its contract"""


class Tok:
    """opaque value, equal iff same description"""
    __array_ufunc__ = None

    def __init__(self, *d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Tok) and key(self.d) == key(o.d)

    def __hash__(self):
        return hash(key(self.d))

    def __repr__(self):
        return 'Tok' + repr(self.d)

    def __getattr__(self, n):
        raise Unsupported(f'attribute {n} of an opaque value')


def key(x):
    if isinstance(x, S):
        return ('S', frozenset(x.terms.items()))
    if isinstance(x, (tuple, list)):
        return tuple(key(y) for y in x)
    if isinstance(x, Tok):
        return ('T', key(x.d))
    return x


def same(a, b):
    if isinstance(a, S) or isinstance(b, S):
        a, b = coerce(a), coerce(b)
        if a is NotImplemented or b is NotImplemented:
            return False
        return a.same(b)
    return key(a) == key(b)


class World:
    """one verification of one driver"""

    def __init__(self, be, form, L):
        self.be, self.form, self.L = be, form, coerce(L)
        self.a, self.b = intsym('fx'), intsym('fy')
        self.wl = S.sym('wavelength', real=True)
        self.nt, self.nb = S.sym('n_top'), S.sym('n_bot')
        self.pol, self.psi, self.theta = Tok('pol'), Tok('psi'), Tok('theta')
        self.kx, self.ky = Tok('kx'), Tok('ky')
        self.obs = []

    def need(self, name, ok, detail=''):
        self.obs.append((name, bool(ok), detail))
        if not ok:
            raise Broken(f'{name}: {detail}')

    def state(self, k):
        return ('St', coerce(k))

    def comp(self, c, k):
        return Tok(c, *self.state(k))

    def stub(self, real, kind):
        sig = inspect.signature(shim.unwrap(real))

        def call(*a, **kw):
            try:
                b = sig.bind(*a, **kw)
            except TypeError as e:
                raise Broken(f'call of {real.__name__}: {e}')
            A = dict(b.arguments)
            return getattr(self, 'step' + kind)(A)
        return call

    def chk(self, A, **want):
        for n, w in want.items():
            if n in A:
                self.need(f'argument {n}', same(A[n], w), f'{A[n]} instead of {w}')

    def step1(self, A):
        self.chk(A, pol=self.pol, kx=self.kx, ky=self.ky, n_top=self.nt, n_bot=self.nb)
        kz = (Tok('kz_top'), Tok('kz_bot'))
        F, G, T = [self.comp(c, 0) for c in 'FGT']
        return kz + ((F, G, T) if self.form == '1d' else (Tok('varphi'), F, G, T))

    def step2(self, A):
        self.chk(A, pol=self.pol, kx=self.kx, ky=self.ky)
        i = A['epx_conv'].d[1]
        self.need('mode solve uses one layer', same(A['epx_conv'], Tok('epx', i)) and same(A['epy_conv'], Tok('epy', i))
                  and same(A['epz_conv_i'], Tok('epzi', i)), f'{A["epx_conv"]} {A["epy_conv"]} {A["epz_conv_i"]}')
        return Tok('W', i), Tok('V', i), Tok('q', i)

    def step3(self, A):
        F, G, T = (A['F'], A['G'], A['T']) if 'F' in A else (A['big_F'], A['big_G'], A['big_T'])
        k = F.d[2]
        for n, x in zip('FGT', (F, G, T)):
            self.need(f'recursion input {n}', same(x, self.comp(n, k)), f'{x} is not {n} of St({k})')
        i = self.L - 1 - k
        self.chk(A, k0=2 * scal.PI / self.wl, varphi=Tok('varphi'))
        for n in 'WVq':
            self.need(f'layer order: {n}', same(A[n], Tok(n, i)), f'{A[n]} instead of layer {i}')
        self.need('layer order: thickness', same(A['d'], Tok('d', i)), f'{A["d"]} instead of layer {i}')
        return (Tok('X', i),) + tuple(self.comp(c, k + 1) for c in 'FGT') + (Tok('A_i', i), Tok('B', i))

    def step4(self, A):
        F, G, T = (A['F'], A['G'], A['T']) if 'F' in A else (A['big_F'], A['big_G'], A['big_T'])
        for n, x in zip('FGT', (F, G, T)):
            self.need(f'all layers processed: {n}', same(x, self.comp(n, self.L)), f'{x} instead of St({self.L})')
        self.chk(A, pol=self.pol, psi=self.psi, theta=self.theta, n_top=self.nt, n_bot=self.nb, kz_top=Tok('kz_top'),
                 kz_bot=Tok('kz_bot'), kx=self.kx, ff_x=2 * self.a + 1)
        if 'ff_y' in A:
            self.need('argument ff_y', same(A['ff_y'], 2 * self.b + 1), str(A['ff_y']))
        return Tok('result'), Tok('T1')

    # ---- the loop rule
    def is_sym(self, it):
        return isinstance(it, (loops.SymRange, loops.Seq))

    def begin(self, n, it, env, names, bad):
        if bad:
            raise Unsupported('break/continue/return in the layer loop')
        self.need('one iteration per layer', same(it.sym_len(), self.L), f'{it.sym_len()} iterations')
        self.k = intsym(f'k{n}')
        self.it, self.names = it, names
        self.pre = {x: env[x] for x in names if x in env}
        self.pre_self = dict(self.selfobj.__dict__['_d'])
        for x, v in self.pre.items():
            if isinstance(v, Tok) and len(v.d) == 3 and v.d[1] == 'St':
                self.need(f'invariant on entry: {x}', same(v.d[2], 0), repr(v))
        self.lists = {}
        if isinstance(self.pre_self.get('layer_info_list'), list):
            self.need('mode list is empty before the first layer', not self.pre_self['layer_info_list'], repr(self.pre_self['layer_info_list']))
        for x, v in self.pre_self.items():
            if isinstance(v, list) and x not in ('fto', 'thickness'):
                self.selfobj.__dict__['_d'][x] = self.lists[x] = Rec()

    def at(self, x, k):
        if x not in self.pre:
            return Tok('undefined', x)
        v = self.pre[x]
        if isinstance(v, Tok) and len(v.d) == 3 and v.d[1] == 'St':
            return self.comp(v.d[0], k)
        if isinstance(v, list):
            return Rec()
        return Tok('havoc', x)

    def havoc(self, n, x):
        return self.at(x, self.k)

    def elem(self, n):
        return self.it.elem(self.k)

    def end(self, n, env):
        for x in self.pre:
            v = self.pre[x]
            if isinstance(v, Tok) and len(v.d) == 3 and v.d[1] == 'St':
                self.need(f'invariant preserved: {v.d[0]}', same(env[x], self.comp(v.d[0], self.k + 1)), f'{env[x]}')

        got = self.lists.get('layer_info_list')
        if got is not None:
            i = self.L - 1 - self.k
            want = [Tok('epzi', i), Tok('W', i), Tok('V', i), Tok('q', i), Tok('d', i), Tok('A_i', i), Tok('B', i)]
            ok = len(got) == 1 and same(got[0], want)
            self.obs.append(('each layer adds its own modes to the mode list once', ok or None, repr(got)))

    def exit(self, n, x):
        return self.at(x, self.L)


class Rec(list):
    pass


class SelfStub:
    """`self` of the driver: contract values for the solver state; anything else is the real class, executed symbolically"""

    def __init__(self, cls, d, world):
        self.__dict__['_c'], self.__dict__['_d'], self.__dict__['_w'] = cls, d, world

    def __getattr__(self, n):
        d = self.__dict__['_d']
        if n in d:
            return d[n]
        v = inspect.getattr_static(self._c, n, None)
        if isinstance(v, property):
            return self._w.bind(v.fget)(self)
        if isinstance(v, staticmethod):
            return self._w.bind(v.__func__)
        if isinstance(v, types.FunctionType):
            return types.MethodType(self._w.bind(v), self)
        raise Unsupported(f'self.{n}')

    def __setattr__(self, n, v):
        self._d[n] = v


def solve_once(be, form, L):
    """runs the real driver under the contract of its callees; returns the World with its obligations"""
    base = importlib.import_module(f'meent.on_{be}.emsolver._base')
    cls = base._BaseRCWA
    w = World(be, form, L)
    drv = inspect.getattr_static(cls, f'solve_{form}', None)
    if drv is None:
        raise Unsupported(f'solve_{form} does not exist')
    extra = {'__L': w}
    for k in '1234':
        nm = f'transfer_{form}_{k}'
        real = getattr(base, nm, None)
        if real is None:
            raise Unsupported(f'{nm} is not used by the driver module')
        extra[nm] = w.stub(real, k)
    w.bind = lambda f: shim.sym(loops.loopify(f), extra)
    mk = lambda nm: loops.Seq(w.L, lambda i: Tok(nm, coerce(i)))
    if w.L.as_int() is not None:
        mk = lambda nm: [Tok(nm, S.const(i)) for i in range(w.L.as_int())]
    me = SelfStub(cls, dict(fto=[w.a, w.b], pol=w.pol, psi=w.psi, theta=w.theta, n_top=w.nt, n_bot=w.nb, thickness=mk('d'),
                            connecting_algo='TMM', use_pinv=Tok('use_pinv'), perturbation=Tok('perturbation'), device=Tok('device'),
                            type_complex=Tok('type_complex'), type_float=Tok('type_float'), layer_info_list=[Tok('stale')],
                            get_kx_ky_vector=lambda wavelength: kxy(w, wavelength)), w)
    w.selfobj = me
    before = dict(me._d)
    try:
        r = w.bind(drv)(me, w.wl, mk('epx'), mk('epy'), mk('epzi'))
    except Broken as e:
        return w, str(e)
    ok = same(r, Tok('result'))
    for x, v in before.items():
        if x not in ('layer_info_list', 'T1'):
            w.obs.append((f'frame: parameter {x} is left alone', me._d.get(x) is v, repr(me._d.get(x))))
    w.obs.append(('transmission vector of this solve is kept', same(me._d.get('T1'), Tok('T1')) or None, repr(me._d.get('T1'))))
    w.obs.append(('driver returns the result of the top interface', ok, repr(r)))
    return w, None if ok else 'wrong result'


def kxy(w, wavelength):
    w.need('wavevectors at the requested wavelength', same(wavelength, w.wl), str(wavelength))
    return w.kx, w.ky


def prove_solve(rep, be, form):
    t0 = time.time()
    lab = f'{be}.solve_{form}'
    L = intsym('L')
    try:
        w, err = solve_once(be, form, L)
        be_ = 'loop-invariant'
    except Unsupported as e:
        rep.ob(lab + '[any number of layers]', 'unsupported', '-', time.time() - t0, str(e))
        w = None
    except Exception as e:  # noqa: BLE001
        rep.ob(lab + '[any number of layers]', 'unsupported', '-', time.time() - t0, f'{type(e).__name__}: {e}')
        w = None
    if w is not None:
        seen = set()
        for nm, ok, det in w.obs:
            if nm in seen and ok:
                continue
            seen.add(nm)
            rep.ob(f'{lab}:{nm}', 'proved' if ok else 'unsupported' if ok is None else 'failed', be_, (time.time() - t0) / len(w.obs), det)
        return
    # bounded stand-in: the same contract with 0..4 concrete layers, whatever the shape of the loop
    for n in range(0, 5):
        try:
            w, err = solve_once(be, form, n)
        except Exception as e:  # noqa: BLE001
            rep.bounded.append((lab, f'not decided for {n} layers: {e}'))
            continue
        rep.ev((lab, n))
        rep.bounded.append((lab, f'{n} layers, all values symbolic'))
        if err:
            rep.fail(f'{lab} with {n} layers: {err}', dict(layers=n), kind='fn')
