"""Function contracts: one postcondition text, two uses.

`post(np, a, r)` is written against a numpy-like namespace.  It is (1) evaluated on the symbolic result of the real function
(np = symbolic library) where every yielded equality becomes a proof obligation for all sizes and all values, and (2)
evaluated on results of the real function on concrete random arguments (np = numpy).
"""
import inspect, importlib, time
import numpy as rnp
from . import alg, scal, shim, path
from .scal import S, Unsupported
from .alg import Arr, Mat, IV, SegVec
from . import core

BACKENDS = ('numpy', 'torch', 'jax')
TM = 'meent.on_{}.emsolver.transfer_method'


def module(be, tmpl=TM):
    return importlib.import_module(tmpl.format(be))


def smat(name, n, m=None, rows=1, cols=1):
    m = n if m is None else m
    return Mat([n] * rows, [m] * cols, [[alg.nc_atom(f'{name}{i}{j}' if rows * cols > 1 else name) for j in range(cols)] for i in range(rows)])


def svec(name, n, real=False):
    return Arr(((n,),), S.sym(name, (IV(n),), real=real))


def bind(f, args, optional=()):
    """order args by the real signature; a required parameter the contract does not know is a changed interface"""
    sig = inspect.signature(shim.unwrap(f))
    pos, kw = [], {}
    for p in sig.parameters.values():
        if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
            continue
        if p.name in args:
            kw[p.name] = args[p.name]
        elif p.default is p.empty:
            raise Unsupported(f'parameter {p.name} of {f} is not in the contract')
    names = set(sig.parameters)
    missing = [k for k in args if k not in names and k not in optional]
    if missing:
        raise Unsupported(f'contract parameters {missing} are not parameters of the function')
    return kw


def get(mod, name):
    f = getattr(mod, name, None)
    if f is None:
        raise Unsupported(f'{mod.__name__}.{name} does not exist')
    return f


def goals(post, np, a, r):
    for g in post(np, a, r):
        yield g


def prove(rep, label, f, args, post, pre=None, conds=(), optional=(), must=True, setup=None):
    """all obligations of one contract on one function; args: name -> symbolic value"""
    def run():
        if setup:
            setup()
        np = shim.np_shim()
        if pre:
            for nm, l, r in pre(np, args):
                d = alg.as_mat(l) - alg.as_mat(r)
                for i in range(len(d.rows)):
                    for j in range(len(d.cols)):
                        alg.CTX.hyp('pre:' + nm, d.b[i][j])
        ret = shim.sym(f)(**bind(f, args, optional))
        yield from post(np, args, ret)
    return prove_run(rep, label, run, conds)


def prove_run(rep, label, run, conds=(), max_paths=256):
    """run(): executes real code symbolically and yields goals; every goal on every feasible path is an obligation"""
    t0 = time.time()
    n = 0

    def thunk():
        alg.new_ctx()
        return [judge(g) for g in run()], sorted(alg.CTX.trusted)
    try:
        res = path.explore(thunk, conds, max_paths)
    except Unsupported as e:
        rep.ob(f'{label}', 'unsupported', '-', time.time() - t0, str(e))
        return False
    ok = True
    if not res:
        rep.ob(label, 'failed', 'engine', time.time() - t0, 'no feasible path: vacuous contract')
        return False
    for k, (facts, out) in enumerate(res):
        tag = f'#path{k}' if len(res) > 1 else ''
        if out[0] == 'exc':
            e = out[1]
            # an exception raised by the symbolic library or by a changed interface is not a verdict about the code
            rep.ob(label + tag, 'unsupported', '-', 0, f'{type(e).__name__}: {e}')
            ok = False
            continue
        gs, trusted = out[1]
        rep.assume(*trusted)
        if not gs:
            rep.ob(label + tag, 'failed', 'engine', 0, 'no obligations')
            ok = False
        for nm, good, det, be in gs:
            n += 1
            st = 'proved' if good else ('unsupported' if good is None else 'failed')
            rep.ob(f'{label}{tag}:{nm}', st, be, (time.time() - t0) / max(1, len(gs)),
                   det if good else f'{det} | path {facts}')
            ok = ok and bool(good)
    return ok


def judge(g):
    """(name, lhs, rhs) equality or (name, cond) -> (name, ok, detail, backend)"""
    if len(g) == 3:
        nm, l, r = g
        try:
            ok, det = alg.equal(l, r)
        except Unsupported as e:
            return nm, None, str(e), '-'
        except (ValueError, TypeError, IndexError) as e:
            return nm, None, f'{type(e).__name__}: {e}', '-'
        if not ok and path.PATH.facts:
            if follows(l, r):
                return nm, True, '', 'z3'
        if not ok:
            d = scalar_differ(l, r)
            if d is False:
                return nm, None, f'equal at samples of the inputs, but not proved: {det}', '-'
            if d:
                det = f'{d} | {det}'
        return nm, ok, det, 'rewrite'
    nm, c = g
    if isinstance(c, bool):
        return nm, c, '' if c else 'false', 'eval'
    try:
        r, model, _ = path.check(path.PATH.facts + [~c], timeout=20000)
    except Unsupported as e:
        return nm, None, str(e), '-'
    if r == 'unsat':
        return nm, True, '', 'z3'
    if r == 'sat':
        return nm, False, str(model)[:800], 'z3'
    return nm, None, 'z3: unknown', '-'


def scalar_differ(l, r):
    from . import numeric
    a, b = scal.coerce(l), scal.coerce(r)
    if a is NotImplemented or b is NotImplemented:
        return None
    return numeric.differ(a, b, path.PATH.facts)


def follows(l, r):
    """equality of two scalars from the facts of the path"""
    try:
        a, b = scal.coerce(l), scal.coerce(r)
        if a is NotImplemented or b is NotImplemented:
            return False
        c = a == b
        if isinstance(c, bool):
            return c
        return path.check(path.PATH.facts + [~c], timeout=5000)[0] == 'unsat'
    except (Unsupported, ValueError, TypeError, AttributeError):
        return False


# ---------------------------------------------------------------------------------------- concrete evaluation
def conv(be, v):
    if isinstance(v, rnp.ndarray):
        if be == 'torch':
            import torch
            return torch.as_tensor(v.copy())
        if be == 'jax':
            import meent.on_jax, jax.numpy as jnp      # the package enables 64-bit jax on import
            return jnp.asarray(v)
        return v.copy()
    if isinstance(v, complex) and be == 'torch':
        import torch
        return torch.tensor(v, dtype=torch.complex128)
    if isinstance(v, float) and be == 'torch':
        import torch
        return torch.tensor(v, dtype=torch.float64)
    return v


def nojit(be):
    import contextlib
    if be == 'jax':
        import jax
        return jax.disable_jit()
    return contextlib.nullcontext()


def back(x):
    from .api import to_np
    if isinstance(x, tuple):
        return tuple(back(y) for y in x)
    if isinstance(x, list):
        return [back(y) for y in x]
    if isinstance(x, dict):
        return {k: back(y) for k, y in x.items()}
    if x is None or isinstance(x, (int, float, complex, str, bool)):
        return x
    return to_np(x)


def evaluate(rep, label, be, f, args, post, tol=1e-8, optional=(), extra=None, sample=True):
    """contract on one real execution; returns True if held.  A failure is recorded as a function-level failure."""
    from .api import jsonable
    try:
        kw = bind(f, args, optional)
    except Unsupported as e:
        rep.bounded.append((label, f'not evaluated: {e}'))
        return None
    try:
        with nojit(be):
            ret = f(**{k: conv(be, v) for k, v in kw.items()}, **(extra or {}))
    except Exception as e:  # noqa: BLE001
        if not core.from_repo(e):
            raise
        rep.fail(f'{label}: raises {type(e).__name__}: {e}', dict(function=str(f), args=jsonable(args)), kind='fn')
        return False
    ret = back(ret)
    rep.ev((label, jsonable(args)))
    ok = True
    try:
        gs = list(post(rnp, args, ret))
    except (ValueError, TypeError, IndexError, KeyError) as e:
        rep.bounded.append((label, f'result shape not as in the contract: {e}'))
        return None
    for g in gs:
        if len(g) == 3:
            nm, l, r = g
            l, r = rnp.asarray(l), rnp.asarray(r)
            try:
                d = rnp.max(rnp.abs(l - r)) if rnp.broadcast(l, r).size else 0.
            except ValueError:
                rep.fail(f'{label}:{nm} shapes {l.shape} {r.shape}', dict(args=jsonable(args)), kind='fn')
                ok = False
                continue
            sc = max(1., float(rnp.max(rnp.abs(l))) if l.size else 1., float(rnp.max(rnp.abs(r))) if r.size else 1.)
            good = bool(d <= tol * sc)
            det = f'{d:.3g} > {tol * sc:.1g}'
        else:
            nm, good = g[0], bool(g[1])
            det = 'false'
        if not good:
            ok = False
            rep.fail(f'{label}:{nm} {det}', dict(function=f'{getattr(f, "__module__", "")}.{getattr(f, "__name__", f)}',
                                                 backend=be, args=jsonable(args)), kind='fn', ob=nm)
    return ok
