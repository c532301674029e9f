"""Numbers for symbolic scalars: samples of the inputs on which the facts of a path hold, and the value of an expression there.
Used on obligations the prover rejects: an equality that holds at every sample is reported as undecided instead of failed (the
rewriting is incomplete), one that does not is reported with the sample as counterexample."""
import cmath, hashlib, math, random
from . import scal
from .scal import S, Unsupported, coerce
from .path import Cond, INT_ATOMS


class Env:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.v = {}
        self.seed = seed

    def sym(self, a):
        if a.id not in self.v:
            n = a.args[0]
            if n == 'pi':
                x = math.pi
            elif a.id in INT_ATOMS:
                x = self.r.choice([0, 1, 1, 2, 3, 4, 5, 7])
            elif a.real:
                x = self.r.choice([self.r.uniform(.05, 3), self.r.uniform(-3, 3), self.r.uniform(-7, 7)])
                if a.pos:
                    x = abs(x)
            else:
                x = complex(self.r.uniform(-2, 2), self.r.uniform(-2, 2))
            self.v[a.id] = x
        return self.v[a.id]

    def opaque(self, kind, args, real):
        h = hashlib.md5(repr((self.seed, kind, [r9(x) for x in args])).encode()).digest()
        a, b = int.from_bytes(h[:6], 'big') / 2 ** 48, int.from_bytes(h[6:12], 'big') / 2 ** 48
        return 4 * a - 2 if real else complex(4 * a - 2, 4 * b - 2)


def r9(x):
    x = complex(x)
    return round(x.real, 9) + 0., round(x.imag, 9) + 0.


def re(x):
    return x.real if isinstance(x, complex) else x


def atom(a, env):
    k = a.kind
    if k == 'sym':
        if a.args[1]:
            raise Unsupported('indexed symbol')
        return env.sym(a)
    if k == 'conj':
        return complex(atom(scal._by_id[a.args[0]], env)).conjugate()
    if k in ('bool', 'sgn', 'ite'):
        c = holds(a.args[0], env)
        if k == 'bool':
            return 1 if c else 0
        if k == 'sgn':
            return -1 if c else 1
        return value(a.args[1] if c else a.args[2], env)
    if k in ('el', 'dot', 'sum', 'msum', 'minv', 'forall') or not all(isinstance(z, S) for z in a.args):
        raise Unsupported(k)
    x = [value(z, env) for z in a.args]
    if k == 'sin':
        return cmath.sin(x[0]) if isinstance(x[0], complex) else math.sin(x[0])
    if k == 'cos':
        return cmath.cos(x[0]) if isinstance(x[0], complex) else math.cos(x[0])
    if k == 'exp':
        return cmath.exp(x[0])
    if k == 'sqrt':
        return cmath.sqrt(x[0])
    if k == 'recip':
        return 1 / x[0]
    if k == 'abs':
        return abs(x[0])
    if k == 'arctan':
        return cmath.atan(x[0])
    if k == 'floor':
        return math.floor(re(x[0]) / re(x[1]))
    if k == 'ceildiv':
        return math.ceil(re(x[0]) / re(x[1]))
    if k == 'mod':
        return re(x[0]) - re(x[1]) * math.floor(re(x[0]) / re(x[1]))
    if k == 'trunc':
        return math.trunc(re(x[0]))
    if k == 'frac':
        return re(x[0]) / re(x[1])
    if k == 'delta':
        return 1 if abs(x[0]) < 1e-9 else 0
    if k == 'lt0':
        return 1 if re(x[0]) < -1e-9 else 0
    return env.opaque(k, x, a.real)


def value(e, env):
    e = coerce(e)
    if e is NotImplemented:
        raise Unsupported('value')
    t = 0
    for m, (p, q) in e.terms.items():
        x = float(p) if q == 0 else complex(float(p), float(q))
        for aid, ex in m:
            x = x * atom(scal._by_id[aid], env) ** ex
        t = t + x
    if isinstance(t, complex) and abs(t.imag) < 1e-14 * (1 + abs(t)):
        return t.real if t.imag == 0 else t
    return t


def holds(c, env):
    if isinstance(c, bool):
        return c
    if c.op == 'not':
        return not holds(c.args[0], env)
    if c.op == 'and':
        return all(holds(z, env) for z in c.args)
    if c.op == 'or':
        return any(holds(z, env) for z in c.args)
    v = value(c.args[0], env)
    if c.op == 'eq':
        return abs(v) < 1e-9
    if c.op == 'lt':
        return re(v) < 0
    raise Unsupported(c.op)


def samples(facts, want=6, tries=4000, seed=0):
    out = []
    for t in range(tries):
        env = Env(seed * 100000 + t)
        try:
            if all(holds(c, env) for c in facts):
                out.append(env)
                if len(out) >= want:
                    break
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
    return out


def differ(a, b, facts):
    """None: cannot tell; False: equal at every sample; otherwise text of a sample where a and b differ"""
    try:
        envs = samples(facts)
        if len(envs) < 3:
            return None
        n = 0
        for env in envs:
            try:
                x, y = complex(value(a, env)), complex(value(b, env))
            except (ZeroDivisionError, OverflowError):
                continue
            n += 1
            if not abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y)):
                w = {repr(scal._by_id[i]): v for i, v in env.v.items()}
                return f'{x} != {y} at {w}'[:600]
        return False if n >= 3 else None
    except (Unsupported, RecursionError, TypeError, AttributeError, ValueError):
        return None
