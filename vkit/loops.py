"""The loop rule for real functions.

`loopify(f)` re-parses the source of the real function on every run and replaces each `for` statement by
    it = ITER
    if it is symbolic:  begin (invariant holds on entry) ; havoc the modified variables to the invariant at a generic
                        iteration ; BODY (verbatim) ; end (invariant re-established) ; exit state
    else:               the original loop
Nothing else is changed.  break/continue/return inside a loop over a symbolic range are outside the subset."""
import ast, inspect, textwrap, types
from . import shim
from .scal import S, Unsupported, coerce


class _T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        k = self.n
        self.n += 1
        self.generic_visit(node)
        names = sorted({x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        bad = any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in node.body for x in ast.walk(b)) or bool(node.orelse)
        subs = sorted({y.id for b in node.body for x in ast.walk(b) if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store)
                       for y in ast.walk(x.value) if isinstance(y, ast.Name)})
        it = f'__it{k}'
        src = f'''
if __L.is_sym({it}):
    __L.stores = {subs!r}
    __L.begin({k}, {it}, locals(), {names!r}, {bad!r})
    {"".join(f"{n} = __L.havoc({k}, {n!r}); " for n in names) or "pass"}
    __TARGET = __L.elem({k})
    __BODY
    __L.end({k}, locals())
    {"".join(f"{n} = __L.exit({k}, {n!r}); " for n in names) or "pass"}
else:
    pass
'''
        mod = ast.parse(src)
        st = mod.body[0]
        body = []
        for s in st.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == '__TARGET':
                body.append(ast.Assign(targets=[node.target], value=s.value))
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Name) and s.value.id == '__BODY':
                body += [ast.parse(ast.unparse(b)).body[0] for b in node.body]
            else:
                body.append(s)
        st.body = body
        st.orelse = [ast.For(target=node.target, iter=ast.Name(it, ast.Load()), body=node.body, orelse=node.orelse)]
        asn = ast.Assign(targets=[ast.Name(it, ast.Store())], value=node.iter)
        return [ast.copy_location(asn, node), ast.copy_location(st, node)]


_cache = {}


def loopify(f):
    f = shim.unwrap(f)
    if f in _cache:
        return _cache[f]
    if f.__code__.co_freevars:
        raise Unsupported('closure')
    tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    fd = tree.body[0]
    if not isinstance(fd, ast.FunctionDef):
        raise Unsupported('not a plain function')
    fd.decorator_list = []
    t = _T()
    tree = ast.fix_missing_locations(t.visit(tree))
    env = {}
    g = dict(f.__globals__)
    exec(compile(tree, f.__code__.co_filename, 'exec'), g, env)
    new = env[fd.name]
    new.__module__ = f.__module__
    new.__qualname__ = f.__qualname__
    new.__defaults__, new.__kwdefaults__ = f.__defaults__, f.__kwdefaults__
    _cache[f] = new
    return new


class SymRange:
    """range over a symbolic number of iterations, in a known order: element(k) for k = 0..n-1"""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def __getitem__(self, ix):
        if isinstance(ix, slice) and ix.start is None and ix.stop is None and ix.step is not None and coerce(ix.step).as_int() == -1:
            e, n = self.elem, self.n
            return SymRange(n, lambda k: e(n - 1 - k))
        raise Unsupported('slice of a symbolic range')

    def sym_reversed(self):
        return self[::-1]

    def sym_len(self):
        return self.n

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range outside a for statement')


def sym_range(*a):
    a = [coerce(x) for x in a]
    k = [x.as_int() for x in a]
    if all(x is not None for x in k):
        return range(*k)
    if len(a) == 1:
        return SymRange(a[0], lambda k: k)
    if len(a) == 2:
        return SymRange(a[1] - a[0], lambda k, s=a[0]: s + k)
    if len(a) == 3 and k[2] == -1:
        return SymRange(a[0] - a[1], lambda k, s=a[0]: s - k)
    if len(a) == 3 and k[2] == 1:
        return SymRange(a[1] - a[0], lambda k, s=a[0]: s + k)
    if len(a) == 3 and k[2] is not None and k[2] > 1:
        from . import scal
        return SymRange(scal.fn('ceildiv', a[1] - a[0], a[2], real=True), lambda j, s=a[0], d=k[2]: s + d * j)
    raise Unsupported('range')


def sym_reversed(x):
    if hasattr(x, 'sym_reversed'):
        return x.sym_reversed()
    return reversed(x)


def sym_zip(*xs):
    if any(hasattr(x, 'sym_len') and hasattr(x, 'elem') for x in xs):
        if not all(hasattr(x, 'elem') for x in xs):
            raise Unsupported('zip of symbolic and concrete sequences')
        return SymRange(xs[0].sym_len(), lambda k: tuple(x.elem(k) for x in xs))
    return zip(*xs)


def sym_enumerate(x, start=0):
    if hasattr(x, 'elem'):
        return SymRange(x.sym_len(), lambda k: (k + start, x.elem(k)))
    return enumerate(x, start)


class Seq:
    """immutable sequence of symbolic length; item(i) gives the i-th element"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def sym_len(self):
        return self.n

    def elem(self, k):
        return self.item(k)

    @property
    def shape(self):
        return (self.n,)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is not None and coerce(i.step).as_int() == -1:
                return Seq(self.n, lambda k: self.item(self.n - 1 - k))
            raise Unsupported('slice of a symbolic sequence')
        i = coerce(i)
        if i.as_int() is not None and i.as_int() < 0:
            i = self.n + i
        return self.item(i)

    def sym_reversed(self):
        return self[::-1]

    def __iter__(self):
        raise Unsupported('iteration over a symbolic sequence outside a for statement')


class AccRule:
    """loop rule for sums: the variables the body updates from their previous value are the accumulators.  Entry values,
    the increment of a generic iteration and the value after the loop (a fresh symbol) are recorded for the contract."""

    def __init__(self):
        self.entry, self.inc, self.total, self.pre = {}, {}, {}, {}
        self.k = None

    def is_sym(self, it):
        return isinstance(it, (SymRange, Seq))

    def begin(self, k, it, env, names, bad):
        from . import scal
        if bad:
            raise Unsupported('break/continue/return in a loop over a symbolic range')
        if self.k is not None:
            raise Unsupported('more than one symbolic loop')
        self.k, self.it, self.names = k, it, names
        self.acc = [n for n in names if n in env and isinstance(coerce(env[n]) if not isinstance(env[n], (str, list, tuple)) else None, S)]
        self.entry = {n: coerce(env[n]) for n in self.acc}
        self.pre = {n: S.sym(f'acc_{n}') for n in self.acc}
        self.total = {n: S.sym(f'sum_{n}') for n in self.acc}
        self.idx = S.sym('#k', real=True)

    def havoc(self, k, n):
        return self.pre.get(n)

    def elem(self, k):
        return self.it.elem(self.idx)

    def end(self, k, env):
        self.inc = {n: coerce(env[n]) - self.pre[n] for n in self.acc}

    def exit(self, k, n):
        return self.total.get(n)


LOOP_BUILTINS = {'range': sym_range, 'reversed': sym_reversed, 'zip': sym_zip, 'enumerate': sym_enumerate}
shim.BUILTINS.update(LOOP_BUILTINS)
