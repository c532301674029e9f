"""Modular effect analysis: which objects a function may modify.

For every function of the package the contract is `modifies nothing but objects it created itself (and attributes of self)`.
Each place where something is modified in place (subscript store, augmented assignment, mutating method, out=) is an obligation
"the modified object was created in this function"; each rebinding of a global name or of an attribute of something else than
self is an obligation that fails the analysis.  The analysis works on the source of the current tree; it answers `owned` or
`not established` - the latter is never reported as a violation, it only lowers the coverage."""
import ast, os

VIEWS = {'reshape', 'view', 'ravel', 'transpose', 'swapaxes', 'squeeze', 'unsqueeze', 'T', 'mT', 'real', 'imag', 'conj', 'flatten', 'detach', 'cpu', 'to', 'type',
         'contiguous', 'diagonal', 'asarray', 'as_tensor', 'from_numpy', 'atleast_1d', 'atleast_2d', 'broadcast_to', 'expand', 'flip', 'flat', 'narrow', 'permute',
         'expand_dims', 'moveaxis', 'numpy', 'split', 'values', 'items', 'get', 'pop', 'setdefault', 'resolve_conj', 'astype', 'squeeze_', 'diag', 'real_if_close', 'nan_to_num'}
MUTATE = {'append', 'extend', 'insert', 'sort', 'reverse', 'remove', 'clear', 'update', 'pop', 'popitem', 'setdefault', 'fill', 'put', 'itemset', 'resize', 'add', 'discard', 'setflags'}
MUTATE_FN = {'copyto', 'fill_diagonal', 'put', 'place', 'putmask', 'put_along_axis', 'shuffle', 'setattr', 'delattr'}
LIBS = {'np', 'jnp', 'torch', 'jax', 'numpy', 'math', 'scipy', 'os', 'warnings', 'rnp', 'dispersion', 'lax', 'functools', 'tree_util', 'optax', 'plt', 'copy', 'time'}
PURE = {'len', 'int', 'float', 'complex', 'str', 'bool', 'range', 'abs', 'sum', 'print', 'isinstance', 'type', 'repr', 'round', 'hash', 'id', 'hasattr', 'ord', 'divmod',
        'ValueError', 'TypeError', 'NotImplementedError', 'FileNotFoundError', 'KeyError', 'RuntimeError', 'slice', 'callable', 'all', 'any', 'open'}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'sorted', 'zip', 'enumerate', 'reversed', 'map', 'filter'}
FRESH, SHALLOWV, BORROWED = 2, 1, 0
# a value is a number or a structure: ('seq', v) own list whose items are v, ('tup', [v, ...]) own list/tuple of known items
SUMMARY = {}        # package functions (by name) that return objects they created, whatever the arguments


def num(v):
    if not isinstance(v, tuple):
        return v
    items = [v[1]] if v[0] == 'seq' else v[1]
    return FRESH if all(num(x) == FRESH for x in items) else SHALLOWV


def merge(a, b):
    return a if a == b else min(num(a), num(b))


class Fn(ast.NodeVisitor):
    def __init__(self, node, outer=None):
        self.env = dict(outer or {})
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            self.env[x.arg] = BORROWED
        self.selfname = a.args[0].arg if a.args and a.args[0].arg in ('self', 'cls', 'ctx') else None
        self.selfattr = {}          # self.x assigned a fresh value in this function
        self.sites = []
        self.node = node
        self.purefn = set()

    def run(self):
        for _ in range(3):          # loops: iterate to a fixed point (values only get less owned)
            self.sites, self.returns = [], []
            self.block(self.node.body)
        return self.sites

    def low(self, name, v):
        self.env[name] = v if name not in self.env or self._first.get(name) is None else min(v, self.env[name])

    # ---- values
    def val(self, e):
        return num(self.sval(e))

    def sval(self, e):
        if isinstance(e, ast.Name):
            return self.env.get(e.id, BORROWED)
        if isinstance(e, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in e.elts):
            return ('tup', [self.sval(x) for x in e.elts])
        if isinstance(e, ast.ListComp):
            keep, il = dict(self.env), self.inloop          # the names of a comprehension are its own
            self.inloop = 0
            for g in e.generators:
                self.bind(g.target, self.elem(g.iter))
            v = ('seq', self.sval(e.elt))
            self.env, self.inloop = keep, il
            return v
        return self.val0(e)

    def val0(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare, ast.UnaryOp, ast.Lambda)):
            return FRESH
        if isinstance(e, ast.BinOp):
            l, r = self.val(e.left), self.val(e.right)
            if isinstance(e.op, (ast.Add, ast.Mult)) and (isinstance(e.left, (ast.List, ast.Tuple, ast.ListComp)) or isinstance(e.right, (ast.List, ast.Tuple, ast.ListComp))):
                return min(SHALLOWV, max(l, r)) if min(l, r) < FRESH else FRESH
            return FRESH if not self.listy(e) else SHALLOWV
        if isinstance(e, ast.BoolOp):
            return min(self.val(x) for x in e.values)
        if isinstance(e, ast.IfExp):
            return min(self.val(e.body), self.val(e.orelse))
        if isinstance(e, ast.Name):
            return num(self.env.get(e.id, BORROWED))
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return FRESH if all(self.val(x) == FRESH for x in e.elts) else SHALLOWV
        if isinstance(e, ast.Dict):
            return FRESH if all(self.val(x) == FRESH for x in e.values) else SHALLOWV
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in e.generators:
                self.bind(g.target, self.elem(g.iter))
            el = [e.elt] if not isinstance(e, ast.DictComp) else [e.value]
            return FRESH if all(self.val(x) == FRESH for x in el) else SHALLOWV
        if isinstance(e, ast.Starred):
            return self.val(e.value)
        if isinstance(e, ast.Subscript):
            v = self.val(e.value)
            return FRESH if v == FRESH else BORROWED
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.selfname:
                return self.selfattr.get(e.attr, BORROWED)
            if isinstance(e.value, ast.Name) and e.value.id in LIBS:
                return FRESH
            return FRESH if self.val(e.value) == FRESH else BORROWED
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value)
            self.env[e.target.id] = v
            return v
        return BORROWED

    def listy(self, e):
        return False

    def elem(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('range',):
            return FRESH
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'zip', 'reversed', 'sorted', 'list', 'tuple'):
            el = [self.elem(x) for x in e.args]
            if e.func.id in ('list', 'tuple', 'sorted', 'reversed') and len(el) == 1:
                return el[0]
            return ('tup', ([FRESH] if e.func.id == 'enumerate' else []) + el)
        v = self.sval(e)
        if isinstance(v, tuple):
            return v[1] if v[0] == 'seq' else (min(num(x) for x in v[1]) if v[1] else FRESH)
        return FRESH if v == FRESH else BORROWED

    def call(self, e):
        args = [x.value if isinstance(x, ast.Starred) else x for x in e.args] + [k.value for k in e.keywords]
        vs = [self.val(x) for x in args]
        low = min(vs, default=FRESH)
        f = e.func
        for k in e.keywords:
            if k.arg == 'out':
                self.site(e, k.value, 'out=')
            if k.arg == 'inplace' and not (isinstance(k.value, ast.Constant) and k.value.value is False):
                self.site(e, f.value if isinstance(f, ast.Attribute) else f, 'inplace=')
        if isinstance(f, ast.Name):
            if f.id in MUTATE_FN and e.args:
                if not (f.id == 'setattr' and isinstance(e.args[0], ast.Name) and e.args[0].id == self.selfname):
                    self.site(e, e.args[0], f.id)
            if f.id in PURE:
                return FRESH
            if f.id in SHALLOW:
                return SHALLOWV if low < FRESH else FRESH
            if f.id in self.purefn or f.id in ('min', 'max') or SUMMARY.get(f.id) == FRESH:
                return FRESH
            return FRESH if low == FRESH else BORROWED
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id in LIBS:
                if f.attr in MUTATE_FN and e.args:
                    self.site(e, e.args[0], f.attr)
                if f.attr.endswith('_') and not f.attr.startswith('_') and e.args:
                    self.site(e, e.args[0], f.attr)
                if f.attr in VIEWS:
                    return FRESH if low == FRESH else BORROWED
                if f.attr in ('deepcopy',):
                    return FRESH
                return FRESH
            base = self.val(f.value)
            if f.attr in MUTATE or (f.attr.endswith('_') and not f.attr.endswith('__') and not f.attr.startswith('_')):
                if f.attr in ('add', 'update', 'set') and isinstance(f.value, ast.Subscript) and isinstance(f.value.value, ast.Attribute) and f.value.value.attr == 'at':
                    return FRESH          # jax .at[...].set/add: a new array
                self.site(e, f.value, '.' + f.attr)
                if f.attr in ('append', 'insert', 'add') and low < FRESH or f.attr in ('extend', 'update') and low < FRESH:
                    self.demote(f.value)
                return base
            if f.attr in ('set', 'add') or f.attr in ('copy', 'clone', 'tolist', 'sum', 'mean', 'max', 'min', 'any', 'all', 'item', 'dim', 'size', 'abs', 'exp', 'sqrt', 'lower', 'upper', 'split', 'strip', 'join', 'format', 'startswith', 'endswith', 'cumsum', 'nonzero', 'argmax', 'argmin', 'argsort', 'unique', 'double', 'cdouble', 'new_tensor', 'new_zeros', 'dot', 'read', 'keys', 'index', 'count'):
                if f.attr == 'copy' and base < FRESH:
                    return SHALLOWV
                return FRESH
            if isinstance(f.value, ast.Name) and f.value.id == self.selfname:
                return FRESH if low == FRESH else BORROWED
            if f.attr in VIEWS:
                return FRESH if base == FRESH else BORROWED
            return FRESH if min(low, base) == FRESH else BORROWED
        self.val(f)
        return BORROWED

    def demote(self, e):
        if isinstance(e, ast.Name) and e.id in self.env:
            self.env[e.id] = min(num(self.env[e.id]), SHALLOWV)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.selfname:
            self.selfattr[e.attr] = min(self.selfattr.get(e.attr, BORROWED), SHALLOWV)

    def site(self, node, target, how):
        v = self.val(target)
        own = v >= SHALLOWV
        self.sites.append((node.lineno, ast.unparse(target)[:60], how, own))

    # ---- statements
    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = merge(v, self.env[t.id]) if self.inloop and t.id in self.env else v
            if t.id in self.globals:
                self.sites.append((t.lineno, t.id, 'global', False))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple) and v[0] == 'tup' and len(v[1]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v[1]):
                    self.bind(x, y)
                return
            el = v[1] if isinstance(v, tuple) and v[0] == 'seq' else (FRESH if num(v) == FRESH else BORROWED)
            for x in t.elts:
                self.bind(x, el)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v)
        elif isinstance(t, ast.Subscript):
            self.val(t.slice) if not isinstance(t.slice, ast.Slice) else None
            self.site(t, t.value, 'item assignment')
            if num(v) < FRESH:
                self.demote(t.value)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                self.selfattr[t.attr] = num(v)
            elif isinstance(t.value, ast.Attribute) and t.attr == 'data' or True:
                self.site(t, t.value, f'attribute {t.attr}')

    inloop = 0
    globals = ()

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.sval(s.value)
            if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('jax.jit', 'jax.vmap') and isinstance(s.targets[0], ast.Name):
                self.purefn.add(s.targets[0].id)            # results of compiled functions are new arrays
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    for a, b in zip(t.elts, s.value.elts):
                        self.bind(a, self.sval(b))
                else:
                    self.bind(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.val(s.value))
        elif isinstance(s, ast.AugAssign):
            v = self.val(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                own = num(self.env.get(t.id, BORROWED)) >= SHALLOWV
                self.sites.append((s.lineno, t.id, 'augmented assignment', own))
                if v < FRESH and own:
                    self.env[t.id] = SHALLOWV
            else:
                self.site(s, t.value if isinstance(t, (ast.Subscript,)) else t, 'augmented assignment')
        elif isinstance(s, ast.Expr):
            self.val(s.value)
        elif isinstance(s, ast.Return):
            self.returns.append(self.val(s.value))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.elem(s.iter)
            self.val(s.iter)
            self.bind(s.target, v)
            self.inloop += 1
            self.block(s.body)
            self.inloop -= 1
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.val(s.test)
            self.inloop += 1
            self.block(s.body)
            self.inloop -= 1
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.val(s.test)
            e0, a0 = dict(self.env), dict(self.selfattr)
            self.block(s.body)
            e1, a1 = self.env, self.selfattr
            self.env, self.selfattr = e0, a0
            self.block(s.orelse)
            # a name assigned in one branch only keeps what it was before in the other
            for k in set(e1) | set(self.env):
                self.env[k] = merge(e1.get(k, FRESH), self.env.get(k, FRESH))
            for k in set(a1) | set(self.selfattr):
                self.selfattr[k] = min(a1.get(k, BORROWED), self.selfattr.get(k, BORROWED))
        elif isinstance(s, (ast.With,)):
            for i in s.items:
                v = self.val(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, (ast.FunctionDef,)):
            f = Fn(s, self.env)
            f.selfname = f.selfname or self.selfname
            self.sites += [(l, t, h, o) for l, t, h, o in f.run()]
            self.env[s.name] = FRESH
        elif isinstance(s, (ast.Global, ast.Nonlocal)):
            self.globals = tuple(self.globals) + tuple(s.names)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.site(s, t.value, 'del')
        elif isinstance(s, (ast.Raise, ast.Assert)):
            pass


def functions(tree):
    """(qualified name, node) of all functions of a module, methods included"""
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield f'{n.name}.{m.name}', m


def summarise(paths):
    """which module-level functions return only objects they created"""
    SUMMARY.clear()
    for _ in range(2):
        out = {}
        for p in paths:
            with open(p) as f:
                tree = ast.parse(f.read())
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    fn = Fn(n)
                    fn.run()
                    out[n.name] = min([out.get(n.name, FRESH)] + fn.returns)
        SUMMARY.update(out)


def analyse(path):
    with open(path) as f:
        tree = ast.parse(f.read())
    for name, node in functions(tree):
        yield name, Fn(node).run()
