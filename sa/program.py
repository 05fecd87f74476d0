"""Modules, classes and functions of an analysed package (the code, or the contracts)."""
import ast
import os
import sys


class Func:
    def __init__(self, name, node, module, cls=None):
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_property = 'property' in self.decorators
        self.is_static = 'staticmethod' in self.decorators
        self.is_setter = any(d.endswith('.setter') for d in self.decorators)
        self.tags = _tags(node)
        self.file = module.path

    @property
    def qual(self):
        return f'{self.module.name}.{self.cls.name + "." if self.cls else ""}{self.name}'

    def __repr__(self):
        return f'<{self.qual}>'


def _tags(node):
    for d in node.decorator_list:
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'prop':
            return tuple(a.value for a in d.args)
    return ()


class Class:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = [ast.unparse(b) for b in node.bases]
        self.methods = {}
        self.consts = {}
        self.fields = []
        self.tags = _tags(node)
        decos = [ast.unparse(d) for d in node.decorator_list]
        self.is_dataclass = any(d.split('(')[0].endswith('dataclass') for d in decos)
        self.is_enum = any(b.split('.')[-1] in ('IntEnum', 'Enum') for b in self.bases)
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                f = Func(n.name, n, module, self)
                if not f.is_setter:
                    self.methods[n.name] = f
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.fields.append((n.target.id, n.value))
                if n.value is not None:
                    self.consts[n.target.id] = n.value


def _version_test(t):
    """Value of a condition on the version of Python, for the version installed; None for any other condition."""
    ok = (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Subscript, ast.Attribute, ast.Name, ast.Constant, ast.Tuple, ast.cmpop, ast.boolop,
          ast.unaryop, ast.Load)
    names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    if names != {'sys'} or not all(isinstance(x, ok) for x in ast.walk(t)) or \
            {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)} != {'version_info'}:
        return None

    def ev(x):
        if isinstance(x, ast.Constant):
            return x.value
        if isinstance(x, ast.Tuple):
            return tuple(ev(y) for y in x.elts)
        if isinstance(x, ast.Attribute):
            return tuple(sys.version_info[:3])
        if isinstance(x, ast.Subscript):
            return ev(x.value)[ev(x.slice)]
        if isinstance(x, ast.BoolOp):
            vs = [ev(y) for y in x.values]
            return all(vs) if isinstance(x.op, ast.And) else any(vs)
        if isinstance(x, ast.UnaryOp):
            return not ev(x.operand)
        a = ev(x.left)
        for o, r in zip(x.ops, x.comparators):
            b = ev(r)
            f = {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b}[type(o).__name__] \
                if type(a) is type(b) else {'Eq': False, 'NotEq': True}[type(o).__name__]
            if not f:
                return False
            a = b
        return True
    try:
        return bool(ev(t))
    except Exception:
        return None


POINTS = ('DiscretePoint', 'ContinuousPoint')
RESETS = {'_reset1D': 1, '_reset2D': 2, '_reset3D': 3, '_reset': None}
KEEPERS = {'append', 'appendleft', 'insert', 'extend', 'setdefault', 'put', '_reset', '_reset1D', '_reset2D', '_reset3D'}


def split_points(tree):
    """A local point used as a set of coordinates (reset, read, handed to calls that copy it) is three variables."""
    aliases = set(POINTS)
    for n in tree.body:
        if isinstance(n, ast.ImportFrom):
            aliases |= {a.asname for a in n.names if a.name in POINTS and a.asname}
    for _ in range(3):
        if not _lent_points(tree, aliases):
            break
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            _split_points(f, aliases)


def _is_make(v, aliases):
    return isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and \
        (v.func.id if isinstance(v.func, ast.Name) else v.func.attr) in aliases and len(v.args) == 3 and not v.keywords and \
        not any(isinstance(a, ast.Starred) for a in v.args)


def _lent_points(tree, aliases):
    """A helper that only uses the point it is handed to put coordinates in it may as well make its own."""
    import copy
    funcs = [f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) and f.name.startswith('_') and not f.name.startswith('__')]
    done = False
    for f in funcs:
        if sum(g.name == f.name for g in funcs) != 1:
            continue
        own, inner = _own_nodes(f)
        ps = [a.arg for a in f.args.args]
        for p in ps:
            uses = sorted((n for n in own if isinstance(n, ast.Name) and n.id == p), key=lambda n: (n.lineno, n.col_offset)
                          if hasattr(n, 'lineno') else (0, 0))
            if not uses or p in inner or any(not isinstance(n.ctx, ast.Load) for n in uses):
                continue
            par = {id(c): n for n in own for c in ast.iter_child_nodes(n)}
            first = par.get(id(uses[0]))
            if not (isinstance(first, ast.Attribute) and first.attr in RESETS):
                continue
            if len({par[id(n)].attr for n in uses if isinstance(par.get(id(n)), ast.Attribute) and par[id(n)].attr in RESETS}) != 1:
                continue
            make = _lender(tree, f, p, ps.index(p), aliases)
            if make is None:
                continue
            new = p + '.own'
            for n in uses:
                n.id = new
            k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
            f.body.insert(k, ast.copy_location(ast.Assign([ast.copy_location(ast.Name(new, ast.Store()), f.body[0])],
                                                          copy.deepcopy(make)), f.body[0]))
            done = True
    return done


def _lender(tree, f, p, i, aliases):
    """What every caller of f makes to hand over as parameter p, when they do nothing else with it."""
    makes = {}
    calls = 0
    for g in ast.walk(tree):
        if not isinstance(g, ast.FunctionDef):
            continue
        own, inner = _own_nodes(g)
        if f.name in inner:
            return None
        par = {id(c): n for n in own for c in ast.iter_child_nodes(n)}
        for c in own:
            nm = c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else None
            if nm != f.name:
                continue
            call = par.get(id(c))
            if not isinstance(call, ast.Call) or call.func is not c or any(isinstance(a, ast.Starred) for a in call.args):
                return None
            j = i - 1 if isinstance(c, ast.Attribute) and f.args.args and f.args.args[0].arg == 'self' else i
            a = call.args[j] if 0 <= j < len(call.args) else next((k.value for k in call.keywords if k.arg == p), None)
            if not isinstance(a, ast.Name) or a.id in inner:
                return None
            calls += 1
            got = False
            for n in own:
                if isinstance(n, ast.Name) and n.id == a.id:
                    q = par.get(id(n))
                    if isinstance(n.ctx, ast.Store) and isinstance(q, ast.Assign) and len(q.targets) == 1 and _is_make(q.value, aliases) and \
                            all(isinstance(x, ast.Constant) for x in q.value.args):
                        makes[ast.dump(q.value)] = q.value
                        got = True
                    elif isinstance(q, ast.keyword) or isinstance(q, ast.Call) and n is not q.func:
                        q = par.get(id(q)) if isinstance(q, ast.keyword) else q
                        h = q.func if isinstance(q, ast.Call) else None
                        if (h.id if isinstance(h, ast.Name) else h.attr if isinstance(h, ast.Attribute) else None) != f.name:
                            return None
                    else:
                        return None
            if not got:
                return None
    return next(iter(makes.values())) if calls and len(makes) == 1 else None


def _own_nodes(f):
    """Nodes of the function without those of functions defined in it; names the latter use."""
    own, inner, todo = [], set(), list(f.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            inner |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            continue
        own.append(n)
        todo.extend(ast.iter_child_nodes(n))
    return own, inner


def _split_points(f, aliases):
    own, inner = _own_nodes(f)
    made = {}

    def is_make(v):
        return _is_make(v, aliases)
    for n in own:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and is_make(n.value):
            made.setdefault(n.targets[0].id, []).append(n)
    if not made:
        return
    params = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
    parents = {}
    for n in own:
        for c in ast.iter_child_nodes(n):
            parents[id(c)] = n
    resets = {}
    for nm in list(made):
        ok = nm not in params and nm not in inner and len({ast.unparse(n.value.func) for n in made[nm]}) == 1
        for n in own:
            if not (isinstance(n, ast.Name) and n.id == nm):
                continue
            p = parents.get(id(n))
            if isinstance(n.ctx, ast.Store):
                ok = ok and p in made[nm]
            elif isinstance(n.ctx, ast.Del):
                ok = False
            elif isinstance(p, ast.Attribute):
                if p.attr in 'xyz' and len(p.attr) == 1 and isinstance(p.ctx, ast.Load):
                    continue
                c = parents.get(id(p))
                st = parents.get(id(c))
                if p.attr in RESETS and isinstance(c, ast.Call) and c.func is p and not c.keywords and isinstance(st, ast.Expr) and \
                        len(c.args) == (RESETS[p.attr] or 1) and not any(isinstance(a, ast.Starred) for a in c.args):
                    resets[id(st)] = (nm, p.attr, c)
                    continue
                ok = False
            elif isinstance(p, ast.Call) and n in p.args:
                ok = ok and not (isinstance(p.func, ast.Attribute) and p.func.attr in KEEPERS)
            else:
                ok = False
        if not ok:
            del made[nm]
    if not made:
        return
    heads = {nm: v[0].value.func for nm, v in made.items()}

    def var(nm, c, ctx, at):
        return ast.copy_location(ast.Name(f'{nm}.{c}', ctx()), at)

    class Tr(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n
        visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Assign(self, n):
            self.generic_visit(n)
            t = n.targets[0]
            if isinstance(t, ast.Name) and t.id in made and len(n.targets) == 1:
                return ast.copy_location(ast.Assign(
                    [ast.copy_location(ast.Tuple([var(t.id, c, ast.Store, n) for c in 'xyz'], ast.Store()), n)],
                    ast.copy_location(ast.Tuple(n.value.args, ast.Load()), n)), n)
            return n

        def visit_Expr(self, n):
            r = resets.get(id(n))
            self.generic_visit(n)
            if r is None or r[0] not in made:
                return n
            nm, kind, c = r
            k = RESETS[kind] or 3
            if kind == '_reset':
                tmp = ast.copy_location(ast.Name(f'{nm}.data', ast.Load()), n)
                vals = [ast.copy_location(ast.Subscript(tmp, ast.copy_location(ast.Constant(i), n), ast.Load()), n) for i in range(3)]
            else:
                vals = c.args
            out = [ast.copy_location(ast.Assign(
                [ast.copy_location(ast.Tuple([var(nm, x, ast.Store, n) for x in 'xyz'[:k]], ast.Store()), n)],
                ast.copy_location(ast.Tuple(vals, ast.Load()), n)), n)]
            if kind == '_reset':
                out.insert(0, ast.copy_location(ast.Assign([ast.copy_location(ast.Name(f'{nm}.data', ast.Store()), n)], c.args[0]), n))
            return out

        def visit_Attribute(self, n):
            if isinstance(n.value, ast.Name) and n.value.id in made and n.attr in ('x', 'y', 'z'):
                return var(n.value.id, n.attr, ast.Load, n)
            return self.generic_visit(n)

        def visit_Name(self, n):
            if n.id in made and isinstance(n.ctx, ast.Load):
                import copy
                return ast.copy_location(ast.Call(copy.deepcopy(heads[n.id]), [var(n.id, c, ast.Load, n) for c in 'xyz'], []), n)
            return n
    tr = Tr()
    body = []
    for s in f.body:
        r = tr.visit(s)
        body += r if isinstance(r, list) else [r]
    f.body = body
    ast.fix_missing_locations(f)


class Module:
    def __init__(self, name, path, src=None, tree=None):
        self.name, self.path = name, path
        if tree is None:
            if src is None:
                with open(path) as f:
                    src = f.read()
            tree = ast.parse(src, path)
        split_points(tree)
        self.tree = tree
        self.lines = src.splitlines() if src else []
        self.imports, self.funcs, self.classes, self.consts = {}, {}, {}, {}
        self.multi = set()
        self._scan(tree.body)

    def _scan(self, body):
        pkg = self.name.rsplit('.', 1)[0] if '.' in self.name else self.name
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    base = pkg + ('.' + base if base else '')
                for a in n.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = Func(n.name, n, self)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(n.name, n, self)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                if n.targets[0].id in self.consts:
                    self.multi.add(n.targets[0].id)
                self.consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, ast.Try):
                self._scan(n.body)
            elif isinstance(n, ast.If):
                v = _version_test(n.test)
                if v is not False:
                    self._scan(n.body)
                if v is not True:
                    self._scan(n.orelse)


class Program:
    def __init__(self, pkg):
        self.pkg = pkg
        self.modules = {}

    def add(self, mod):
        self.modules[mod.name] = mod
        # names a module declares global somewhere are mutable
        mod.globals_written = set()
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Global):
                mod.globals_written.update(n.names)

    def load_dir(self, d, names=None):
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.py') and (names is None or fn[:-3] in names):
                self.add(Module(f'{self.pkg}.{fn[:-3]}' if fn != '__init__.py' else self.pkg, os.path.join(d, fn)))

    def lookup(self, dotted):
        """Resolve a dotted name to Func, Class, ('const', module, name), Module or None."""
        seen = 0
        while seen < 10:
            seen += 1
            if dotted in self.modules:
                return self.modules[dotted]
            if '.' not in dotted:
                return None
            m, n = dotted.rsplit('.', 1)
            mod = self.modules.get(m)
            if mod is None:
                c = self.lookup(m)
                if isinstance(c, Class):
                    f = self.method(c, n)
                    if f is not None:
                        return f
                    cc = self.class_const(c, n)
                    if cc is not None:
                        return ('cconst', cc[0], n, cc[1])
                return None
            if n in mod.funcs:
                return mod.funcs[n]
            if n in mod.classes:
                return mod.classes[n]
            if n in mod.consts:
                return ('const', mod, n)
            if n in mod.imports:
                dotted = mod.imports[n]
                continue
            return None
        return None

    def canonical(self, dotted):
        for _ in range(10):
            if '.' not in dotted:
                return dotted
            m, n = dotted.rsplit('.', 1)
            mod = self.modules.get(m)
            if mod is None:
                cm = self.canonical(m)
                return cm + '.' + n
            if n in mod.imports and n not in mod.funcs and n not in mod.classes and n not in mod.consts:
                dotted = mod.imports[n]
                continue
            return dotted
        return dotted

    def bases(self, cls):
        out = []
        for b in cls.bases:
            d = self.resolve_in(cls.module, b)
            c = self.lookup(d) if d else None
            if isinstance(c, Class):
                out.append(c)
        return out

    def mro(self, cls):
        out, q = [], [cls]
        while q:
            c = q.pop(0)
            if c not in out:
                out.append(c)
                q = self.bases(c) + q if False else q + self.bases(c)
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def class_const(self, cls, name):
        for c in self.mro(cls):
            if name in c.consts:
                return c, c.consts[name]
        return None

    def resolve_in(self, mod, dotted):
        head, _, rest = dotted.partition('.')
        if head in mod.funcs or head in mod.classes or head in mod.consts:
            d = mod.name + '.' + head
        elif head in mod.imports:
            d = mod.imports[head]
        else:
            return dotted
        return self.canonical(d + ('.' + rest if rest else ''))
