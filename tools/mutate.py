"""Development aid: applies single changes to a module of the code and reports what the comparison says.

  mutate.py bug MODULE [n]   behaviour-changing edits: how many are reported
  mutate.py ref MODULE       behaviour-preserving edits: which are (wrongly) reported
"""
import ast
import copy
import os
import random
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
import compare as X
from program import Program, Module
import terms


def analyse_native(src, spec):
    import cppcheck as K
    p = Program('repast4py')
    p.add(Module('repast4py.native', 'native.py', src=src))
    c = K.CppComparator(spec, p)
    out = []
    for r in c.roots():
        n0 = len(c.undecided)
        fs = c.check_root(r)
        if fs or len(c.undecided) > n0:
            c2 = K.CppComparator(spec, p)
            fs2 = c2.check_root(r, drop_soft=True)
            if not fs2 and not c2.undecided:
                fs, c.undecided[n0:] = [], []
        out += fs
    return out, c.undecided


def analyse(mod, src, spec, base):
    if mod == 'native':
        return analyse_native(src, spec)
    p = Program('repast4py')
    for n, m in base.modules.items():
        if n != 'repast4py.' + mod:
            p.modules[n] = m
    p.add(Module('repast4py.' + mod, os.path.join(X.CODE, mod + '.py'), src=src))
    c = X.Comparator(spec, p)
    out = []
    for r in c.roots():
        if r[0] != mod:
            continue
        out += c.check_root(r)
    fs, _ = X.check_consts(spec, p)
    out += fs
    return out, c.undecided


def strip_doc(t):
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
    return t


# ---------------------------------------------------------------- behaviour-changing
def bugs(tree):
    """yield (description, mutated tree)"""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        def variant(f):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            d = f(m)
            return ast.fix_missing_locations(t)
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            swap = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                    ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            k = type(n.ops[0])
            if k in swap:
                yield f'{ln}: compare {ast.unparse(n)} -> {swap[k].__name__}', variant(lambda m: m.ops.__setitem__(0, swap[k]()))
        if isinstance(n, ast.BoolOp):
            yield f'{ln}: and/or {ast.unparse(n)}', variant(lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for j in range(len(n.values)):
                yield f'{ln}: drop operand {j} of {ast.unparse(n)}', variant(lambda m: m.values.pop(j))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            yield f'{ln}: constant {n.value}+1', variant(lambda m: setattr(m, 'value', m.value + 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield f'{ln}: constant not {n.value}', variant(lambda m: setattr(m, 'value', not m.value))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield f'{ln}: +/- {ast.unparse(n)}', variant(lambda m: setattr(m, 'op', ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            yield f'{ln}: swap args {ast.unparse(n)}', variant(lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
        if hasattr(n, 'body') and isinstance(n.body, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
            for fld in ('body', 'orelse'):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.If, ast.For, ast.Raise, ast.Break, ast.Continue)) and not \
                            (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def rm(m):
                            bb = getattr(m, fld)
                            bb[j] = ast.Pass()
                        yield f'{s.lineno}: delete {ast.unparse(s)[:70]!r}', variant(rm)


# ---------------------------------------------------------------- behaviour-preserving
class Names(ast.NodeVisitor):
    pass


def local_names(fn):
    out = set()
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    gl = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            gl |= set(n.names)
    lam = {a.arg for n in ast.walk(fn) if isinstance(n, ast.Lambda) for a in n.args.args}
    return out - params - gl - lam


def terminal(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def refactorings(tree):
    nodes = list(ast.walk(tree))
    parents = {}
    for p in nodes:
        for c in ast.iter_child_nodes(p):
            parents[id(c)] = p

    def infunc(n):
        while id(n) in parents:
            n = parents[id(n)]
            if isinstance(n, ast.FunctionDef):
                return n
        return None
    for i, n in enumerate(nodes):
        def variant(f):
            t = copy.deepcopy(tree)
            ns = list(ast.walk(t))
            f(ns[i], ns)
            return ast.fix_missing_locations(t)
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.FunctionDef):
            def ren(m, ns):
                loc = local_names(m)
                for x in ast.walk(m):
                    if isinstance(x, ast.Name) and x.id in loc:
                        x.id = 'z_' + x.id
            yield f'{ln}: rename locals of {n.name}', variant(ren)
            # body extracted into a private helper
            if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) and not n.decorator_list and \
                    isinstance(parents.get(id(n)), ast.ClassDef) and n.name != '__init__' and \
                    'super()' not in ast.unparse(n) and n.args.vararg is None:
                def ext(m, ns):
                    cls = [c for c in ns if isinstance(c, ast.ClassDef) and m in c.body][0]
                    h = copy.deepcopy(m)
                    h.name = '_impl_of_' + m.name.strip('_')
                    h.args.defaults = []
                    args = [a.arg for a in m.args.args]
                    call = ast.Call(ast.Attribute(ast.Name(args[0], ast.Load()), h.name, ast.Load()),
                                    [ast.Name(a, ast.Load()) for a in args[1:]],
                                    [ast.keyword(None, ast.Name(m.args.kwarg.arg, ast.Load()))] if m.args.kwarg else [])
                    m.body = [ast.Return(call)]
                    cls.body.append(h)
                yield f'{ln}: extract body of {n.name}', variant(ext)
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            def inv(m, ns):
                m.test = ast.UnaryOp(ast.Not(), m.test)
                m.body, m.orelse = m.orelse, m.body
            yield f'{ln}: invert if {ast.unparse(n.test)}', variant(inv)
        if isinstance(n, ast.If) and n.orelse and terminal(n.body):
            def unelse(m, ns):
                for p in ns:
                    for fld in ('body', 'orelse', 'finalbody'):
                        b = getattr(p, fld, None)
                        if isinstance(b, list) and m in b:
                            k = b.index(m)
                            b[k + 1:k + 1] = m.orelse
                            m.orelse = []
                            return
            yield f'{ln}: drop else after return', variant(unelse)
        if isinstance(n, ast.If) and not n.orelse:
            f = infunc(n)
            p = parents.get(id(n))
            if f is not None and isinstance(p, ast.FunctionDef) and p.body[-1] is n and not any(isinstance(x, (ast.Yield,)) for x in ast.walk(f)):
                def guard(m, ns):
                    for p in ns:
                        if isinstance(p, ast.FunctionDef) and m in p.body:
                            p.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), m.test), [ast.Return(None)], [])] + m.body
                            return
                yield f'{ln}: guard clause return for {ast.unparse(n.test)}', variant(guard)
            if isinstance(p, ast.For) and p.body and p.body[-1] is n:
                def guardc(m, ns):
                    for p in ns:
                        if isinstance(p, ast.For) and m in p.body:
                            p.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), m.test), [ast.Continue()], [])] + m.body
                            return
                yield f'{ln}: guard clause continue for {ast.unparse(n.test)}', variant(guardc)
            def tmpc(m, ns):
                for p in ns:
                    for fld in ('body', 'orelse', 'finalbody'):
                        b = getattr(p, fld, None)
                        if isinstance(b, list) and m in b:
                            k = b.index(m)
                            b.insert(k, ast.Assign([ast.Name('cond_tmp', ast.Store())], m.test))
                            m.test = ast.Name('cond_tmp', ast.Load())
                            return
            yield f'{ln}: condition in a variable {ast.unparse(n.test)}', variant(tmpc)
        if isinstance(n, ast.BoolOp):
            def dm(m, ns):
                new = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(m.op, ast.And) else ast.And(),
                                                        [ast.UnaryOp(ast.Not(), v) for v in m.values]))
                replace_node(ns, m, new)
            if boolctx(n, parents):
                yield f'{ln}: de morgan {ast.unparse(n)}', variant(dm)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            def flip(m, ns):
                fl = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
                m.left, m.comparators[0] = m.comparators[0], m.left
                m.ops[0] = fl[type(m.ops[0])]()
            yield f'{ln}: flip {ast.unparse(n)}', variant(flip)
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            def aug(m, ns):
                lhs = copy.deepcopy(m.target)
                new = ast.Assign([m.target], ast.BinOp(_load(lhs), m.op, m.value))
                replace_stmt(ns, m, [new])
            if not isinstance(n.value, (ast.List, ast.ListComp)):
                yield f'{ln}: expand {ast.unparse(n)}', variant(aug)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            def ifx(m, ns):
                v = m.value
                replace_stmt(ns, m, [ast.If(v.test, [ast.Assign([m.targets[0]], v.body)], [ast.Assign([copy.deepcopy(m.targets[0])], v.orelse)])])
            yield f'{ln}: ternary to if {ast.unparse(n)}', variant(ifx)
        if isinstance(n, ast.Return) and isinstance(n.value, ast.IfExp):
            def ifr(m, ns):
                v = m.value
                replace_stmt(ns, m, [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)])
            yield f'{ln}: ternary return to if {ast.unparse(n)}', variant(ifr)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.ListComp) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)) \
                and len(n.value.generators) == 1 and infunc(n) is not None:
            def lc(m, ns):
                g = m.value.generators[0]
                tmp = ast.Name('acc_tmp', ast.Load())
                body = [ast.Expr(ast.Call(ast.Attribute(tmp, 'append', ast.Load()), [m.value.elt], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                replace_stmt(ns, m, [ast.Assign([ast.Name('acc_tmp', ast.Store())], ast.List([], ast.Load())),
                                     ast.For(g.target, g.iter, body, []),
                                     ast.Assign([m.targets[0]], tmp)])
            yield f'{ln}: comprehension to loop {ast.unparse(n)[:60]}', variant(lc)
        if isinstance(n, ast.For) and infunc(n) is not None:
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and \
                    isinstance(n.target, ast.Tuple) and isinstance(n.iter.args[0], (ast.Name, ast.Attribute)) and len(n.iter.args) == 1:
                def en(m, ns):
                    seq = m.iter.args[0]
                    i_, x_ = m.target.elts
                    m.target = i_
                    m.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [seq], [])], [])
                    m.body.insert(0, ast.Assign([x_], ast.Subscript(copy.deepcopy(seq), _load(i_), ast.Load())))
                yield f'{ln}: enumerate to range {ast.unparse(n.iter)}', variant(en)
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'items' and isinstance(n.target, ast.Tuple):
                def it(m, ns):
                    d = m.iter.func.value
                    k, v = m.target.elts
                    m.iter = d
                    m.target = k
                    m.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), _load(k), ast.Load())))
                yield f'{ln}: items to keys {ast.unparse(n.iter)}', variant(it)
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'values':
                def va(m, ns):
                    m.iter.func.attr = 'items'
                    m.target = ast.Tuple([ast.Name('_k', ast.Store()), m.target], ast.Store())
                yield f'{ln}: values to items {ast.unparse(n.iter)}', variant(va)

            def itv(m, ns):
                replace_stmt(ns, m, [ast.Assign([ast.Name('seq_tmp', ast.Store())], m.iter), m])
                m.iter = ast.Name('seq_tmp', ast.Load())
            yield f'{ln}: iterable in a variable {ast.unparse(n.iter)}', variant(itv)
            if isinstance(n.target, ast.Tuple):
                def unp(m, ns):
                    t = m.target
                    m.target = ast.Name('item_tmp', ast.Store())
                    m.body.insert(0, ast.Assign([t], ast.Name('item_tmp', ast.Load())))
                yield f'{ln}: unpack in the body {ast.unparse(n.target)}', variant(unp)
            if isinstance(n.iter, (ast.Name, ast.Attribute)) and not n.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
                def wl(m, ns):
                    seq = copy.deepcopy(m.iter)
                    replace_stmt(ns, m, [
                        ast.Assign([ast.Name('i_tmp', ast.Store())], ast.Constant(0)),
                        ast.While(ast.Compare(ast.Name('i_tmp', ast.Load()), [ast.Lt()], [ast.Call(ast.Name('len', ast.Load()), [seq], [])]),
                                  [ast.Assign([m.target], ast.Subscript(copy.deepcopy(seq), ast.Name('i_tmp', ast.Load()), ast.Load())),
                                   ast.AugAssign(ast.Name('i_tmp', ast.Store()), ast.Add(), ast.Constant(1))] + m.body, [])])
                yield f'{ln}: for to while {ast.unparse(n.iter)}', variant(wl)

                def il(m, ns):
                    seq = copy.deepcopy(m.iter)
                    m.body.insert(0, ast.Assign([m.target], ast.Subscript(copy.deepcopy(seq), ast.Name('i_tmp', ast.Load()), ast.Load())))
                    m.target = ast.Name('i_tmp', ast.Store())
                    m.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [seq], [])], [])
                yield f'{ln}: for to index loop {ast.unparse(n.iter)}', variant(il)
        # hoist an argument of a call into a variable
        if isinstance(n, (ast.Expr, ast.Assign)) and isinstance(n.value, ast.Call) and infunc(n) is not None:
            for j, a in enumerate(n.value.args):
                if isinstance(a, (ast.Call, ast.Attribute, ast.BinOp, ast.Subscript, ast.Tuple, ast.List)):
                    def ho(m, ns):
                        a = m.value.args[j]
                        replace_stmt(ns, m, [ast.Assign([ast.Name('arg_tmp', ast.Store())], a), m])
                        m.value.args[j] = ast.Name('arg_tmp', ast.Load())
                    if j == 0:
                        yield f'{ln}: hoist {ast.unparse(a)[:50]}', variant(ho)
            if isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Attribute):
                def hr(m, ns):
                    replace_stmt(ns, m, [ast.Assign([ast.Name('recv_tmp', ast.Store())], m.value.func.value), m])
                    m.value.func.value = ast.Name('recv_tmp', ast.Load())
                yield f'{ln}: receiver in a variable {ast.unparse(n.value.func)}', variant(hr)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            def rv(m, ns):
                replace_stmt(ns, m, [ast.Assign([ast.Name('ret_tmp', ast.Store())], m.value), m])
                m.value = ast.Name('ret_tmp', ast.Load())
            yield f'{ln}: result in a variable {ast.unparse(n.value)[:50]}', variant(rv)
        # blocks into helper methods
        if isinstance(n, (ast.For, ast.If, ast.With)) and infunc(n) is not None and not any(isinstance(x, (ast.Return, ast.Yield, ast.Break, ast.Continue)) for x in ast.walk(n)):
            f = infunc(n)
            cl = parents.get(id(f))
            if isinstance(cl, ast.ClassDef) and 'self' in [a.arg for a in f.args.args] and 'super()' not in ast.unparse(n):
                st = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                ld_all = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                ld = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                outside = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and not within(x, n)}
                if not (st & outside):
                    fl = local_names(f) | {a.arg for a in f.args.args} | ({f.args.kwarg.arg} if f.args.kwarg else set()) | \
                        ({f.args.vararg.arg} if f.args.vararg else set())
                    need = sorted((ld & fl) - {'self'} - (st - outside_defs(f, n)))

                    if set(need) & st:
                        continue        # the block changes a variable the next iteration reads

                    def hm(m, ns):
                        cls = [c for c in ns if isinstance(c, ast.ClassDef) and any(m2 is m for b in c.body for m2 in ast.walk(b))][0]
                        h = ast.FunctionDef('_helper_tmp', ast.arguments([], [ast.arg('self')] + [ast.arg(a) for a in need], None, [], [], None, []),
                                            [m], [])
                        replace_stmt(ns, m, [ast.Expr(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), '_helper_tmp', ast.Load()),
                                                               [ast.Name(a, ast.Load()) for a in need], []))])
                        cls.body.append(h)
                    yield f'{ln}: helper for {ast.unparse(n)[:50]!r}', variant(hm)
        # adjacent independent statements
        if isinstance(n, (ast.FunctionDef, ast.For, ast.If)):
            for j in range(len(n.body) - 1):
                a, b = n.body[j], n.body[j + 1]
                if simple_assign(a) and simple_assign(b) and independent(a, b):
                    def sw(m, ns):
                        m.body[j], m.body[j + 1] = m.body[j + 1], m.body[j]
                    yield f'{a.lineno}: swap {ast.unparse(a)[:40]!r} and {ast.unparse(b)[:40]!r}', variant(sw)


def within(x, n):
    return any(y is x for y in ast.walk(n))


def outside_defs(f, n):
    return {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not within(x, n)} | {a.arg for a in f.args.args}


def simple_assign(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and \
        not any(isinstance(x, (ast.Call,)) for x in ast.walk(s.value)) and \
        not any(isinstance(x, ast.Subscript) for x in ast.walk(s.value))


def independent(a, b):
    ta, tb = ast.unparse(a.targets[0]), ast.unparse(b.targets[0])
    return ta != tb and ta not in ast.unparse(b.value) and tb not in ast.unparse(a.value)


def _load(t):
    return ast.parse(ast.unparse(t), mode='eval').body


def boolctx(n, parents):
    p = parents.get(id(n))
    while isinstance(p, (ast.BoolOp, ast.UnaryOp)):
        n, p = p, parents.get(id(p))
    return isinstance(p, (ast.If, ast.While)) and p.test is n or isinstance(p, ast.IfExp) and p.test is n


def replace_node(ns, old, new):
    for p in ns:
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
                return
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if x is old:
                        v[k] = new
                        return


def replace_stmt(ns, old, new):
    for p in ns:
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(p, f, None)
            if isinstance(b, list) and any(x is old for x in b):
                k = [x is old for x in b].index(True)
                b[k:k + 1] = new
                return


def main():
    kind, mod = sys.argv[1], sys.argv[2]
    spec, code = X.load()
    path = os.path.join(os.path.dirname(X.SPECS), 'specs_cpp', 'native.py') if mod == 'native' else os.path.join(X.CODE, mod + '.py')
    src = open(path).read()
    tree = strip_doc(ast.parse(src))
    tree = ast.parse(ast.unparse(tree))
    gen = list(bugs(tree) if kind == 'bug' else refactorings(tree))
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    if n and len(gen) > n:
        random.seed(1)
        gen = random.sample(gen, n)
    cnt = dict(total=0, reported=0, undecided=0, quiet=0)
    import multiprocessing as mp
    with mp.Pool(int(os.environ.get('JOBS', '7'))) as pool:
        for d, st, msg, dt in pool.imap(one, [(kind, mod, d, ast.unparse(t)) for d, t in gen], chunksize=2):
            cnt['total'] += 1
            cnt[st] += 1
            if dt > 30:
                print('SLOW %.0f' % dt, d)
            if kind == 'bug' and st != 'reported' or kind == 'ref' and st != 'quiet':
                print(st, '|', d, '|', msg, flush=True)
    print(mod, kind, cnt)


_g = []


def one(a):
    kind, mod, d, src = a
    if not _g:
        if mod == 'native':
            import cppcheck as K
            _g.extend([K.load_spec()[0], None])
        else:
            _g.extend(X.load())
    t0 = time.time()
    try:
        fs, und = analyse(mod, src, *_g)
    except X.MissingAnchor as x:
        fs, und = [], ['missing ' + str(x)]
    st = 'reported' if fs else 'undecided' if und else 'quiet'
    return d, st, (fs[0].ident()[:500] if fs else und[0][:200] if und else ''), time.time() - t0


main()
