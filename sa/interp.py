"""Abstract evaluation of one function into a guarded effect summary.

The function is walked once, syntax-directed; every value is a normalised term (value numbering),
every effect an Event with the loops it is in and the condition under which it happens.  Branches
are merged, loops are summarised by one abstract iteration, private helpers are analysed in place.
Nothing is executed and no paths are enumerated.
"""
import ast
from terms import *
import terms as _t
from program import Func, Class, Module
import config as C

SELF = mk('self')
NO_KW = mk('kw', '**', mk('dict'))


class Unsupported(Exception):
    pass


class Event:
    __slots__ = ('kind', 'head', 'args', 'frames', 'guard', 'loc', 'chain', 'order', 'res', 'tags', 'parts')

    def __init__(self, kind, head, args, frames, guard, loc, chain, order, res):
        self.kind, self.head, self.args = kind, head, tuple(args)
        self.frames, self.guard = tuple(frames), guard
        self.loc, self.chain, self.order, self.res = loc, chain, order, res
        self.tags = self.parts = None

    def key(self):
        return (self.kind, self.head, self.args, self.frames)

    def copy(self, **kw):
        e = Event(self.kind, self.head, self.args, self.frames, self.guard, self.loc, self.chain, self.order, self.res)
        e.tags, e.parts = self.tags, self.parts
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def text(self):
        k = self.kind
        if k == 'store':
            s = f'{show(self.head)} = {show(self.args[0])}'
        elif k == 'del':
            s = f'del {show(self.head)}'
        elif k == 'ret':
            s = f'return {show(self.args[0])}'
        elif k == 'raise':
            s = f'raise {show(self.head)}'
        elif k == 'reset':
            s = f'{show(self.head)} emptied ({show(self.args[0])})'
        elif k == 'break':
            s = 'leave the loop'
        else:
            s = f'{show(self.head)}({", ".join(show(a) for a in self.args)})'
        f = ''.join(f' for each {show(x.args[0])}' if x.op == 'frame' else ' while …' for x in self.frames)
        g = '' if self.guard is BT else f' when {show(self.guard)}'
        return s + f + g


EDGE_MAPS = {'new_edges', 'ghosted_edges', 'edges_to_remove', 'edges_to_update', 'canonical_edge_keys'}


RESIZING = {'append', 'add', 'insert', 'extend', 'remove', 'discard', 'pop', 'popitem', 'popleft', 'clear', 'update', 'setdefault',
            'add_edge', 'add_node', 'add_edges_from', 'add_nodes_from', 'remove_edge', 'remove_node', 'remove_edges_from', 'remove_nodes_from'}


def arity(t):
    """How many parts an element of a known kind of collection has."""
    if t.op != 'elem':
        return None
    return elem_arity(t.args[0])


def elem_arity(c):
    if c.op == 'listof' or c.op == 'vers':
        return elem_arity(c.args[0])
    if c.op == 'mcall' and c.args[1] in ('edges', 'in_edges', 'out_edges'):
        for a in c.args[2:]:
            if isinstance(a, T) and a.op == 'kw' and a.args[0] == 'data':
                return 3 if a.args[1] is TRUE_C else 2 if a.args[1] is FALSE_C else None
        return 2
    if c.op == 'attr' and c.args[1] == 'edges' or c.op == 'attr' and c.args[1] in EDGE_MAPS:
        return 2
    if c.op == 'mcall' and c.args[1] == 'items':
        return 2
    if c.op == 'mcall' and c.args[1] == 'keys':
        return elem_arity(c.args[0])
    if c.op == 'call' and c.args[0].op == 'glob' and c.args[0].args[0] == 'itertools.chain':
        n = {elem_arity(a) for a in c.args[1:] if isinstance(a, T)}
        return n.pop() if len(n) == 1 else None
    return None


SEQ_ARG0 = {'numpy.concatenate', 'numpy.stack', 'numpy.hstack', 'numpy.vstack', 'torch.cat', 'torch.stack', 'numpy.array', 'numpy.asarray'}
COMM_SIGS = {
    'gather': ('sendobj', ('root', 0)), 'bcast': ('obj', ('root', 0)), 'scatter': ('sendobj', ('root', 0)),
    'reduce': ('sendobj', ('op', None), ('root', 0)), 'allreduce': ('sendobj', ('op', None)), 'allgather': ('sendobj',),
    'alltoall': ('sendobj',), 'Reduce': ('sendbuf', 'recvbuf', ('op', None), ('root', 0)),
    'Allreduce': ('sendbuf', 'recvbuf', ('op', None)), 'Gather': ('sendbuf', 'recvbuf', ('root', 0)), 'Bcast': ('buf', ('root', 0)),
    'Alltoall': ('sendbuf', 'recvbuf'), 'Alltoallv': ('sendbuf', 'recvbuf'), 'Allgather': ('sendbuf', 'recvbuf'),
}


def comm_signature(name, ra):
    """Arguments of a collective in the order of its signature, with the defaults."""
    sig = COMM_SIGS.get(name)
    if sig is None or any(a.op == 'star' for a in ra):
        return ra
    names = [x if isinstance(x, str) else x[0] for x in sig]
    pos = [a for a in ra if a.op != 'kw']
    kw = {a.args[0]: a.args[1] for a in ra if a.op == 'kw'}
    if len(pos) > len(names) or any(k not in names[len(pos):] for k in kw):
        return ra
    out = list(pos)
    for x in sig[len(pos):]:
        nm = x if isinstance(x, str) else x[0]
        if nm in kw:
            out.append(kw[nm])
        elif isinstance(x, str):
            return ra
        else:
            out.append(const(x[1]) if x[1] is not None else mk('glob', 'mpi4py.MPI.SUM'))
    return out


class Obj:
    __slots__ = ('id', 'kind', 'init', 'evs', 'frames', 'guard', 'escaped', 'cls', 'fields')

    def __init__(self, id, kind, init, frames, guard, cls=None):
        self.id, self.kind, self.init, self.evs = id, kind, init, []
        self.frames, self.guard, self.escaped, self.cls = tuple(frames), guard, None, cls
        self.fields = []


class Act:
    """Activation of an inlined function."""

    def __init__(self, func, cls, selfterm):
        self.func, self.cls, self.selfterm = func, cls, selfterm
        self.returns = []    # (guard, value)
        self.loopdepth = 0
        self.globals = set()
        self.nonlocals = set()
        self.gone = []       # what branches that returned early have done
        self.reads = {}      # one-shot iterators: assignment -> {read: guard}


class LoopCtx:
    def __init__(self):
        self.brk = []        # (guard, env, heap)
        self.cont = []
        self.rets = []       # (guard, value)
        self.raised = BF
        self.explicit = False


def is_literal_key(t):
    return is_constant(t)


def str_params(func):
    """Positions of the parameters declared to be texts."""
    a = func.node.args
    ps = a.posonlyargs + a.args
    if func.cls is not None and not func.is_static:
        ps = ps[1:]
    return {i for i, x in enumerate(ps) if x.annotation is not None and ast.unparse(x.annotation) == 'str'}


def beta(f, args):
    """The substitution of arguments for the parameters of a lambda term. A function value captured in its body may
    number its own parameters alike (it was written at the same depth): those are bound there, and stay."""
    level = f.args[1]
    m = {mk('lparam', level, i): a for i, a in enumerate(args)}
    memo, seen = {}, set()
    todo = [x for x in f.args[2:]]
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op == 'lambda' and t.args[1] == level:
            memo[t] = t
        else:
            todo.extend(t.args)
    return lambda t: subst(t, m, memo)


class Interp:
    def __init__(self, program, opaque=(), volatile=(), spec=False, maxdepth=10, transparent=()):
        self.p = program
        self.transparent = set(transparent)
        self.str_params = set()
        self.opaque = set(opaque)
        self.volatile = set(C.VOLATILE) | set(volatile)
        self.maxdepth = maxdepth
        self.reset()
        self.unsupported = []
        self.vocab = set()

    def reset(self):
        self.env, self.heap, self.g = {}, {}, BT
        self.frames, self.events, self.objs = [], [], {}
        self.muts, self.counts = {}, {}
        self.acts, self.loops = [], []
        self.loopobjs = []
        self.order = 0
        self.nid = 0
        self.nmu = 0
        self.tries = {}
        self.intry = 0
        self.nwhile = 0
        self.lamdepth = 0
        self.curnode = None
        self.depth_inline = 0
        self.dry = 0
        self.ticks = 0

    # ---------------------------------------------------------------- roots
    def run(self, func, cls=None, nparams=None):
        """Summary of a root function; returns (events, unsupported constructs)."""
        self.reset()
        self.unsupported = []
        act = Act(func, cls or func.cls, SELF)
        self.acts.append(act)
        a = func.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if func.cls is not None and not func.is_static and params:
            self.env[params[0]] = SELF
            params = params[1:]
        defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        STR_TERMS[:] = [mk('param', i) for i in sorted(self.str_params | str_params(func))]
        for i, pn in enumerate(params):
            if nparams is not None and i >= nparams and pn in defaults:
                self.env[pn] = self.ev(defaults[pn])
            else:
                self.env[pn] = mk('param', i)
        for i, x in enumerate(a.kwonlyargs):
            d = a.kw_defaults[i]
            self.env[x.arg] = mk('param', 'kw:' + x.arg) if d is None or nparams is None else self.ev(d)
        if a.vararg:
            self.env[a.vararg.arg] = mk('param', '*')
        if a.kwarg:
            self.env[a.kwarg.arg] = mk('param', '**')
            if _edits_keys(func.node, a.kwarg.arg):
                self.env[a.kwarg.arg] = self.alloc('dict', mk('param', '**'))
        self.block(func.node.body)
        rets = act.returns
        alive = self.g
        val = NONE
        for g, v in reversed(rets):
            val = ite(g, v, val)
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_own(func.node))
        if not is_gen and (rets and any(v is not NONE for _, v in rets)):
            self.g = bor(alive, *[g for g, _ in rets])
            self.emit('ret', mk('ret'), [val], node=func.node)
        return self.events

    # ---------------------------------------------------------------- events
    def loc(self, node):
        f = self.acts[-1].func if self.acts else None
        return (f.file if f else '?', getattr(node, 'lineno', 0))

    def emit(self, kind, head, args, node=None, res=None, guard=None, wver=None):
        self.order += 1
        if self.g is BF and guard is None:
            return None
        node = node or self.curnode
        head = self.render(head) if isinstance(head, T) else head
        args = [self.render(a) for a in args]
        if res is None:
            res = {self.resource(head)} if isinstance(head, T) else set()
        e = Event(kind, head, args, self.frames, self.g if guard is None else guard, self.loc(node),
                  tuple(a.func for a in self.acts), self.order, res)
        self.events.append(e)
        return e

    def note_mut(self, res, digest_term):
        for r in res:
            if r:
                d = self.muts.get(r)
                if d is None:
                    d = self.muts[r] = {}
                d[digest_term] = True

    def ver(self, res):
        s = set()
        for r in ([res] if isinstance(res, str) else res):
            s.update(self.muts.get(r, ()))
        return mk('ver', *sorted(s, key=lambda t: t.dig)) if s else mk('ver')

    def slot_ver(self, b):
        """Version of the slots of b: changes inside one of its elements leave them alone."""
        v = self.ver(self.resource(b))
        if not v.args:
            return v
        sb = strip_ver(self.render(b))
        keep = [m for m in v.args if not (m.op == 'm' and len(m.args) > 1 and isinstance(m.args[1], T) and
                                    (through(m.args[1], sb) or m.args[0] == 'Alltoallv' and sibling(m.args[1], sb))
                                    and not (m.args[0] in ('store', 'clear') and len(m.args) == 2))]
        return v if len(keep) == len(v.args) else mk('ver', *keep)

    def resource(self, t):
        deep = 0
        while True:
            op = t.op
            if op in ('idx', 'elem', 'slice_'):
                deep += 1
            elif op == 'mcall' and t.args[1] == 'copy' and len(t.args) > 1 and isinstance(t.args[0], T) and deep < 2:
                return 'copy of ' + self.resource(t.args[0])    # the slots of a copy are its own
            if op == 'attr':
                return t.args[1]
            if op in ('idx', 'elem', 'index', 'mcall', 'key', 'slice_', 'listof'):
                t = t.args[0]
                if op == 'mcall' and not isinstance(t, T):
                    return str(t)
                continue
            if op == 'obj':
                o = self.objs[t.args[0]]
                if o.escaped is not None:
                    t = o.escaped
                    continue
                return ''
            if op == 'self':
                return 'self'
            if op == 'param':
                return f'arg{t.args[0]}'
            if op == 'glob':
                return t.args[0]
            if op == 'ite':
                t = t.args[1] if t.args[1] is not NONE else t.args[2]
                continue
            if op == 'res':
                return 'res:' + (t.args[0] if isinstance(t.args[0], str) else t.args[0].op)
            if op == 'meth':
                t = t.args[0]
                continue
            if op == 'call':
                return 'call:' + show(t.args[0])
            if op in ('build', 'list', 'dict', 'set', 'const', 'tuple', 'new'):
                return ''
            return op

    # ---------------------------------------------------------------- objects
    def alloc(self, kind, init, cls=None):
        self.nid += 1
        self.objs[self.nid] = Obj(self.nid, kind, init, tuple(self.frames), self.g, cls)
        return mk('obj', self.nid)

    def obj_of(self, t):
        """Local object a path is rooted in, or None."""
        while t.op in ('idx', 'attr', 'slice_'):
            t = t.args[0]
        if t.op == 'obj':
            o = self.objs.get(t.args[0])
            if o is not None and o.escaped is None:
                return o
        return None

    def render(self, t, memo=None):
        """Replace references to local objects by what they hold now."""
        if memo is None:
            memo = {}
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'obj':
            o = self.objs.get(t.args[0])
            if o is None:
                return mk('gone')
            memo[t] = mk('rec')   # cycles
            r = self.render_obj(o, t, memo)
        elif not any(isinstance(a, T) for a in t.args):
            r = t
        elif t.op in ('bdd', 'lambda'):
            na = [self.render(a, memo) if isinstance(a, T) else a for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
        else:
            na = [self.render(a, memo) if isinstance(a, T) else a for a in t.args]
            r = rebuild(t, na)
        memo[t] = r
        return r

    def changing(self, o):
        return any(o.id in lo for lo in self.loopobjs)

    def render_obj(self, o, ref, memo):
        if o.escaped is not None:
            return self.render(o.escaped, memo)
        if o.kind in ('record', 'inst') and o.fields:
            vals = []
            for f in o.fields:
                p = mk('attr', ref, f)
                v = self.heap.get(p)
                vals.append(self.render(v, memo) if v is not None else mk('unset'))
            base = mk('new', o.cls, *[x for f, v in sorted(zip(o.fields, vals), key=lambda q: q[0]) for x in (f, v)])
            if not o.evs and not self.changing(o):
                return base
            init = base
        else:
            init = self.render(o.init, memo)
        if not o.evs and not self.changing(o):
            return init
        nf = len(o.frames)
        evs = []
        me = mk('rec')
        src = o.evs
        for lo in self.loopobjs:
            if o.id in lo:
                # changed by the loop being in: what any iteration has done may be there
                n, dry = lo[o.id]
                src = o.evs[:n] + dry
                break
        for (op, path, args, frames, guard, order, loc) in src:
            p = subst(path, {ref: me}) if path is not ref else me
            p = self.render(p, memo)
            a = [self.render(x, memo) if isinstance(x, T) else x for x in args]
            fr = frames[nf:] if frames[:nf] == o.frames else frames
            g = bcanon(bconstrain(guard, o.guard)) if o.guard is not BT else bcanon(guard)
            if g is not BT and o.kind == 'dict' and o.init.op == 'param' and bsat(band(g, self.g)):
                # the rest of the call's keywords, where it is used
                g = bcanon(bconstrain(g, self.g))
            elif g is not BT and o.kind == 'dict' and o.init.op == 'param':
                continue
            if contains(g, lambda t: t.op == 'obj'):
                g = bcanon(self.render(g, memo))
            evs.append((op, p, a, fr, g, order))
        return norm_build(o.kind, init, evs, self)

    def mutate(self, target, op, args, node=None):
        """In-place change of a container, local or not."""
        if target.op == 'ite':
            g0 = self.g
            for v, x in ((target.args[0], target.args[1]), (bnot(target.args[0]), target.args[2])):
                self.g = band(g0, v)
                if bsat(self.g):
                    self.mutate(x, op, args, node)
            self.g = g0
            return
        o = self.obj_of(target)
        if o is not None:
            self.order += 1
            if self.g is not BF:
                o.evs.append((op, target, tuple(args), tuple(self.frames), self.g, self.order, self.loc(node or self.curnode)))
            return
        r = self.resource(target)
        ra = [self.render(a) for a in args]
        if op == 'remove' and len(ra) == 1:
            c = batom(mk('in', ra[0], self.render(target), self.slot_ver(target)))
            if not bsat(band(self.g, bnot(c))):
                # taken out if it is there
                g0 = self.g
                self.g = bcanon(bconstrain(g0, c))
                self.mutate(target, 'discard', args, node)
                self.g = g0
                return
        if op == 'setitem':
            e = self.emit('store', mk('idx', target, ra[0]), [ra[1]], node, {r})
            self.note_mut({r}, mk('m', 'store', strip_ver(self.render(target)), strip_ver(ra[0])))
        elif op == 'delitem':
            e = self.emit('del', mk('idx', target, ra[0]), [], node, {r})
            self.note_mut({r}, mk('m', 'del', strip_ver(self.render(target)), strip_ver(ra[0])))
        elif op == 'clear':
            e = self.emit('reset', target, [mk('empty')], node, {r})
            self.note_mut({r}, mk('m', 'clear', strip_ver(self.render(target))))
        else:
            e = self.emit('mut', mk('meth', target, op), ra, node, {r} | C.EFFECTS.get(op, set()))
            self.note_mut({r}, mk('m', op, strip_ver(self.render(target)), *[strip_ver(a) for a in ra]))
        self.drop_idx(target)

    def drop_idx(self, target, keep=None):
        for k in [k for k in self.heap if k.op == 'idx' and k.args[0] is target and k is not keep]:
            if keep is not None and is_constant(k.args[1]) and is_constant(keep.args[1]):
                continue
            del self.heap[k]

    # ---------------------------------------------------------------- statements
    def block(self, body):
        for st in body:
            if self.g is BF:
                return
            self.stmt(st)

    def stmt(self, st):
        self.ticks += 1
        if self.ticks > 400000:
            raise Unsupported('function too large')
        self.curnode = st
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            self.unsup(st)
            return
        m(st)

    def unsup(self, node):
        self.unsupported.append((type(node).__name__, self.loc(node)))

    def st_Pass(self, st):
        pass

    def st_Import(self, st):
        pass

    st_ImportFrom = st_Import

    def st_Global(self, st):
        self.acts[-1].globals.update(st.names)

    def st_Nonlocal(self, st):
        pass

    def st_Assert(self, st):
        pass

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.ev(st.value)
            return
        self.ev(st.value, stmt=True)

    def st_Assign(self, st):
        v = self.unpacked_comp(st)
        if v is None:
            v = self.ev(st.value)
        if len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and v.op == 'mcall' and v.args[1:] == ('copy',) and \
                isinstance(st.value, ast.Call) and _edits_keys(self.acts[-1].func.node, st.targets[0].id):
            v = self.alloc('dict', mk('dictof', v.args[0]))
        for t in st.targets:
            self.assign(t, v)

    def unpacked_comp(self, st):
        """a, b = (f(x) for x in X): f of the first elements of X."""
        n = st.value
        if len(st.targets) != 1 or not isinstance(st.targets[0], (ast.Tuple, ast.List)) or not isinstance(n, (ast.GeneratorExp, ast.ListComp)):
            return None
        k = len(st.targets[0].elts)
        if len(n.generators) != 1 or n.generators[0].ifs or k > 4 or any(isinstance(e, ast.Starred) for e in st.targets[0].elts):
            return None
        src = self.ev(n.generators[0].iter)
        if src.op == 'obj' and self.deref(src) is src or src.op in ('mcall', 'zip_', 'enum_', 'range_', 'map_', 'filter_', 'ite') and \
                not (src.op == 'mcall' and src.args[1] == 'split'):
            return None
        g = n.generators[0]
        env0, out = dict(self.env), []
        for i in range(k):
            self.assign(g.target, self.index(src, const(i)))
            out.append(self.ev(n.elt))
        for x in list(self.env):
            if x not in env0:
                del self.env[x]
            elif any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(g.target)):
                self.env[x] = env0[x]
        return mk('tuple', *out)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def st_AugAssign(self, st):
        t = st.target
        op = st.op
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
        else:
            cur = self.ev(_load(t))
        rhs = self.ev(st.value)
        if isinstance(op, ast.Add):
            o = cur if cur.op == 'obj' else None
            if o is not None and self.objs[cur.args[0]].kind == 'list' or is_listlike(cur) and cur.op != 'tuple' and not is_num(rhs):
                self.extend(cur, rhs)
                return
            if is_listlike(rhs) and rhs.op != 'tuple':
                self.extend(cur, rhs)
                return
        self.assign(t, self.binop(op, cur, rhs))

    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else NONE
        self.do_return(self.render_keep(v))

    def render_keep(self, v):
        return v

    def do_return(self, v):
        act = self.acts[-1]
        if self.loops and self.loops[-1][0] is act:
            self.loops[-1][1].rets.append((self.g, v, dict(self.env), dict(self.heap)))
        else:
            act.returns.append((self.g, v))
        self.g = BF

    def st_Raise(self, st):
        exc = NONE
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call):
                e = e.func
            exc = self.ev_callee_name(e)
        else:
            exc = mk('glob', 'reraise')
        self.emit('raise', exc, [], st, {'raise'})
        if self.loops:
            self.loops[-1][1].raised = bor(self.loops[-1][1].raised, self.g)
        self.dead = True
        self.g = BF

    def ev_callee_name(self, e):
        if isinstance(e, ast.Name) and e.id in self.env:
            return self.env[e.id]
        return mk('glob', ast.unparse(e))

    def st_If(self, st):
        c = self.cond(st.test)
        self.branch(c, lambda: self.block(st.body), lambda: self.block(st.orelse))

    def branch(self, c, f, h):
        g0 = self.g
        env0, heap0, cnt0 = self.env, self.heap, self.counts
        muts0 = self.muts
        if c is BT or band(g0, bnot(c)) is BF:
            self.g = band(g0, c)
            f()
            return
        if c is BF or band(g0, c) is BF:
            self.g = band(g0, bnot(c))
            h()
            return
        self.env, self.heap, self.counts = dict(env0), dict(heap0), dict(cnt0)
        self.muts = {k: dict(v) for k, v in muts0.items()}
        self.g = band(g0, c)
        f()
        g1, env1, heap1, cnt1, muts1 = self.g, self.env, self.heap, self.counts, self.muts
        self.env, self.heap, self.counts = dict(env0), dict(heap0), dict(cnt0)
        self.muts = {k: dict(v) for k, v in muts0.items()}
        self.g = band(g0, bnot(c))
        h()
        g2, env2, heap2, cnt2, muts2 = self.g, self.env, self.heap, self.counts, self.muts
        self.env, self.heap = self.merge2(c, g1, env1, heap1, g2, env2, heap2)
        self.g = bor(g1, g2)
        if (g1 is BF) != (g2 is BF) and not self.intry and not (self.loops and self.loops[-1][0] is self.acts[-1]):
            # a branch that has left the function leaves nothing behind for the rest of it
            gone = (muts1, cnt1) if g1 is BF else (muts2, cnt2)
            self.muts, self.counts = (muts2, cnt2) if g1 is BF else (muts1, cnt1)
            self.acts[-1].gone.append(gone)
            return
        self.counts, self.muts = cnt1, muts1
        self.merge_history(muts2, cnt2)

    def merge_history(self, muts, cnt):
        for k, n in cnt.items():
            self.counts[k] = max(self.counts.get(k, 0), n)
        for k, v in muts.items():
            self.muts.setdefault(k, {}).update(v)

    def default_read(self, p):
        return p

    def merge2(self, c, g1, env1, heap1, g2, env2, heap2):
        if g1 is BF:
            return env2, heap2
        if g2 is BF:
            return env1, heap1
        env = {}
        for k in env1.keys() | env2.keys():
            a, b = env1.get(k), env2.get(k)
            if a is b:
                env[k] = a
            elif a is None:
                env[k] = b
            elif b is None:
                env[k] = a
            else:
                env[k] = self.merge_val(c, a, b)
        heap = {}
        for k in heap1.keys() | heap2.keys():
            a, b = heap1.get(k), heap2.get(k)
            if a is b:
                heap[k] = a
            elif (a is None or b is None) and self.root_obj(k) is not None:
                # a field of an object only one of the branches made
                heap[k] = a if a is not None else b
            else:
                a = a if a is not None else self.default_read(k)
                b = b if b is not None else self.default_read(k)
                heap[k] = self.merge_val(c, a, b)
        return env, heap

    def root_obj(self, k):
        while k.op in ('idx', 'attr', 'slice_'):
            k = k.args[0]
        return k.args[0] if k.op == 'obj' else None

    def merge_val(self, c, a, b):
        return cut(c, a, b) or ite(c, a, b)

    def merge_states(self, states):
        """states: list of (guard, env, heap), guards mutually exclusive."""
        states = [s for s in states if s[0] is not BF]
        if not states:
            return BF, {}, {}
        g, env, heap = states[-1]
        for g2, e2, h2 in reversed(states[:-1]):
            # condition that tells g2 from the rest
            c = bconstrain(g2, bor(g2, g))
            env, heap = self.merge2(c, g2, e2, h2, g, env, heap)
            g = bor(g, g2)
        return g, env, heap

    def resizes(self, cls, name, seen=None):
        """The attributes of self whose contents a method adds to or removes from, itself or through methods it calls."""
        seen = seen if seen is not None else set()
        out = set()
        m = self.p.method(cls, name)
        if m is None or name in seen:
            return out
        seen.add(name)
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = n.func.value
                if isinstance(b, ast.Name) and b.id == 'self':
                    out |= self.resizes(cls, n.func.attr, seen)
                elif n.func.attr in RESIZING and isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == 'self':
                    out.add(b.attr)
            elif isinstance(n, ast.Delete):
                for x in n.targets:
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and \
                            isinstance(x.value.value, ast.Name) and x.value.value.id == 'self':
                        out.add(x.value.attr)
        return out

    def st_For(self, st):
        st = desugar_for(st)
        it = self.by_rank(self.ev(st.iter), st)
        self.run_source(self.iter_source(it), lambda elem: (self.assign(st.target, elem), self.block(st.body)), st.orelse)

    def by_rank(self, it, st):
        """A loop over the ranks of a communicator that indexes what an all-to-all over it returned, one entry per rank,
        is a loop over those entries."""
        if it.op != 'range_' or it.args[0] is not ZERO or it.args[2] is not ONE or not isinstance(st.target, ast.Name):
            return it
        h = it.args[1]
        for n in ast.walk(ast.Module(st.body, [])):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Name) and \
                    n.slice.id == st.target.id and isinstance(n.ctx, ast.Load):
                x = self.env.get(n.value.id)
                if x is None:
                    continue
                x = self.render(x)
                if x.op == 'res' and x.args[0] == 'coll' and x.args[1] in ('alltoall', 'allgather') and \
                        h.op == 'mcall' and h.args[1] == 'Get_size' and h.args[0] is x.args[2]:
                    return mk('range_', ZERO, mk('len', x), ONE)
        return it

    # ----- loops
    def loop_for(self, iter_node, target, body, orelse=()):
        src = self.iter_source(self.ev(iter_node))
        self.run_source(src, lambda elem: (self.assign(target, elem), body()), orelse)

    def run_source(self, src, body, orelse=()):
        """Run body(elem) over an iteration source."""
        kind = src[0]
        if kind == 'flat':       # nested loops of a flattened local list
            self.run_flat(src[1], body)
            return
        if kind == 'unroll':
            self.unrolled(src[1], body, orelse)
            return
        it, elemf, snapshot = src[1], src[2], src[3]
        self.loop(it, elemf, body, snapshot, orelse)

    def unrolled(self, xs, body, orelse):
        """A loop over a known sequence: its iterations one after the other."""
        act = self.acts[-1]
        broke = []
        for x in xs:
            if self.g is BF:
                break
            ctx = LoopCtx()
            self.loops.append((act, ctx))
            try:
                body(x)
            finally:
                self.loops.pop()
            if ctx.cont:
                self.g, self.env, self.heap = self.merge_states([(self.g, self.env, self.heap)] + ctx.cont)
            if self.loops and self.loops[-1][0] is act:
                self.loops[-1][1].rets += ctx.rets
            else:
                act.returns += [(g, v) for g, v, _, _ in ctx.rets]
            if ctx.raised is not BF and self.loops:
                self.loops[-1][1].raised = bor(self.loops[-1][1].raised, ctx.raised)
            broke += ctx.brk
        if orelse and self.g is not BF:
            self.block(orelse)
        if broke:
            self.g, self.env, self.heap = self.merge_states([(self.g, self.env, self.heap)] + broke)

    def run_flat(self, bev, body):
        """bev: (frames, guard, value) of the single append that made the list."""
        frames, guard, value = bev

        def rec(i, m):
            if i == len(frames):
                g = subst(guard, m)
                self.branch(g, lambda: body(subst(value, m)), lambda: None)
                return
            f = frames[i]
            it = subst(f.args[0], m)

            def inner(e):
                old = mk('elem', f.args[0], f.args[1])
                oldi = mk('index', f.args[0], f.args[1])
                m2 = dict(m)
                depth = self.frames[-1].args[1]
                m2[old] = mk('elem', it, depth)
                m2[oldi] = mk('index', it, depth)
                rec(i + 1, m2)
            self.loop(it, lambda d: mk('elem', it, d), inner, True)
        rec(0, {})

    def frame_depth(self, it):
        return sum(1 for f in self.frames if f.op in ('frame', 'pframe') and f.args[0] is it)

    def loop(self, it, elemf, body, snapshot=False, orelse=(), head=None, isdict=False):
        """One abstract iteration. it: iterable term, or None for a while loop with condition head()."""
        if it is not None:
            d = self.frame_depth(it)
            fr = mk('frame', it, d, False)
        else:
            d = sum(1 for f in self.frames if f.op == 'wframe')
            fr = mk('wframe', d)
        g0, env0, heap0 = self.g, self.env, self.heap
        nid0 = self.nid

        def own(k):
            r = self.root_obj(k)
            return r is not None and r > nid0
        # dry run: what does the body change?
        snap = self.snapshot()
        self.env, self.heap = dict(env0), dict(heap0)
        self.dry += 1
        nuns = len(self.unsupported)
        self.loop_once(it, fr, elemf, d, body, head)
        self.dry -= 1
        ctx = self.last_loop
        ends = self.loop_ends
        changed_env, changed_heap = {}, {}
        for (g, e, h) in ends:
            if g is BF:
                continue
            for k, v in e.items():
                if k in env0 and env0[k] is not v:
                    changed_env[k] = True
            for k, v in h.items():
                if h is not heap0 and heap0.get(k, None) is not v:
                    if not self.depends_frame(k, it, d) and not own(k):
                        changed_heap[k] = True
        del self.unsupported[nuns:]
        nev = {i: n for i, (n, _) in snap[4].items()}
        lo = {i: (nev[i], list(o.evs[nev[i]:])) for i, o in self.objs.items() if i in nev and len(o.evs) > nev[i] and o.escaped is None}
        self.restore(snap)
        # real run with loop-carried placeholders
        env0, heap0 = dict(self.env), dict(self.heap)
        self.nmu += 1
        lid = self.nmu
        ph_env = {k: mk('muvar', lid, 'v:' + k) for k in changed_env}
        ph_heap = {k: mk('muvar', lid, 'h:' + k.dig) for k in changed_heap}
        self.env.update(ph_env)
        self.heap.update(ph_heap)
        ev0 = len(self.events)
        obj0 = {i: len(o.evs) for i, o in self.objs.items()}
        self.loopobjs.append(lo)
        self.loop_once(it, fr, elemf, d, body, head)
        self.loopobjs.pop()
        ctx, ends = self.last_loop, self.loop_ends
        # end of iteration state
        gend, env_e, heap_e = self.merge_states(ends)
        mapping = {}
        fold = {}
        inits = {}
        steps = {}
        for k, ph in ph_env.items():
            inits[ph] = env0[k]
            steps[ph] = env_e.get(k, ph) if gend is not BF else ph
        for k, ph in ph_heap.items():
            inits[ph] = heap0.get(k, self.default_read(k))
            steps[ph] = heap_e.get(k, ph) if gend is not BF else ph
        brkg = bor(*[s[0] for s in ctx.brk]) if ctx.brk else BF
        retg = bor(*[s[0] for s in ctx.rets]) if ctx.rets else BF
        self.resolve_mus(it, fr, d, inits, steps, mapping, fold, brkg is BF and retg is BF, g0)
        # body-local effects on the loop's own iterable: iteration over a changing container
        live = False
        if it is not None and not snapshot:
            r = self.resource(it)
            if r:
                for e in self.events[ev0:]:
                    if e.kind in ('mut', 'del', 'store', 'reset') and r in e.res and \
                            (e.kind != 'store' or e.head.op == 'idx' and e.head.args[0] is it):
                        live = True
                    elif e.kind == 'call' and e.head.op == 'meth':
                        box = it
                        while box.op == 'mcall' and isinstance(box.args[0], T):
                            box = box.args[0]
                        owner = e.head.args[0]
                        if box.op == 'attr' and box.args[0] is owner and any(r in self.resizes(c, e.head.args[1]) for c in (
                                [self.acts[0].cls] if owner.op == 'self' and self.acts[0].cls is not None else
                                [c for m in self.p.modules.values() for c in m.classes.values() if e.head.args[1] in c.methods])):
                            live = True
        fmap = {fr: mk('frame', it, d, True)} if live else {}
        self.rewrite_region(ev0, obj0, mapping, fmap)
        ctx.brk = [(subst(g, mapping), self.msub(e, mapping), self.msub(h, mapping)) for g, e, h in ctx.brk]
        rets = [(subst(g, mapping), subst(v, mapping), None, None) for g, v, _, _ in ctx.rets]
        raised = subst(ctx.raised, mapping)
        brkg = subst(brkg, mapping)
        # condition atoms that only hold before the loop are kept, relative to g0
        relb = bcanon(bconstrain(brkg, g0))
        region_has_effects = any(e.kind not in ('ret',) for e in self.events[ev0:]) or \
            any(len(self.objs[i].evs) > n for i, n in obj0.items() if i in self.objs)
        if (brkg is not BF) and region_has_effects:
            self.emit('break', mk('loop', it if it is not None else fr), [], self.curnode, {'flow'}, guard=brkg)
            self.events[-1].frames = tuple(self.frames) + (fmap.get(fr, fr),)
        retg2 = bor(*[g for g, *_ in rets]) if rets else BF
        if retg2 is not BF and region_has_effects:
            self.emit('break', mk('loop', it if it is not None else fr), [], self.curnode, {'flow'}, guard=retg2)
            self.events[-1].frames = tuple(self.frames) + (fmap.get(fr, fr),)
        # state after the loop
        env, heap = dict(env0), dict(heap0)
        for k, ph in ph_env.items():
            env[k] = fold[ph]
        for k, ph in ph_heap.items():
            heap[k] = fold[ph]
        # variables first assigned in the loop
        env_e2 = self.msub(env_e, mapping) if gend is not BF else {}
        for k, v in env_e2.items():
            if k not in env and v is not None:
                env[k] = self.lastval(it, d, v)
        for k, v in (heap_e.items() if gend is not BF else ()):
            if own(k):
                heap[k] = subst(v, mapping)
        # values set only on the way out of the loop
        if ctx.brk:
            bstates = ctx.brk
            allb = relb
            ex = self.exists(it, d, allb, fr)
            for k in set().union(*[e.keys() for _, e, _ in bstates]):
                stepchg = k in ph_env and steps[ph_env[k]] is not ph_env[k]
                vals = []
                for g, e, h in bstates:
                    vals.append((bconstrain(g, g0), e.get(k)))
                base = env.get(k)
                if all(v is not None and (v is env0.get(k)) for _, v in vals):
                    continue
                if all(v is None for _, v in vals):
                    continue
                fv = self.firstval(it, d, fr, vals)
                if base is None:
                    env[k] = fv
                elif fv is not base:
                    env[k] = ite(ex, fv, base)
            for k in set().union(*[h.keys() for _, _, h in bstates]):
                if self.depends_frame(k, it, d):
                    continue
                if own(k):
                    for g, e, h in bstates:
                        if k in h:
                            heap[k] = h[k]
                    continue
                vals = [(bconstrain(g, g0), h.get(k, self.default_read(k))) for g, e, h in bstates]
                base = heap.get(k, self.default_read(k))
                if all(v is heap0.get(k, self.default_read(k)) for _, v in vals) and k not in ph_heap:
                    continue
                fv = self.firstval(it, d, fr, vals)
                if fv is not base:
                    heap[k] = ite(ex, fv, base)
        for k in [k for k in heap if self.depends_frame(k, it, d)]:
            del heap[k]
        self.env, self.heap = env, heap
        after = g0
        if orelse:
            ex = self.exists(it, d, relb, fr)
            self.g = band(g0, bnot(ex))
            # merging of an else clause: evaluate under not broken
            self.g = g0
            self.branch(bnot(ex), lambda: self.block(orelse), lambda: None)
            after = self.g
        if rets:
            rel = bcanon(bconstrain(retg2, g0))
            ex = self.exists(it, d, rel, fr)
            v = self.firstval(it, d, fr, [(bconstrain(g, g0), v) for g, v, *_ in rets])
            self.g = band(after, ex)
            if self.g is not BF:
                self.do_return(v)
            after = band(after, bnot(ex))
        if raised is not BF:
            rel = bcanon(bconstrain(raised, g0))
            ex = self.exists(it, d, rel, fr)
            if self.loops:
                self.loops[-1][1].raised = bor(self.loops[-1][1].raised, band(g0, ex))
            after = band(after, bnot(ex))
        self.g = after

    def msub(self, m, mapping):
        if not mapping:
            return m
        return {k: subst(v, mapping) for k, v in m.items()}

    def depends_frame(self, k, it, d):
        if it is None:
            return False
        e, i = mk('elem', it, d), mk('index', it, d)
        return contains(k, lambda t: t is e or t is i)

    def exists(self, it, d, cond, fr):
        if cond is BF:
            return BF
        if it is None:
            return mkexists(fr, cond)
        # conditions that do not depend on the element still need one element
        return mkexists(mk('frame', it, d, False), cond)

    def firstval(self, it, d, fr, vals):
        """Value at the first iteration in which one of the guards holds."""
        v = None
        allc = BF
        for g, x in reversed(vals):
            if x is None:
                continue
            v = x if v is None else ite(g, x, v)
            allc = bor(allc, g)
        if v is None:
            return NONE
        if not self.loopdep(v, it, d, fr):
            return v
        return mk('first', mk('frame', it, d, False) if it is not None else fr, bcanon(allc), v)

    def loopdep(self, v, it, d, fr):
        if it is None:
            return contains(v, lambda t: t.op in ('mu', 'muvar'))
        e, i = mk('elem', it, d), mk('index', it, d)
        return contains(v, lambda t: t is e or t is i or t.op in ('mu',))

    def lastval(self, it, d, v):
        if it is not None and not self.depends_frame(v, it, d) and not contains(v, lambda t: t.op == 'mu'):
            return v
        return mk('last', mk('frame', it, d, False) if it is not None else mk('wframe', d), v)

    def loop_once(self, it, fr, elemf, d, body, head):
        act = self.acts[-1]
        ctx = LoopCtx()
        self.loops.append((act, ctx))
        self.frames.append(fr)
        g0 = self.g
        try:
            if head is not None:
                c = head()
                brk = band(self.g, bnot(c))
                if brk is not BF:
                    ctx.brk.append((brk, dict(self.env), dict(self.heap)))
                self.g = band(self.g, c)
            body(elemf(d) if elemf else None)
        finally:
            self.frames.pop()
            self.loops.pop()
        ends = [(self.g, self.env, self.heap)] + ctx.cont
        self.last_loop, self.loop_ends = ctx, ends

    def resolve_mus(self, it, fr, d, inits, steps, mapping, fold, nobreak, g0):
        frt = mk('frame', it, d, False) if it is not None else fr
        idx = mk('index', it, d) if it is not None else mk('index', fr)
        # order by dependency-free canonical form
        pend = dict(steps)
        for ph in list(pend):
            if steps[ph] is ph:
                mapping[ph] = inits[ph]
                fold[ph] = inits[ph]
                del pend[ph]
        if mapping:
            for ph in pend:
                pend[ph] = subst(pend[ph], mapping)
        for ph in list(pend):
            st = pend[ph]
            others = [q for q in pend if q is not ph]
            dep_self = contains(st, lambda t: t is ph)
            dep_oth = contains(st, lambda t: t in others)
            init = inits[ph]
            if not dep_self and not dep_oth and is_constant(st) and is_constant(init) or \
                    (not dep_self and not dep_oth and not self.loopdep(st, it, d, fr) and not contains(st, lambda t: t.op == 'muvar')):
                # first iteration init, later step
                mapping[ph] = ite(batom(mk('eq', *sorted((idx, ZERO), key=lambda t: t.dig))), init, st)
                fold[ph] = mk('afterloop', frt, init, st)
                del pend[ph]
                continue
            if dep_self and not dep_oth and init in (TRUE_C, FALSE_C):
                # a flag that the first pass settles
                one, nxt = self.flag_step(st, ph, init), self.flag_step(st, ph, FALSE_C if init is TRUE_C else TRUE_C)
                if one is nxt and one in (TRUE_C, FALSE_C):
                    mapping[ph] = ite(batom(mk('eq', *sorted((idx, ZERO), key=lambda t: t.dig))), init, one)
                    fold[ph] = mk('afterloop', frt, init, one)
                    del pend[ph]
                    continue
            if dep_self and not dep_oth:
                delta = sub(st, ph)
                if not contains(delta, lambda t: t is ph or t.op == 'muvar') and not self.loopdep(delta, it, d, fr) and \
                        (is_num(init) or init.op == 'poly' or is_num(delta)) and not is_stringy(st):
                    mapping[ph] = add(init, mul(delta, idx))
                    if it is not None and nobreak:
                        fold[ph] = add(init, mul(delta, self.length(it)))
                    else:
                        fold[ph] = mk('afterloop', frt, init, add(init, mul(delta, idx)))
                    del pend[ph]
        if mapping:
            for ph in pend:
                pend[ph] = subst(pend[ph], mapping)
        # remaining: explicit recurrences; canonical names by (init, step with self marked)
        me = mk('rec')
        for ph in list(pend):
            m = {q: (me if q is ph else mk('mu', frt, inits[q])) for q in pend}
            step = subst(pend[ph], m)
            mapping[ph] = mk('mu', frt, inits[ph], step)
            fold[ph] = mk('fold', frt, inits[ph], step)
        # mappings may refer to each other's placeholders through inits only

    def flag_step(self, st, ph, v):
        st = simp_under(simp_under(st, mk('truthy', ph), v is TRUE_C), ph, v is TRUE_C)
        return v if st is ph else st

    def length(self, it):
        return mk('len', it)

    def rewrite_region(self, ev0, obj0, mapping, fmap):
        if not mapping and not fmap:
            return
        m = dict(mapping)
        m.update(fmap)
        for e in self.events[ev0:]:
            e.head = subst(e.head, mapping) if mapping else e.head
            if mapping:
                e.args = tuple(subst(a, mapping) for a in e.args)
                e.guard = subst(e.guard, mapping)
            e.frames = tuple(subst(f, m) for f in e.frames)
        for i, o in self.objs.items():
            n = obj0.get(i, 0)
            if n == 0 and i not in obj0:
                o.init = subst(o.init, mapping) if o.init is not None else None
                o.guard = subst(o.guard, mapping)
                o.frames = tuple(subst(f, m) for f in o.frames)
                if o.escaped is not None:
                    o.escaped = subst(o.escaped, mapping)
            if len(o.evs) > n:
                o.evs[n:] = [(op, subst(p, mapping), tuple(subst(a, mapping) if isinstance(a, T) else a for a in args),
                              tuple(subst(f, m) for f in fr), subst(g, mapping), order, loc)
                             for (op, p, args, fr, g, order, loc) in o.evs[n:]]
        for r, d in self.muts.items():
            if any(contains(k, lambda t: t in mapping) for k in d):
                self.muts[r] = {subst(k, mapping): True for k in d}

    def snapshot(self):
        return (dict(self.env), dict(self.heap), self.g, len(self.events), {i: (len(o.evs), o.escaped) for i, o in self.objs.items()},
                self.nid, {k: dict(v) for k, v in self.muts.items()}, dict(self.counts), [len(a.returns) for a in self.acts],
                self.order, dict(self.tries), self.nwhile, self.curnode,
                [(c, len(c.brk), len(c.cont), len(c.rets), c.raised) for _, c in self.loops])

    def restore(self, s):
        (self.env, self.heap, self.g, ne, ob, self.nid, self.muts, self.counts, rl, self.order, self.tries, self.nwhile,
         self.curnode, ls) = s
        self.env, self.heap = dict(self.env), dict(self.heap)
        del self.events[ne:]
        for i in list(self.objs):
            if i not in ob:
                del self.objs[i]
            else:
                del self.objs[i].evs[ob[i][0]:]
                self.objs[i].escaped = ob[i][1]
        for a, n in zip(self.acts, rl):
            del a.returns[n:]
        for c, b, k, r, ra in ls:
            del c.brk[b:]
            del c.cont[k:]
            del c.rets[r:]
            c.raised = ra

    def st_While(self, st):
        # while flag: with the flag true on entry is a loop that is left when the flag becomes false
        if st.orelse:
            self.unsup(st)
        f = desugar_while(st)
        if f is not None and self.env.get(f.target.id) is ZERO:
            # a counting loop
            i = f.target.id
            hi = self.ev(f.iter.args[-1])
            self.st_For(f)
            self.env[i] = mk('unknown', 'counter', self.render(hi))
            return
        tst = st.test
        self.loop(None, None, lambda _: self.block(st.body), head=(lambda: self.cond(tst)))

    def st_Break(self, st):
        if not self.loops:
            return
        self.loops[-1][1].brk.append((self.g, dict(self.env), dict(self.heap)))
        self.loops[-1][1].explicit = True
        self.g = BF

    def st_Continue(self, st):
        if not self.loops:
            return
        self.loops[-1][1].cont.append((self.g, dict(self.env), dict(self.heap)))
        self.g = BF

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                if isinstance(t.slice, ast.Slice):
                    s = self.ev_slice(t.slice)
                    if s.args[0] is ZERO and s.args[1] is NONE and s.args[2] is NONE:
                        self.mutate(b, 'clear', [])
                        continue
                    self.mutate(b, 'delitem', [s])
                else:
                    k = self.ev(t.slice)
                    self.do_del(b, k)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.emit('del', mk('attr', b, t.attr), [], st)
            elif isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Tuple):
                self.st_Delete(ast.Delete(t.elts))

    def do_del(self, b, k):
        if b.op == 'ite':
            c, x, y = b.args
            self.branch(c, lambda: self.do_del(x, k), lambda: self.do_del(y, k))
            return
        self.mutate(b, 'delitem', [k])

    def st_With(self, st):
        for item in st.items:
            v = self.ev(item.context_expr)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
        self.block(st.body)

    def st_Try(self, st):
        g0, env0, heap0 = self.g, dict(self.env), dict(self.heap)
        r0 = [c.raised for _, c in self.loops]
        self.intry += 1
        self.block(st.body)
        self.intry -= 1
        if st.handlers:
            # what the body raises goes on in a handler
            for (_, c), r in zip(self.loops, r0):
                c.raised = r
        if st.orelse:
            self.block(st.orelse)
        states = [(self.g, self.env, self.heap)]
        g_norm = self.g
        for h in st.handlers:
            types = ast.unparse(h.type) if h.type is not None else 'BaseException'
            # named after where it happens, not after the order of traversal; attempts that exclude each other share the name
            key = (types, tuple(self.frames))
            past = self.tries.get(key, ())
            n = 0
            while n < len(past) and bsat(band(past[n], g0)):
                n += 1
            self.tries[key] = past[:n] + (bor(past[n], g0) if n < len(past) else g0,) + past[n + 1:]
            atom = batom(mk('caught', types, n, mk('frames', *self.frames)))
            self.env, self.heap = dict(env0), dict(heap0)
            self.g = band(g0, atom)
            if h.name:
                self.env[h.name] = mk('exc', types)
            self.block(h.body)
            states.append((self.g, self.env, self.heap))
        live = [s for s in states if s[0] is not BF]
        if len(live) == 1:
            self.g, self.env, self.heap = live[0]
        elif not live:
            self.g = BF
        else:
            # the handlers' states first, the normal one as default
            g, env, heap = live[0]
            for g2, e2, h2 in live[1:]:
                c = bconstrain(g2, bor(g2, g))
                env, heap = self.merge2(c, g2, e2, h2, g, env, heap)
            self.env, self.heap = env, heap
            self.g = bor(*[s[0] for s in live]) if g_norm is BF else g_norm
        self.block(st.finalbody)

    def st_FunctionDef(self, st):
        self.env[st.name] = self.closure(st.args, st.body, st)

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.acts[-1].globals:
                p = mk('glob', self.acts[-1].func.module.name + '.' + t.id)
                self.store(p, v)
            else:
                self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.store_attr(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev_slice(t.slice) if isinstance(t.slice, ast.Slice) else self.ev(t.slice)
            self.store_idx(b, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unsup(t)

    def unpack(self, elts, v):
        v2 = self.deref(v)
        vals = None
        if v2.op in ('tuple', 'list') and not any(isinstance(e, ast.Starred) for e in elts) and len(v2.args) == len(elts):
            vals = list(v2.args)
        elif v2.op == 'ite':
            c, a, b = v2.args
            a2, b2 = self.deref(a), self.deref(b)
            if a2.op == 'tuple' and b2.op == 'tuple' and len(a2.args) == len(b2.args) == len(elts):
                vals = [ite(c, x, y) for x, y in zip(a2.args, b2.args)]
        if vals is None:
            vals = []
            n = len(elts)
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    vals.append(self.index(v, mk('slice', const(i), const(i - n + 1) if i - n + 1 else NONE, NONE)))
                else:
                    seen_star = any(isinstance(x, ast.Starred) for x in elts[:i])
                    vals.append(self.index(v, const(i - n if seen_star else i)))
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def store_attr(self, b, name, v):
        if b.op == 'ite':
            c, x, y = b.args
            self.branch(c, lambda: self.store_attr(x, name, v), lambda: self.store_attr(y, name, v))
            return
        self.store(mk('attr', b, name), v)

    def store_idx(self, b, k, v):
        if b.op == 'ite':
            c, x, y = b.args
            self.branch(c, lambda: self.store_idx(x, k, v), lambda: self.store_idx(y, k, v))
            return
        if k.op == 'slice' and k.args == (ZERO, NONE, NONE):
            # whole contents
            self.mutate(b, 'setall', [v])
            return
        self.mutate(b, 'setitem', [k, v])
        p = mk('idx', b, k)
        self.drop_idx(b, p)
        self.heap[p] = v
        if self.obj_of(b) is None:
            # a fresh empty container is known by its place from here on
            if v.op == 'obj':
                o = self.objs[v.args[0]]
                if o.escaped is None and not o.evs and o.kind in ('list', 'dict', 'set') and is_emptyish(self.render(o.init)) and \
                        tuple(self.frames) == o.frames:
                    o.escaped = p
                    self.heap[p] = p
            elif v.op in ('list', 'dict', 'set', 'call') and is_emptyish(v):
                self.heap[p] = p

    def store(self, p, v):
        o = self.obj_of(p)
        if o is not None:
            base = p.args[0]
            if p.op == 'attr' and base.op == 'obj':
                if p.args[1] not in o.fields:
                    o.fields.append(p.args[1])
                self.heap[p] = v
                self.order += 1
                return
            self.order += 1
            o.evs.append(('setattr:' + str(p.args[1]), base, (v,), tuple(self.frames), self.g, self.order, self.loc(self.curnode)))
            self.heap[p] = v
            return
        r = self.resource(p)
        if v.op == 'obj' and self.objs[v.args[0]].escaped is None and self.objs[v.args[0]].kind in ('list', 'dict', 'set', 'arr') \
                and p.op in ('attr', 'glob'):
            ob = self.objs[v.args[0]]
            init = self.render(ob.init)
            if is_emptyish(init):
                self.emit('reset', p, [mk('empty')], None, {r})
            else:
                self.emit('store', p, [init], None, {r})
            self.note_mut({r}, mk('m', 'clear', strip_ver(p)))
            evs = ob.evs
            ob.escaped = p
            nf = len(ob.frames)
            for (op, path, args, frames, guard, order, loc) in evs:
                np_ = subst(path, {v: p})
                sv = self.frames, self.g
                self.frames = list(frames)
                self.g = guard
                self.mutate(np_, op, list(args))
                self.frames, self.g = sv
            self.heap[p] = p
            return
        rv = self.render(v)
        if rv.op in ('list', 'dict', 'set', 'call') and is_emptyish(rv):
            self.emit('reset', p, [mk('empty')], None, {r})
        else:
            self.emit('store', p, [v], None, {r})
        self.note_mut({r}, mk('m', 'store', strip_ver(self.render(p))))
        self.heap[p] = v

    def extend(self, target, v):
        src = self.iter_source(v)
        self.run_source(src, lambda e: self.mutate(target, 'append', [e]))

    # ---------------------------------------------------------------- iteration sources
    def deref(self, t):
        """Literal a local object stands for, if it has not been changed."""
        if t.op == 'obj':
            o = self.objs.get(t.args[0])
            if o is not None and o.escaped is None and not o.evs and not self.changing(o) and o.init is not None and o.kind in ('list', 'tuple', 'dict', 'set'):
                return o.init
        return t

    def iter_source(self, t, snapshot=False):
        """('iter', iterable, elem(depth), snapshot) | ('flat', ...) | ('unroll', [..])"""
        op = t.op
        if op == 'obj':
            o = self.objs[t.args[0]]
            if o.escaped is not None:
                return self.iter_source(o.escaped, snapshot)
            if self.changing(o):
                t2 = self.render(t)
                return ('iter', t2, lambda d: mk('elem', t2, d), True)
            if o.kind in ('list', 'set', 'gen') and is_emptyish(self.render(o.init)) and len(o.evs) == 1 and o.evs[0][0] in ('append', 'add') \
                    and o.evs[0][1] is t and len(o.evs[0][3]) > len(o.frames) and o.evs[0][3][:len(o.frames)] == o.frames \
                    and all(f.op == 'frame' for f in o.evs[0][3][len(o.frames):]) and o.kind != 'set':
                e = o.evs[0]
                return ('flat', (e[3][len(o.frames):], bconstrain(e[4], o.guard), e[2][0]))
            if o.kind in ('list', 'tuple') and not o.evs and o.init.op in ('list', 'tuple') and len(o.init.args) <= 8 \
                    and not any(a.op == 'star' for a in o.init.args):
                return ('unroll', list(o.init.args))
            if o.kind == 'list' and o.init.op == 'list' and 0 < len(o.init.args) + len(o.evs) <= 8 and \
                    all(e[0] == 'append' and e[1] is t and e[3] == o.frames and not bsat(band(self.g, bnot(e[4]))) for e in o.evs) and \
                    not any(a.op == 'star' for a in o.init.args):
                return ('unroll', list(o.init.args) + [e[2][0] for e in o.evs])
            t2 = self.render(t)
            if t2.op == 'listof':
                return self.iter_source(t2.args[0], True)
            if t2.op == 'list' and len(t2.args) <= 8 and not any(a.op == 'star' for a in t2.args):
                return ('unroll', list(t2.args))
            return ('iter', t2, lambda d: mk('elem', t2, d), True)
        if op in ('tuple', 'list') and len(t.args) <= 8 and not any(a.op in ('star', 'alts') for a in t.args):
            return ('unroll', list(t.args))
        if op == 'tupleof':
            return self.iter_source(t.args[0], True)
        if op == 'attr' and t.args[1] in ('nodes', 'edges') and is_graph(t.args[0]):
            return self.iter_source(self.pure_mcall(t.args[0], t.args[1], [], {}), snapshot)
        if op == 'listof':
            return self.iter_source(t.args[0], True)
        if op == 'build':
            g = as_flat(t)
            if g is not None:
                return ('flat', g)
            return ('iter', t, lambda d: mk('elem', t, d), True)
        if op == 'enum_':
            inner = self.iter_source(t.args[0], snapshot)
            if inner[0] == 'iter':
                st = t.args[1]
                it, ef = inner[1], inner[2]
                return ('iter', it, lambda d: mk('tuple', add(st, mk('index', it, d)), ef(d)), inner[3])
            if inner[0] == 'unroll':
                return ('unroll', [mk('tuple', add(t.args[1], const(i)), x) for i, x in enumerate(inner[1])])
            tt = self.render(t.args[0])
            st = t.args[1]
            return ('iter', tt, lambda d: mk('tuple', add(st, mk('index', tt, d)), mk('elem', tt, d)), True)
        if op == 'mcall' and t.args[1] in ('items', 'values', 'keys') and len([a for a in t.args[2:] if a.op != 'ver']) == 0:
            b = t.args[0]
            if t.args[1] == 'keys':
                return self.iter_source(b, snapshot)
            if b.op == 'obj' and self.objs[b.args[0]].escaped is None:
                b = self.render(b)
            if t.args[1] == 'items':
                return ('iter', b, lambda d: mk('tuple', mk('elem', b, d), self.index(b, mk('elem', b, d))), snapshot)
            return ('iter', b, lambda d: self.index(b, mk('elem', b, d)), snapshot)
        if op == 'mcall' and t.args[1] == 'copy':
            return self.iter_source(t.args[0], True)
        if op == 'mcall' and t.args[1] == '__iter__':
            return self.iter_source(t.args[0], snapshot)
        if op == 'range_':
            lo, hi, step = t.args
            if lo is ZERO and step is ONE and hi.op == 'len':
                b = hi.args[0]
                return ('iter', b, lambda d: mk('index', b, d), snapshot)
            if is_num(lo) and is_num(hi) and is_num(step) and 0 < (hi.args[0] - lo.args[0]) <= 3 and step is ONE:
                return ('unroll', [const(i) for i in range(lo.args[0], hi.args[0])])
            if lo is ZERO and step is ONE:
                return ('iter', t, lambda d: mk('index', t, d), True)
            return ('iter', t, lambda d: add(lo, mul(step, mk('index', t, d))), True)
        if op == 'zip_':
            parts = [self.iter_source(a) for a in t.args]
            if all(p[0] == 'unroll' for p in parts):
                return ('unroll', [mk('tuple', *xs) for xs in zip(*[p[1] for p in parts])])
            its = [self.render(a) for a in t.args]
            z = mk('zip_', *its)
            base = its[0]
            return ('iter', z, lambda d: mk('tuple', *[mk('idx', a, mk('index', z, d)) for a in its]), True)
        if op == 'filter_':
            inner = self.iter_source(t.args[1], snapshot)
            return self.nested_source(inner, lambda e: (self.truthy(self.apply(t.args[0], [e])), e))
        if op == 'map_':
            inner = self.iter_source(t.args[1], snapshot)
            return self.nested_source(inner, lambda e: (BT, self.apply(t.args[0], [e])))
        if op == 'chainstar':
            # chain(*lists): one loop over the lists, one over each
            b = t.args[0]
            return ('chainstar', b)
        if op == 'ite':
            return ('ite', t)
        if op == 'mcall' and t.args[1] == 'items':
            pass
        return ('iter', t, lambda d: mk('elem', t, d), snapshot)

    def nested_source(self, inner, f):
        return ('mapped', inner, f)

    # ---------------------------------------------------------------- conditions
    def cond(self, n):
        if isinstance(n, ast.BoolOp):
            g0 = self.g
            r = None
            for v in n.values:
                c = self.cond(v)
                if r is None:
                    r = c
                else:
                    r = band(r, c) if isinstance(n.op, ast.And) else bor(r, c)
                self.g = band(g0, r if isinstance(n.op, ast.And) else bnot(r))
            self.g = g0
            return r
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return bnot(self.cond(n.operand))
        if isinstance(n, ast.Compare):
            left = self.ev(n.left)
            r = BT
            for op, rn in zip(n.ops, n.comparators):
                right = self.ev(rn)
                r = band(r, self.compare(op, left, right))
                left = right
            return r
        if isinstance(n, ast.IfExp):
            c = self.cond(n.test)
            return bite(c, self.cond(n.body), self.cond(n.orelse))
        return self.truthy(self.ev(n))

    def compare(self, op, a, b):
        k = type(op).__name__
        if k in ('NotEq', 'IsNot', 'NotIn'):
            return bnot(self.compare({'NotEq': ast.Eq, 'IsNot': ast.Is, 'NotIn': ast.In}[k](), a, b))
        if k == 'In':
            return self.contains_(a, b)
        if k == 'Is':
            if b is NONE:
                return self.isnone(a)
            if a is NONE:
                return self.isnone(b)
            if a is b:
                return BT
            if b in (TRUE_C, FALSE_C) or a in (TRUE_C, FALSE_C):
                return self.eq(a, b)
            x, y = sorted((self.render(a), self.render(b)), key=lambda t: t.dig)
            return batom(mk('is', x, y))
        if k == 'Eq':
            return self.eq(a, b)
        a, b = self.render(a), self.render(b)
        if a.op == 'ite' or b.op == 'ite':
            return lift2(a, b, lambda x, y: self.compare(op, x, y))
        if k == 'Lt':
            return self.lt(a, b)
        if k == 'Gt':
            return self.lt(b, a)
        if k == 'LtE':
            return self.le(a, b)
        if k == 'GtE':
            return self.le(b, a)
        raise Unsupported(k)

    def lt(self, a, b):
        return cmp0('lt0', sub(a, b))

    def le(self, a, b):
        return cmp0('le0', sub(a, b))

    def eq(self, a, b):
        a, b = self.render(a), self.render(b)
        return eqterm(a, b)

    def isnone(self, t):
        return isnone(self.render(t) if t.op == 'obj' else t)

    def keyed(self, o, k):
        """What the history of a copied dictionary says about a constant key: 'base', 'gone', ('is', value), None: not known."""
        if o.op != 'obj' or not is_constant(k):
            return None
        ob = self.objs[o.args[0]]
        if ob.escaped is not None or ob.kind != 'dict' or self.changing(ob) or ob.init.op not in ('param', 'dictof'):
            return None
        for op, path, args, frames, g, order, loc in reversed(ob.evs):
            if op not in ('setitem', 'delitem') or path is not o or not is_constant(args[0]):
                if op.startswith('passed:'):
                    continue
                return None
            if args[0] is not k:
                continue
            if not bsat(band(self.g, g)):
                continue
            if frames != self.frames[:len(frames)] or bsat(band(self.g, bnot(g))):
                return None
            return 'gone' if op == 'delitem' else ('is', args[1])
        return 'base'

    def contains_(self, x, c):
        kk = self.keyed(c, x)
        if kk is not None:
            ob = self.objs[c.args[0]]
            return self.contains_(x, ob.init.args[0] if ob.init.op == 'dictof' else ob.init) if kk == 'base' else BF if kk == 'gone' else BT
        c0 = c
        c = self.deref(c)
        if c.op == 'mcall' and c.args[1] == 'keys':
            c = c.args[0]
        if c.op == 'listof':
            c = c.args[0]
        if c.op in ('tuple', 'list', 'set') and not any(a.op == 'star' for a in c.args):
            ks = sorted(a.args[0] for a in c.args if is_const(a) and type(a.args[0]) is int)
            rx = self.render(x)
            if len(ks) == len(c.args) > 1 and isint(rx) and ks == list(range(ks[0], ks[0] + len(ks))):
                # consecutive numbers
                return band(bnot(self.lt(rx, const(ks[0]))), bnot(self.lt(const(ks[-1]), rx)))
            return bor(*[self.eq(x, a) for a in c.args])
        if x.op == 'ite':
            return bite(x.args[0], self.contains_(x.args[1], c0), self.contains_(x.args[2], c0))
        if c.op == 'const' and isinstance(c.args[0], str) and is_const(x):
            return BT if str(x.args[0]) in c.args[0] else BF
        g = graph_of(c)
        if g is not None:
            g, part = g
            if part in ('graph', 'nodes'):
                return self.truthy(self.pure_mcall(g, 'has_node', [x], {}))
            xd = self.deref(x)
            if part == 'edges' and xd.op == 'tuple' and len(xd.args) == 2:
                return self.truthy(self.pure_mcall(g, 'has_edge', list(xd.args), {}))
        x = self.render(x)
        if c.op == 'obj' and self.objs[c.args[0]].escaped is None:
            return batom(mk('in', x, self.render(c), mk('ver')))
        return batom(mk('in', x, self.render(c), self.slot_ver(c)))

    def truthy(self, t):
        t2 = t
        if t.op == 'obj':
            t2 = self.render(t)
        elif t.op == 'ite':
            return bite(t.args[0], self.truthy(t.args[1]), self.truthy(t.args[2]))
        elif t.op in ('attr', 'idx', 'param', 'glob') and not is_num(t) and not is_stringy(t):
            v = self.ver(self.resource(t))
            if v.args and not (t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] in C.OBJ_MAPS):
                # a container that has changed since
                return truthy(mk('vers', t, v))
        return truthy(t2)

    # ---------------------------------------------------------------- expressions
    def ev(self, n, stmt=False):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            self.unsup(n)
            return mk('unknown', ast.dump(n)[:60])
        if isinstance(n, ast.Call):
            return self.ev_Call(n, stmt)
        return m(n)

    def ev_Constant(self, n):
        if n.value is Ellipsis:
            return mk('ellipsis')
        return const(n.value)

    def ev_Name(self, n):
        if n.id in self.env and n.id not in self.acts[-1].globals:
            v = self.env[n.id]
            return self.consumed(n, v) if isinstance(v, T) else v
        return self.global_name(self.acts[-1].func.module, n.id)

    def consumed(self, n, v):
        """An iterator can be gone through once: later reads of the variable find it exhausted."""
        act = self.acts[-1]
        f = act.func.node
        if not hasattr(f, 'oneshot'):
            f.oneshot = oneshot_loads(f)
        k = f.oneshot.get(id(n))
        if k is None:
            return v
        asg, again = k
        if again:
            return mk('exhausted_', self.render(v))
        prev = act.reads.setdefault(asg, {})
        for m, g in prev.items():
            if m != id(n) and bsat(band(g, self.g)):
                return mk('exhausted_', self.render(v))
        prev[id(n)] = self.g
        return v

    def global_name(self, mod, name):
        if name in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[name])
        d = self.p.resolve_in(mod, name)
        return self.global_dotted(d)

    def global_dotted(self, d):
        r = self.p.lookup(d)
        if isinstance(r, tuple) and r[0] == 'const':
            m, n = r[1], r[2]
            p = mk('glob', m.name + '.' + n)
            if p in self.heap:
                return self.heap[p]
            if n not in getattr(m, 'globals_written', ()) and n not in m.multi:
                v = m.consts[n]
                if isinstance(v, ast.Constant) or (isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant)):
                    return self.ev(v)
                if isinstance(v, ast.Dict) and not v.keys:
                    return mk('dict')
            return p
        if isinstance(r, tuple) and r[0] == 'cconst':
            cls, n, node = r[1], r[2], r[3]
            if cls.is_enum:
                return mk('enum', f'{cls.name}.{n}')
            if isinstance(node, ast.Constant):
                return self.ev(node)
            return mk('glob', f'{cls.module.name}.{cls.name}.{n}')
        if isinstance(r, Class):
            return mk('glob', r.module.name + '.' + r.name)
        if isinstance(r, Func):
            return mk('glob', r.qual)
        if isinstance(r, Module):
            return mk('glob', r.name)
        p = mk('glob', d)
        return self.heap.get(p, p)

    def ev_Attribute(self, n):
        # dotted global?
        d = self.dotted(n)
        if d is not None:
            return self.global_dotted(d)
        b = self.ev(n.value)
        return self.attr(b, n.attr)

    def dotted(self, n):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name) or n.id in self.env:
            return None
        mod = self.acts[-1].func.module
        if n.id in mod.imports or n.id in mod.classes:
            base = self.p.resolve_in(mod, n.id)
            d = base + '.' + '.'.join(reversed(parts))
            # only module/class attributes; an object reached through a module variable is a value
            r = self.p.lookup(base)
            if r is None and base in ('os', 'numpy', 'sys') or r is None:
                if self.p.lookup(base.rsplit('.', 1)[0]) is not None and '.' in base:
                    rr = self.p.lookup(base)
                    return None if rr is None and base.rsplit('.', 1)[0] in self.p.modules else d
                return d
            if isinstance(r, Module):
                first = base + '.' + parts[-1]
                if len(parts) == 1:
                    return d
                rr = self.p.lookup(first)
                if isinstance(rr, (Module, Class)):
                    return d
                return None
            if isinstance(r, Class) and len(parts) == 1:
                rr = self.p.lookup(d)
                if rr is not None:
                    return d
                return d
            return None
        return None

    def attr(self, b, name):
        if b.op == 'ite':
            if b.args[1] is NONE or b.args[2] is NONE:
                # None has no such attribute
                return self.attr(b.args[2] if b.args[1] is NONE else b.args[1], name)
            return ite(b.args[0], self.attr(b.args[1], name), self.attr(b.args[2], name))
        if name == 'uid' and (b.op == 'mcall' and b.args[1] in ('get_local', 'get_ghost') and len(b.args) > 2 or
                              b.op == 'res' and len(b.args) > 3 and b.args[0] == 'meth' and b.args[2] in ('get_local', 'get_ghost', 'remove_local')):
            # agents are found by their unique id
            return b.args[2] if b.op == 'mcall' else b.args[3]
        if b.op == 'glob':
            r = self.p.lookup(b.args[0] + '.' + name)
            if r is not None:
                return self.global_dotted(b.args[0] + '.' + name)
        if b.op == 'call' and name in ('x', 'y', 'z') and len(b.args) == 4 and b.args[0].op == 'glob' and \
                b.args[0].args[0].split('.')[-1] in C.POINTS:
            return b.args['xyz'.index(name) + 1]
        p = mk('attr', b, name)
        if p in self.heap:
            return self.heap[p]
        if b.op == 'obj':
            o = self.objs[b.args[0]]
            if o.escaped is not None:
                return self.attr(o.escaped, name)
            if o.kind == 'record' and name not in o.fields:
                rr = self.class_attr_default(o, name)
                if rr is not None:
                    return rr
        if b.op == 'new':
            a = b.args[1:]
            for k, v in zip(a[0::2], a[1::2]):
                if k == name:
                    return v
        if b is self.acts[-1].selfterm and self.acts[-1].cls is not None:
            cls = self.acts[-1].cls
            m = self.p.method(cls, name)
            if m is not None:
                if m.is_property:
                    if ((cls.name, name) not in self.opaque or name in self.transparent) and self.depth_inline < self.maxdepth:
                        return self.inline(m, cls, b, [], {}, None)
                    return mk('attr', b, name)
                if name.startswith('_') and (m.cls.name, name) not in self.opaque and (cls.name, name) not in self.opaque:
                    return self.method_closure(m, cls, b)
                return mk('attr', b, name)
            cc = self.p.class_const(cls, name)
            if cc is not None and isinstance(cc[1], ast.Constant) and not cc[0].is_dataclass:
                return self.ev(cc[1])
            al = self.derived(cls).get(name)
            if al is not None:
                via, meth = al
                return self.mcall(self.attr(b, via), meth, [], {})
        if name in ('size', 'rank') and self.is_comm(b):
            return mk('mcall', b, 'Get_size' if name == 'size' else 'Get_rank')
        if name in self.volatile:
            v = self.ver('cb')
            if v.args:
                return mk('attr', b, name, v)
        return p

    def is_comm(self, t):
        return (t.op == 'attr' and t.args[1] in ('comm', 'cart_comm', '_comm', '_cart_comm')) or \
            (t.op == 'param' and self.param_name(t) in ('comm', 'cart_comm'))

    def param_name(self, t):
        f = self.acts[0].func
        a = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and not f.is_static:
            a = a[1:]
        i = t.args[0]
        return a[i] if isinstance(i, int) and i < len(a) else ''

    def derived(self, cls):
        """attributes that only ever hold <other attribute>.Get_rank()/Get_size()"""
        cache = self.__dict__.setdefault('_derived', {})
        if cls in cache:
            return cache[cls]
        out = {}
        cache[cls] = out
        for c in self.p.mro(cls):
            init = c.methods.get('__init__')
            if init is None:
                continue
            params, stores = {}, {}
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and \
                        isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == 'self':
                    if isinstance(n.value, ast.Name):
                        params[n.value.id] = n.targets[0].attr
                    stores[n.targets[0].attr] = n.value
            for a, v in stores.items():
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('Get_rank', 'Get_size') and not v.args:
                    b = v.func.value
                elif isinstance(v, ast.Attribute) and v.attr in ('rank', 'size'):
                    b = v.value
                else:
                    continue
                meth = {'rank': 'Get_rank', 'size': 'Get_size'}.get(getattr(v, 'attr', None)) or v.func.attr
                via = None
                if isinstance(b, ast.Name) and b.id in params:
                    via = params[b.id]
                elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == 'self':
                    via = b.attr
                if via and via in ('comm', 'cart_comm', '_comm', '_cart_comm'):
                    nst = 0
                    for c2 in self.p.mro(cls):
                        for m in c2.methods.values():
                            for x in ast.walk(m.node):
                                if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Store) and \
                                        isinstance(x.value, ast.Name) and x.value.id == 'self':
                                    nst += 1
                    if nst == 1:
                        out[a] = (via, meth)
        return out

    def class_attr_default(self, o, name):
        return None

    def method_closure(self, m, cls, selfterm):
        if self.lamdepth > 3 or self.depth_inline > self.maxdepth:
            return mk('attr', selfterm, m.name)
        return self.closure(m.node.args, m.node.body, m.node, bound=(m, cls, selfterm))

    def closure(self, args, body, node, bound=None):
        """Normal form of a function value: its own effect summary over numbered parameters."""
        sub = type(self)(self.p, self.opaque, self.volatile, maxdepth=self.maxdepth)
        sub._derived = self.__dict__.setdefault('_derived', {})
        sub.lamdepth = self.lamdepth + 1
        sub.depth_inline = self.depth_inline + 1
        if bound:
            m, cls, st = bound
            sub.acts = self.acts[:1] + [Act(m, cls, st)]
            sub.env = {}
        else:
            a = self.acts[-1]
            na = Act(a.func, a.cls, a.selfterm)
            na.globals = a.globals
            sub.acts = [self.acts[0], na]
            sub.env = dict(self.env)
        sub.heap = {k: v for k, v in self.heap.items() if not bound or self.root_obj(k) is not None}
        sub.objs = self.objs
        sub.loopobjs = list(self.loopobjs)
        sub.nid = self.nid + 1000 * (self.lamdepth + 1)
        sub.muts = {}
        ps = [x.arg for x in args.posonlyargs + args.args]
        if bound and not bound[0].is_static:
            sub.env[ps[0]] = bound[2]
            ps = ps[1:]
        defaults = dict(zip([x.arg for x in args.posonlyargs + args.args][::-1], args.defaults[::-1]))
        for i, p in enumerate(ps):
            sub.env[p] = mk('lparam', self.lamdepth, i)
        if args.vararg:
            sub.env[args.vararg.arg] = mk('lparam', self.lamdepth, '*')
        if args.kwarg:
            sub.env[args.kwarg.arg] = mk('lparam', self.lamdepth, '**')
        if isinstance(body, list):
            sub.block(body)
            val = NONE
            for g, v in reversed(sub.acts[-1].returns):
                val = ite(g, v, val)
        else:
            val = sub.ev(body)
        self.unsupported += sub.unsupported
        evs = []
        for e in normalise_events(sub.events):
            evs.append(mk('lev', e.kind, e.head, *e.args, mk('frames', *e.frames), e.guard))
        rv = sub.render(val)
        dv = [mk('kw', p, self.render(self.ev(defaults[p]))) for p in ps if p in defaults]
        r = mk('lambda', len(ps), self.lamdepth, rv, *evs)
        # eta: lambda x: f(x) is f
        if not evs and not dv and rv.op == 'call' and len(rv.args) == 1 + len(ps) and \
                all(x is mk('lparam', self.lamdepth, i) for i, x in enumerate(rv.args[1:])):
            return rv.args[0]
        for i in [i for i in self.objs if i > self.nid + 1000 * (self.lamdepth + 1)]:
            del self.objs[i]
        return r

    def ev_Lambda(self, n):
        return self.closure(n.args, n.body, n)

    def apply(self, f, args):
        """Apply a pure function value."""
        if f.op == 'lambda' and len(f.args) == 3 and f.args[0] == len(args):
            return beta(f, args)(f.args[2])
        return self.call_term(f, args, {}, None)

    def ev_Tuple(self, n):
        return self.seq('tuple', n.elts)

    def known_items(self, v):
        """The items of a local list built up one by one."""
        if v.op != 'obj' or self.objs[v.args[0]].kind != 'list':
            return None
        src = self.iter_source(v)
        return src[1] if src[0] == 'unroll' else None

    def seq(self, kind, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                dv = self.deref(v)
                if dv.op in ('tuple', 'list'):
                    out += dv.args
                elif arity(dv) is not None:
                    out += [self.index(v, const(i)) for i in range(arity(dv))]
                elif self.known_items(v) is not None:
                    out += self.known_items(v)
                else:
                    out.append(mk('star', self.render(v)))
            else:
                out.append(self.ev(e))
        if kind == 'tuple' and out and all(x.op == 'idx' and len(x.args) == 2 and x.args[0] is out[0].args[0] and x.args[1] is const(i)
                                           for i, x in enumerate(out)) and arity(out[0].args[0]) == len(out):
            return out[0].args[0]
        return mk(kind, *out)

    def ev_List(self, n):
        return self.alloc('list', self.seq('list', n.elts))

    def ev_Set(self, n):
        return self.alloc('set', mk('set', *sorted(self.seq('tuple', n.elts).args, key=lambda t: t.dig)))

    def ev_Dict(self, n):
        kv = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v)
                dx = self.deref(x)
                if dx.op == 'dict' and not any(a.op == 'starkw' for a in dx.args):
                    kv += [(dx.args[i], dx.args[i + 1]) for i in range(0, len(dx.args), 2)]
                else:
                    kv.append((mk('starkw'), self.render(x)))
            else:
                kv.append((self.ev(k), self.ev(v)))
        if kv and all(k.op != 'starkw' for k, v in kv[:1]) and any(k.op == 'starkw' for k, v in kv):
            i = next(i for i, (k, v) in enumerate(kv) if k.op == 'starkw')
            o = self.alloc('dict', mkdict(kv[:i]))
            for k, v in kv[i:]:
                if k.op == 'starkw':
                    self.mutate(o, 'update', [v])
                else:
                    self.mutate(o, 'setitem', [k, v])
            return o
        return self.alloc('dict', mkdict(kv))

    def ev_ListComp(self, n):
        return self.comp(n, 'list')

    def ev_GeneratorExp(self, n):
        return self.comp(n, 'list')

    def ev_SetComp(self, n):
        return self.comp(n, 'set')

    def ev_DictComp(self, n):
        return self.comp(n, 'dict')

    def copied_dict(self, n):
        """{k: v for k, v in X.items() if k != c}: a copy of X, without c."""
        if len(n.generators) != 1:
            return None
        g = n.generators[0]
        t, it = g.target, g.iter
        if not (isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts) and
                isinstance(n.key, ast.Name) and isinstance(n.value, ast.Name) and n.key.id == t.elts[0].id and n.value.id == t.elts[1].id and
                t.elts[0].id != t.elts[1].id):
            return None
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and not it.args and not it.keywords):
            return None
        drop = []
        for c in g.ifs:
            if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.NotEq)):
                return None
            a, b = c.left, c.comparators[0]
            if isinstance(a, ast.Constant):
                a, b = b, a
            if not (isinstance(a, ast.Name) and a.id == t.elts[0].id and isinstance(b, ast.Constant)):
                return None
            drop.append(const(b.value))
        x = self.ev(it.func.value)
        if self.obj_of(x) is not None or not drop:
            return None
        x = self.render(x)
        o = self.alloc('dict', mk('dictof', x))
        for c in drop:
            self.branch(self.contains_(c, x), lambda: self.mutate(o, 'delitem', [c]), lambda: None)
        return o

    def comp(self, n, kind):
        if kind == 'dict':
            o = self.copied_dict(n)
            if o is not None:
                return o
        o = self.alloc(kind, mk({'list': 'list', 'set': 'set', 'dict': 'dict'}[kind]))
        env0 = dict(self.env)

        def rec(i):
            if i == len(n.generators):
                if kind == 'dict':
                    k = self.ev(n.key)
                    self.mutate(o, 'setitem', [k, self.ev(n.value)])
                else:
                    self.mutate(o, 'append' if kind == 'list' else 'add', [self.ev(n.elt)])
                return
            g = n.generators[i]

            def body():
                def inner(j):
                    if j == len(g.ifs):
                        rec(i + 1)
                        return
                    c = self.cond(g.ifs[j])
                    self.branch(c, lambda: inner(j + 1), lambda: None)
                inner(0)
            self.loop_for(g.iter, g.target, body)
        act = self.acts[-1]
        rec(0)
        # comprehension variables are local to it
        for k in list(self.env):
            if k not in env0:
                del self.env[k]
            elif any(isinstance(x, ast.Name) and x.id == k for g in n.generators for x in ast.walk(g.target)):
                self.env[k] = env0[k]
        return o

    def ev_Starred(self, n):
        return mk('star', self.ev(n.value))

    def ev_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                if v.format_spec is not None:
                    parts.append(mk('fmt', self.render(x), self.ev(v.format_spec)))
                else:
                    parts.append(self.tostr(x))
        return cat(parts)

    def tostr(self, x):
        x = self.render(x)
        if is_stringy(x):
            return x
        if is_const(x) and isinstance(x.args[0], (int, str)):
            return const(str(x.args[0]))
        if x.op == 'ite' and (is_stringy(x.args[1]) or is_stringy(x.args[2])):
            return ite(x.args[0], self.tostr(x.args[1]), self.tostr(x.args[2]))
        return mk('str', x)

    def ev_IfExp(self, n):
        c = self.cond(n.test)
        g0 = self.g
        self.g = band(g0, c)
        a = self.ev(n.body)
        self.g = band(g0, bnot(c))
        b = self.ev(n.orelse)
        self.g = g0
        return ite(c, a, b)

    def ev_BoolOp(self, n):
        # value form: a or b
        if all(self.boolish(v) for v in n.values):
            return form(self.cond(n))
        vals = n.values
        r = self.ev(vals[0])
        for v in vals[1:]:
            c = self.truthy(r)
            g0 = self.g
            self.g = band(g0, bnot(c) if isinstance(n.op, ast.Or) else c)
            x = self.ev(v)
            self.g = g0
            r = ite(c, r, x) if isinstance(n.op, ast.Or) else ite(c, x, r)
        return r

    def boolish(self, n):
        return isinstance(n, ast.Compare) or (isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not)) or \
            (isinstance(n, ast.BoolOp) and all(self.boolish(v) for v in n.values)) or \
            (isinstance(n, ast.Constant) and isinstance(n.value, bool)) or \
            (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'any', 'all', 'bool', 'callable')) or \
            (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('has_node', 'has_edge', 'contains', 'exists', 'is_requested', 'is_ghosted_to'))

    def ev_Compare(self, n):
        return form(self.cond(n))

    def ev_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return form(self.cond(n))
        v = self.ev(n.operand)
        if isinstance(n.op, ast.USub):
            return neg(self.render(v))
        if isinstance(n.op, ast.UAdd):
            return v
        return mk('invert', self.render(v))

    def ev_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        k = type(op).__name__
        a, b = self.render(a), self.render(b)
        if k in ('Add', 'Sub', 'Mult') and (a.op == 'ite' or b.op == 'ite') and count_ites(a) + count_ites(b) <= 6:
            return liftval(a, b, lambda x, y: self.binop(op, x, y))
        if k == 'Add':
            if is_stringy(a) or is_stringy(b):
                return cat([a, b])
            if is_listlike(a) or is_listlike(b):
                return concat(a, b)
            return add(a, b)
        if k == 'Sub':
            return sub(a, b)
        if k == 'Mult':
            if is_stringy(a) or is_listlike(a):
                return mk('rep', a, b)
            if is_listlike(b):
                return mk('rep', b, a)
            return mul(a, b)
        if k == 'Div':
            if is_num(b) and is_num(a) and b.args[0] != 0:
                return const(a.args[0] / b.args[0])
            return mk('div', a, b)
        if k == 'FloorDiv':
            if b is ONE:
                return a
            return mk('floordiv', a, b)
        if k == 'Mod':
            if is_stringy(a):
                return mk('pct', a, b)
            return mk('mod', a, b)
        if k == 'Pow':
            return mk('pow', a, b)
        if k in ('BitAnd', 'BitOr', 'BitXor'):
            return mk(k, *sorted((a, b), key=lambda t: t.dig))
        return mk(k, a, b)

    def ev_Subscript(self, n):
        b = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            return self.index(b, self.ev_slice(n.slice))
        k = self.ev_slicetuple(n.slice)
        return self.index(b, k)

    def ev_slicetuple(self, s):
        if isinstance(s, ast.Tuple):
            return mk('tuple', *[self.ev_slice(x) if isinstance(x, ast.Slice) else self.render(self.ev(x)) for x in s.elts])
        return self.ev(s)

    def ev_Slice(self, n):
        return self.ev_slice(n)

    def ev_slice(self, s):
        lo = self.render(self.ev(s.lower)) if s.lower is not None else ZERO
        hi = self.render(self.ev(s.upper)) if s.upper is not None else NONE
        st = self.render(self.ev(s.step)) if s.step is not None else NONE
        if lo is NONE:
            lo = ZERO
        if st is ONE:
            st = NONE
        return mk('slice', lo, hi, st)

    def index(self, b, k):
        if b.op == 'obj':
            o = self.objs[b.args[0]]
            if o.escaped is None and not o.evs and o.init is not None and o.init.op == 'res' and not self.changing(o):
                b = o.init
        if b.op == 'ite':
            return ite(b.args[0], self.index(b.args[1], k), self.index(b.args[2], k))
        if b.op == 'form':
            return mk('idx', b, k)
        k = self.render(k)
        kk = self.keyed(b, k)
        if kk == 'base':
            ob = self.objs[b.args[0]]
            b = ob.init.args[0] if ob.init.op == 'dictof' else ob.init
        elif kk.__class__ is tuple:
            return kk[1]
        if k.op == 'ite' and count_ites(k) <= 2:
            return ite(k.args[0], self.index(b, k.args[1]), self.index(b, k.args[2]))
        g = graph_of(b)
        if g is not None and g[1].__class__ is T:
            # graph[u][v] is graph.edges[u, v]
            return self.index(self.attr(g[0], 'edges'), mk('tuple', g[1], k))
        g = graph_of(b) if g is not None or b.op == 'attr' else None
        if g is not None and g[1] == 'edges' and k.op == 'tuple' and len(k.args) == 2:
            a, c = k.args
            if a.op == 'idx' and c.op == 'idx' and a.args[0] is c.args[0] and a.args[1] is ZERO and c.args[1] is ONE and a.args[2:] == c.args[2:]:
                k = a.args[0]
        if b.op == 'attr' and b.args[1] == 'shape' and k is ZERO:
            return self.do_len(b.args[0])
        if b.op == 'idx' and len(b.args) == 2 and b.args[1].op == 'slice' and is_num(k) and isinstance(k.args[0], int):
            lo, hi, st = b.args[1].args
            if is_num(lo) and st is NONE and (hi is NONE or is_num(hi)) and 0 <= k.args[0] and lo.args[0] >= 0 and \
                    (hi is NONE or lo.args[0] + k.args[0] < hi.args[0]):
                # an element of a part
                return self.index(b.args[0], const(lo.args[0] + k.args[0]))
        p = mk('idx', b, k)
        if p in self.heap:
            return self.heap[p]
        d = self.deref(b)
        if d.op in ('tuple', 'list') and not any(a.op == 'star' for a in d.args):
            if is_num(k) and isinstance(k.args[0], int) and -len(d.args) <= k.args[0] < len(d.args):
                return d.args[k.args[0]]
            if k.op == 'slice' and all(x is NONE or is_num(x) for x in k.args):
                sl = slice(*[x.args[0] for x in k.args])
                return mk(d.op, *d.args[sl])
        if k.op == 'slice' and k.args == (ZERO, NONE, NONE):
            return mk('listof', b)
        if d.op == 'dict' and is_constant(k) and not any(a.op == 'starkw' for a in d.args):
            for i in range(0, len(d.args), 2):
                if d.args[i] is k:
                    return d.args[i + 1]
        if b.op == 'obj':
            o = self.objs[b.args[0]]
            if o.escaped is not None:
                return self.index(o.escaped, k)
            return p
        if k.op == 'index':
            # X[i] where i runs over X
            if k.args[0] is b:
                return mk('elem', b, k.args[1] if len(k.args) > 1 else 0)
        if b.op == 'slice_' or b.op == 'listof' and is_num(k):
            pass
        v = self.slot_ver(b) if not (b.op in ('elem', 'tuple', 'res', 'call') or is_value_path(b)) else mk('ver')
        if v.args:
            return mk('idx', b, k, v)
        return p

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        self.env[n.target.id] = v
        return v

    def ev_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        self.emit('yield', mk('yield'), [v], n, {'flow', 'cb'})
        return mk('sent')

    def ev_YieldFrom(self, n):
        src = self.iter_source(self.ev(n.value))
        self.run_source(src, lambda e: self.emit('yield', mk('yield'), [e], n, {'flow', 'cb'}))
        return mk('sent')

    # ---------------------------------------------------------------- calls
    def ev_Call(self, n, stmt=False):
        f = n.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and \
                f.value.func.id == 'super':
            args, kw = self.call_args(n)
            return self.super_call(f.attr, args, kw, n)
        if isinstance(f, ast.Name) and f.id not in self.env:
            b = getattr(self, 'bi_' + f.id, None)
            if b is not None and f.id not in self.acts[-1].func.module.funcs and f.id not in self.acts[-1].func.module.imports:
                r = b(n)
                if r is not None:
                    return r
        if isinstance(f, ast.Name) and f.id in C.IGNORED_CALLS and f.id not in self.env:
            return NONE
        if isinstance(f, ast.Attribute):
            d = self.dotted(f)
            if d is None:
                if isinstance(f.value, ast.Name) and f.value.id in C.IGNORED_HEADS and f.value.id not in self.env:
                    return NONE
                recv = self.ev(f.value)
                args, kw = self.call_args(n)
                if recv.op == 'glob' and (recv.args[0] in self.p.modules or not recv.args[0].startswith(self.p.pkg)) and \
                        recv.args[0][:1].islower():
                    # a module held in a variable
                    return self.gcall(self.p.canonical(recv.args[0] + '.' + f.attr), args, kw, n, stmt)
                return self.mcall(recv, f.attr, args, kw, n, stmt)
            args, kw = self.call_args(n)
            return self.gcall(self.p.canonical(d), args, kw, n, stmt)
        if isinstance(f, ast.Name) and f.id not in self.env:
            d = self.p.resolve_in(self.acts[-1].func.module, f.id)
            args, kw = self.call_args(n)
            return self.gcall(d, args, kw, n, stmt)
        fv = self.ev(f)
        args, kw = self.call_args(n)
        return self.call_term(fv, args, kw, n, stmt)

    def call_args(self, n):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                dv = self.deref(v)
                if dv.op in ('tuple', 'list') and not any(x.op == 'star' for x in dv.args):
                    args += dv.args
                elif arity(dv) is not None:
                    args += [self.index(v, const(i)) for i in range(arity(dv))]
                elif self.known_items(v) is not None:
                    args += self.known_items(v)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw['**'] = self.ev(k.value)
            else:
                kw[k.arg] = self.ev(k.value)
        return args, kw

    def kwterms(self, kw):
        out = []
        for k in sorted(kw):
            x = mk('kw', k, self.render(kw[k]))
            if x is not NO_KW:
                out.append(x)
        return out

    def super_call(self, name, args, kw, n):
        act = self.acts[-1]
        cur = act.func.cls
        mro = self.p.mro(act.cls)
        i = mro.index(cur) if cur in mro else 0
        for c in mro[i + 1:]:
            if name in c.methods:
                m = c.methods[name]
                return self.inline(m, act.cls, act.selfterm, args, kw, n)
        if name == '__init__' and not args and not kw:
            return NONE
        head = mk('super', name)
        self.emit('call', head, [self.render(a) for a in args] + self.kwterms(kw), n, {'self'})
        return mk('res', 'super.' + name)

    def bind(self, func, args, kw, has_self):
        """Positional list for a known signature (defaults filled in), or None."""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if has_self and names:
            names = names[1:]
        if a.vararg or any(t.op == 'star' for t in args) or '**' in kw:
            return None
        defaults = dict(zip([x.arg for x in a.posonlyargs + a.args][::-1], a.defaults[::-1]))
        out = []
        kw = dict(kw)
        for i, nme in enumerate(names):
            if i < len(args):
                out.append(args[i])
            elif nme in kw:
                out.append(kw.pop(nme))
            elif nme in defaults:
                saved = self.env
                self.env = {}
                self.acts.append(Act(func, func.cls, NONE))
                try:
                    out.append(self.ev(defaults[nme]))
                finally:
                    self.acts.pop()
                    self.env = saved
            else:
                return None
        if kw and not a.kwarg:
            return None
        return out, kw

    def inline(self, func, cls, selfterm, args, kw, n):
        if self.depth_inline >= self.maxdepth or sum(1 for a in self.acts if a.func is func) >= 2:
            return self.opaque_call(mk('glob', func.qual), args, kw, n, {'call:' + func.qual})
        self.depth_inline += 1
        saved_env, saved_cur = self.env, self.curnode
        act = Act(func, cls, selfterm)
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        self.acts.append(act)
        g0 = self.g
        try:
            if func.cls is not None and not func.is_static and names:
                env[names[0]] = selfterm
                names = names[1:]
            defaults = dict(zip([x.arg for x in a.posonlyargs + a.args][::-1], a.defaults[::-1]))
            rest = list(args)
            kw = dict(kw)
            star = None
            for i, t in enumerate(rest):
                if t.op == 'star':
                    star = i
                    break
            for i, nm in enumerate(names):
                if star is not None and i >= star:
                    env[nm] = self.index(rest[star].args[0], const(i - star)) if nm not in kw else kw.pop(nm)
                elif i < len(rest):
                    env[nm] = rest[i]
                elif nm in kw:
                    env[nm] = kw.pop(nm)
                elif nm in defaults:
                    self.env = {}
                    env[nm] = self.ev(defaults[nm])
                else:
                    env[nm] = kw['**'] if '**' in kw else mk('missing', nm)
            if a.vararg:
                env[a.vararg.arg] = mk('tuple', *rest[len(names):])
            for i, x in enumerate(a.kwonlyargs):
                if x.arg in kw:
                    env[x.arg] = kw.pop(x.arg)
                elif a.kw_defaults[i] is not None:
                    self.env = {}
                    env[x.arg] = self.ev(a.kw_defaults[i])
            if a.kwarg:
                if set(kw) == {'**'}:
                    env[a.kwarg.arg] = kw['**']
                    if _edits_keys(func.node, a.kwarg.arg):
                        env[a.kwarg.arg] = self.alloc('dict', self.render(kw['**']))
                else:
                    env[a.kwarg.arg] = mkdict([(const(k), self.render(v)) for k, v in kw.items() if k != '**']) if kw else mk('dict')
            self.env = env
            saved_loops = self.loops
            self.loops = list(self.loops)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_own(func.node)):
                r = self.inline_gen(func, act)
            else:
                self.block(func.node.body)
                alive = self.g
                r = NONE
                for g, v in reversed(act.returns):
                    r = ite(bconstrain(g, g0), v, r)
                self.g = bor(alive, *[g for g, _ in act.returns])
            self.loops = saved_loops
        finally:
            self.acts.pop()
            self.env, self.curnode = saved_env, saved_cur
            self.depth_inline -= 1
        for m, c in act.gone:
            self.merge_history(m, c)
        return r

    def inline_gen(self, func, act):
        o = self.alloc('list', mk('list'))
        saved = self.emit
        interp = self

        def emit(kind, head, args, node=None, res=None, guard=None, wver=None):
            if kind == 'yield' and interp.acts[-1] is act:
                interp.mutate(o, 'append', args)
                return None
            return saved(kind, head, args, node, res, guard)
        self.emit = emit
        try:
            self.block(func.node.body)
        finally:
            self.emit = saved
        self.g = bor(self.g, *[g for g, _ in act.returns])
        return o

    # --- calls of names
    def gcall(self, d, args, kw, n, stmt=False):
        r = self.p.lookup(d)
        if isinstance(r, Func) and r.cls is None:
            if ((None, r.name) in self.opaque or (r.module.name, r.name) in self.opaque) and r.name not in self.transparent:
                b = self.bind(r, args, kw, False)
                if b is not None:
                    args, kw = b
                return self.opaque_call(mk('glob', r.qual), args, kw, n, {'call:' + r.qual})
            return self.inline(r, None, NONE, args, kw, n)
        if isinstance(r, Func) and r.cls is not None:
            if r.is_static:
                return self.inline(r, r.cls, NONE, args, kw, n)
            # Class.method(self, ...)
            if args:
                return self.inline(r, r.cls, args[0], args[1:], kw, n)
        if isinstance(r, Class):
            return self.construct(r, args, kw, n)
        if d in C.IGNORED_CALLS or d.split('.')[0] in ('warnings', 'logging'):
            return NONE
        last = d.rsplit('.', 1)[-1]
        if d.startswith('itertools.') or d.startswith('functools.') or d.startswith('operator.'):
            x = self.itertools(last, args, kw)
            if x is not None:
                return x
        if d.startswith('collections.') and last in ('OrderedDict', 'defaultdict', 'deque', 'Counter'):
            if not args:
                return self.alloc('dict' if last != 'deque' else 'list', mk('dict' if last != 'deque' else 'list'))
            if last == 'defaultdict':
                return self.alloc('dict', mk('call', mk('glob', d), *[self.render(a) for a in args]))
        if d == 'copy.copy' and len(args) == 1:
            return self.mcall(args[0], 'copy', [], {}, n)
        if d in ('numpy.zeros', 'numpy.empty', 'numpy.full', 'numpy.array', 'numpy.ones', 'numpy.arange'):
            t = mk('call', mk('glob', d), *[self.render(a) for a in args], *self.kwterms(kw))
            return self.alloc('arr', t)
        if d in C.ARG0_MUTATORS:
            tgt = args[0]
            rest = [self.render(a) for a in args[1:]]
            o = self.obj_of(tgt)
            if o is not None:
                self.mutate(tgt, last, rest)
                return mk('res', last, self.render(tgt))
            rs = {self.resource(tgt)}
            rv = mk('res', last, self.render(tgt), self.ver(rs))
            self.emit('mut', mk('meth', tgt, last), rest, n, rs)
            self.note_mut(rs, mk('m', last, strip_ver(self.render(tgt)), *[strip_ver(x) for x in rest]))
            return rv
        if d.startswith('numpy.random') or d.startswith('torch.rand') or d.startswith('random.') or 'default_rng.' in d or \
                d in ('torch.manual_seed', 'numpy.random.seed'):
            return self.rng_call(mk('glob', d), args, kw, n)
        if '.' in d:
            head = d.rsplit('.', 1)[0]
            # a method of an object stored in a module
            h = self.p.lookup(head)
            if isinstance(h, tuple) or isinstance(h, Class):
                return self.mcall(self.global_dotted(head), last, args, kw, n, stmt)
        if d in C.IMPURE_FUNCS or d == 'open' or not (d.startswith(C.PURE_FUNCS_PREFIX) or '.' not in d):
            return self.opaque_call(mk('glob', d), args, kw, n, {'call:' + d})
        if '.' not in d and d not in PURE_BUILTINS:
            return self.opaque_call(mk('glob', d), args, kw, n, {'call:' + d})
        return self.pure_call(mk('glob', d), args, kw)

    def pure_call(self, head, args, kw):
        if head.op == 'glob' and head.args[0].endswith('.BoundingBox') and kw and len(args) < 6:
            full = dict(zip(BOX_FIELDS, args))
            if not set(kw) & set(full) and set(kw) <= set(BOX_FIELDS):
                full.update(kw)
                if len(full) > 3 and set(BOX_FIELDS[:len(full)]) == set(full):
                    args, kw = [full[k] for k in BOX_FIELDS[:len(full)]], {}
        ra = [self.render(a) for a in args]
        if head.op == 'glob' and head.args[0] == 'bool' and len(args) == 1 and not kw:
            return form(self.truthy(args[0]))
        if head.op == 'glob' and head.args[0] in SEQ_ARG0 and ra and ra[0].op == 'list':
            ra[0] = mk('tuple', *ra[0].args)
        return mk('call', head, *ra, *self.kwterms(kw))

    def itertools(self, name, args, kw):
        if name == 'chain':
            if len(args) == 1 and args[0].op == 'star':
                return mk('chainstar', args[0].args[0])
            return mk('call', mk('glob', 'itertools.chain'), *[self.render(a) for a in args])
        if name == 'from_iterable':
            return mk('chainstar', args[0])
        return None

    def rng_call(self, head, args, kw, n):
        name = head.args[-1] if head.op == 'meth' else head.args[0].rsplit('.', 1)[-1]
        ra = [self.render(a) for a in args]
        e = self.emit('call', head, ra + self.kwterms(kw), n, {'rng:torch' if head.op == 'glob' and head.args[0].startswith('torch.') else 'rng'} |
                      {self.resource(a) for a in args if a.op != 'const' and head.op != 'glob'})
        k = ('rng', head)
        c = self.counts[k] = self.counts.get(k, 0) + 1
        if name in ('shuffle',) and args:
            o = self.obj_of(args[0])
            if o is not None or args[0].op == 'ite':
                self.mutate(args[0], 'shuffled', [])
            else:
                self.note_mut({self.resource(args[0])}, mk('m', 'shuffle', strip_ver(ra[0])))
            return NONE
        return mk('res', 'rng', head, c, *ra, *self.kwterms(kw))

    def construct(self, cls, args, kw, n):
        if cls.is_dataclass:
            o = self.alloc('record', None, cls.name)
            ob = self.objs[o.args[0]]
            names = [f for f, _ in cls.fields]
            kw = dict(kw)
            for i, (f, dflt) in enumerate(cls.fields):
                if i < len(args):
                    v = args[i]
                elif f in kw:
                    v = kw.pop(f)
                elif dflt is not None:
                    v = self.field_default(cls, dflt)
                else:
                    v = mk('missing', f)
                ob.fields.append(f)
                self.heap[mk('attr', o, f)] = v
            return o
        if cls.name in C.INLINE_CLASSES or (cls.name.startswith('_') and not cls.name.startswith('_Impl')):
            o = self.alloc('inst', mk('inst', cls.name), cls.name)
            init = self.p.method(cls, '__init__')
            self.objs[o.args[0]].cls = cls.name
            self.objs[o.args[0]].kind = 'inst'
            self.inst_cls = self.__dict__.setdefault('inst_cls', {})
            self.inst_cls[o.args[0]] = cls
            if init is not None:
                self.inline(init, cls, o, args, kw, n)
            return o
        if cls.is_enum and len(args) == 1:
            return args[0]
        init = self.p.method(cls, '__init__')
        if init is not None:
            b = self.bind(init, args, kw, True)
            if b is not None:
                args, kw = b
        if cls.name == 'SharedScheduleRunner' or True:
            return mk('call', mk('glob', f'{cls.module.name}.{cls.name}'), *[self.render(a) for a in args], *self.kwterms(kw))

    def field_default(self, cls, node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'field':
            for k in node.keywords:
                if k.arg == 'default_factory':
                    if isinstance(k.value, ast.Name) and k.value.id in ('list', 'dict', 'set'):
                        return self.alloc(k.value.id, mk(k.value.id))
                    return self.ev(ast.Call(k.value, [], []))
                if k.arg == 'default':
                    return self.ev(k.value)
            return mk('missing', 'f')
        saved = self.env
        self.env = {}
        self.acts.append(Act(Func('<cls>', ast.FunctionDef('<cls>', ast.arguments([], [], None, [], [], None, []), [], []), cls.module, cls), cls, NONE))
        try:
            return self.ev(node)
        finally:
            self.acts.pop()
            self.env = saved

    def call_term(self, f, args, kw, n, stmt=False):
        """Call of a function value."""
        if f.op == 'lambda' and f.args[0] == len(args) and not kw:
            put = beta(f, [self.render(a) for a in args])
            if len(f.args) == 3:
                return put(f.args[2])
            for lev in f.args[3:]:
                kind, head, rest = lev.args[0], lev.args[1], lev.args[2:]
                a, fr, g = rest[:-2], rest[-2], rest[-1]
                sv = self.frames, self.g
                self.frames = self.frames + [put(x) for x in fr.args]
                self.g = band(self.g, put(g))
                if self.g is not BF:
                    self.emit(kind, put(head), [put(x) for x in a], n)
                self.frames, self.g = sv
            return put(f.args[2])
        if f.op == 'ite':
            c, x, y = f.args
            g0 = self.g
            out = []
            res = [None, None]

            def th():
                res[0] = self.call_term(x, args, kw, n, stmt)

            def el():
                res[1] = self.call_term(y, args, kw, n, stmt)
            self.branch(c, th, el)
            if res[0] is None:
                return res[1]
            if res[1] is None:
                return res[0]
            return ite(c, res[0], res[1])
        if f.op == 'glob':
            return self.gcall(f.args[0], args, kw, n, stmt)
        if f.op == 'attr' and f.args[0].op not in ('elem',):
            # method value
            return self.mcall(f.args[0], f.args[1], args, kw, n, stmt)
        return self.opaque_call(f, args, kw, n, {'user', 'cb'})

    def opaque_call(self, head, args, kw, n, res, cb=False):
        ra = [self.render(a) for a in args] + self.kwterms(kw)
        self.emit('call', head, ra, n, res)
        self.note_mut(res, mk('m', 'call', strip_ver(self.render(head)), *[strip_ver(a) for a in ra]))
        if head.op in ('param', 'elem', 'idx', 'attr', 'mu', 'self'):
            self.note_mut({'cb'}, mk('m', 'cb', strip_ver(self.render(head)), *[strip_ver(a) for a in ra]))
        k = ('call', head) + tuple(ra)
        c = self.counts.get(k, 0)
        self.counts[k] = c + 1
        for a in args:
            self.passed(a, head)
        return mk('res', 'call', self.render(head), *ra, c) if c else mk('res', 'call', self.render(head), *ra)

    def passed(self, a, head):
        if a.op == 'obj':
            o = self.objs[a.args[0]]
            if o.escaped is None and o.kind in ('list', 'dict', 'set'):
                h = head.args[1] if head.op == 'meth' else show(head)
                self.order += 1
                o.evs.append(('passed:' + str(h), a, (), tuple(self.frames), self.g, self.order, self.loc(self.curnode)))

    # --- method calls
    def mcall(self, recv, name, args, kw, n=None, stmt=False):
        if recv.op == 'ite' and name not in ('save',):
            c, x, y = recv.args
            res = [None, None]

            def th():
                res[0] = self.mcall(x, name, args, kw, n, stmt)

            def el():
                res[1] = self.mcall(y, name, args, kw, n, stmt)
            self.branch(c, th, el)
            if res[0] is None:
                return res[1] if res[1] is not None else NONE
            if res[1] is None:
                return res[0]
            return ite(c, res[0], res[1])
        act = self.acts[-1]
        # own methods
        if recv is act.selfterm and act.cls is not None:
            m = self.p.method(act.cls, name)
            if m is not None and recv.op != 'const':
                op = ((act.cls.name, name) in self.opaque or (m.cls.name, name) in self.opaque) and name not in self.transparent
                if (recv is not SELF or (not op and (name.startswith('_') or name in self.inline_public(act.cls)))):
                    return self.inline(m, act.cls, recv, args, kw, n)
                b = self.bind(m, args, kw, True)
                if b is not None:
                    args, kw = b
                if name in C.PURE_METHODS and name not in C.MUTATORS:
                    return self.pure_mcall(recv, name, args, kw)
                return self.effect_mcall(recv, name, args, kw, n, C.EFFECTS.get(name, set()) | {'self', 'self.' + name})
            h = self.heap.get(mk('attr', recv, name))
            if h is not None and h.op in ('lambda',):
                return self.call_term(h, args, kw, n)
        if recv.op == 'obj':
            o = self.objs[recv.args[0]]
            if o.kind == 'inst' and o.escaped is None:
                cls = self.__dict__.get('inst_cls', {}).get(recv.args[0])
                m = self.p.method(cls, name) if cls else None
                if m is not None:
                    return self.inline(m, cls, recv, args, kw, n)
        # points
        if name in ('_reset', '_reset1D', '_reset2D', '_reset3D') and recv.op == 'obj' and self.objs[recv.args[0]].cls in C.POINTS:
            vals = args
            if name == '_reset':
                vals = [self.index(args[0], const(i)) for i in range(3)]
            for f, v in zip('xyz', vals):
                self.store(mk('attr', recv, f), self.render(v))
            return NONE
        if is_graph(recv):
            r = self.graph_call(recv, name, args, kw)
            if r is not None:
                return r
            if name == 'out_edges':
                name = 'edges'
            elif name == 'successors':
                name = 'neighbors'
        # canonical signatures of interfaces
        sig = self.iface(name)
        if sig is not None and (recv.op != 'obj'):
            b = self.bind(sig, args, kw, True)
            if b is not None:
                args, kw = b
        r = self.dict_list_method(recv, name, args, kw, n, stmt)
        if r is not None:
            return r
        if name == 'get_ghost' and len(args) == 2 and args[1] is ZERO:
            return self.pure_mcall(recv, name, args, kw, {'_ghost_agents'})
        if name in C.READS:
            return self.pure_mcall(recv, name, args, kw, C.READS[name])
        if name in C.PURE_OPAQUE:
            return self.pure_mcall(recv, name, args, kw)
        if name in C.COLLECTIVES and (self.is_comm(recv) or name not in ('gather', 'reduce', 'scan', 'Create', 'Split', 'Dup')):
            return self.collective(recv, name, args, kw, n)
        if name in C.RNG_METHODS and (self.is_rng(recv)):
            return self.rng_call(mk('meth', self.render(recv), name), args, kw, n)
        if name in C.PURE_METHODS and name not in C.EFFECTS:
            return self.pure_mcall(recv, name, args, kw)
        if name in C.MUTATORS and name not in C.EFFECTS and not self.is_projlike(recv):
            o = self.obj_of(recv)
            if o is not None:
                self.mutate(recv, name, [a if self.keepref(a, o) else self.render(a) for a in args] + self.kwterms(kw))
                return mk('res', 'meth', name)
            rs = {self.resource(recv)}
            rv = mk('res', 'meth', self.render(recv), name, *[self.render(a) for a in args], self.ver(rs))
            self.mutate(recv, name, [self.render(a) for a in args] + self.kwterms(kw), n)
            return rv
        return self.effect_mcall(recv, name, args, kw, n, C.EFFECTS.get(name, set()) | {self.resource(recv)})

    def graph_call(self, g, name, args, kw):
        """networkx: one form for each question"""
        if kw:
            return None
        if name == 'order' and not args:
            return self.pure_mcall(g, 'number_of_nodes', [], {})
        if name == 'size' and not args:
            return self.pure_mcall(g, 'number_of_edges', [], {})
        if name in ('out_degree', 'in_degree', 'degree') and len(args) == 1:
            cls = self.acts[-1].cls
            i = self.do_len(self.pure_mcall(g, 'in_edges', args, {}))
            o = self.do_len(self.pure_mcall(g, 'edges', args, {}))
            if name == 'degree':
                return add(i, o) if cls is not None and 'Undirected' not in cls.name and 'Directed' in cls.name else o
            return i if name == 'in_degree' else o
        if name == 'get_edge_data' and len(args) == 2:
            return self.index(self.attr(g, 'edges'), mk('tuple', *args))
        if name == 'has_predecessor' and len(args) == 2:
            return self.pure_mcall(g, 'has_edge', [args[1], args[0]], {})
        if name == 'has_successor' and len(args) == 2:
            return self.pure_mcall(g, 'has_edge', args, {})
        if name == '__contains__' and len(args) == 1:
            return self.pure_mcall(g, 'has_node', args, {})
        return None

    def keepref(self, a, o):
        # an instance put in a list outside loops is still that instance
        if a.op == 'obj' and a.args[0] in self.objs:
            x = self.objs[a.args[0]]
            if x.kind in ('list', 'dict', 'set') and x.escaped is None and x is not o and tuple(x.frames) == tuple(self.frames):
                # a container made in the same pass and put in another one: later changes of it show there
                return True
            return x.kind == 'inst' and x.escaped is None and x.frames == tuple(self.frames) == o.frames
        return False

    def inline_public(self, cls):
        return self.transparent

    def is_projlike(self, t):
        return False

    def is_rng(self, t):
        s = self.resource(t)
        return 'rng' in s or s.startswith('arg') or 'random' in s or 'bit_generator' in s or t.op in ('param', 'lparam', 'ite', 'glob')

    def iface(self, name):
        cache = self.__dict__.setdefault('_iface', {})
        if name not in cache:
            found = []
            for m in self.p.modules.values():
                for c in m.classes.values():
                    if name in c.methods and c.name in ('AgentManager', 'SharedContext', 'SharedScheduleRunner', 'Schedule', 'ScheduleGroup'):
                        found.append(c.methods[name])
            cache[name] = found[0] if found and name not in C.MUTATORS and name not in ('size', 'execute', 'tick', 'next_tick', 'stop') else None
        return cache[name]

    def pure_mcall(self, recv, name, args, kw, reads=None):
        if name == '__iter__':
            return mk('mcall', recv, name) if recv.op == 'mcall' else recv
        if name == '__contains__':
            return form(self.contains_(args[0], recv))
        if name == '__len__':
            return self.do_len(recv)
        if name == '__getitem__':
            return self.index(recv, args[0])
        rr = self.render(recv)
        rs = set(reads or ())
        rs.add(self.resource(recv))
        v = self.ver(rs) if name not in ('Get_rank', 'Get_size', 'save') else mk('ver')
        if name in C.GRAPH_READS:
            for i, x in enumerate(args):
                if x.op == 'ite':
                    return ite(x.args[0], self.pure_mcall(recv, name, args[:i] + [x.args[1]] + args[i + 1:], kw, reads),
                               self.pure_mcall(recv, name, args[:i] + [x.args[2]] + args[i + 1:], kw, reads))
        a = [self.render(x) for x in args] + self.kwterms(kw)
        if name in ('copy',) and is_const(rr):
            return rr
        if name in ('get', 'items', 'keys', 'values') and recv.op == 'obj' and self.objs[recv.args[0]].escaped is None:
            return mk('mcall', recv, name, *a)
        r = mk('mcall', rr, name, *a, v) if v.args else mk('mcall', rr, name, *a)
        return form(truthy(r)) if name in C.BOOL_METHODS else r

    def effect_mcall(self, recv, name, args, kw, n, res):
        rr = self.render(recv)
        ra = [self.render(a) for a in args] + self.kwterms(kw)
        head = mk('meth', rr, name)
        res = set(res)
        v = self.ver(res - {'self', 'comm'})
        self.emit('call', head, ra, n, res)
        self.note_mut(res, mk('m', name, strip_ver(rr), *[strip_ver(a) for a in ra]))
        if not name.startswith('_') and rr.op in ('elem', 'param', 'idx'):
            self.note_mut({'cb'}, mk('m', 'cb', name, strip_ver(rr)))
        if name in ('execute', 'execute_evts'):
            self.note_mut({'cb'}, mk('m', 'cb', name, strip_ver(rr)))
        for a in args:
            self.passed(a, head)
        k = ('m', head) + tuple(ra)
        c = self.counts.get(k, 0)
        self.counts[k] = c + 1
        if name in ('tag_as_ghosted', 'get_ghost', 'delete_ghosted', 'remove_local', 'delete_local', 'reduce'):
            return mk('res', 'meth', rr, name, *ra)
        return mk('res', 'meth', rr, name, *ra, c) if c else mk('res', 'meth', rr, name, *ra)

    def collective(self, recv, name, args, kw, n):
        rr = self.render(recv)
        ra = [self.render(a) for a in args] + self.kwterms(kw)
        ra = comm_signature(name, ra)
        k = ('coll', rr)
        c = self.counts.get(k, 0)
        self.counts[k] = c + 1
        self.emit('call', mk('meth', rr, name), ra, n, {'comm'})
        if name in ('Alltoall', 'Alltoallv', 'Allreduce', 'Reduce', 'Gather', 'Allgather') and len(args) > 1:
            for a in args[1:2]:
                # a vector exchange fills the buffer of its message; counts and displacements stay
                self.note_mut({self.resource(a)}, mk('m', name, strip_ver(self.render(mk('idx', a, ZERO)))) if name == 'Alltoallv' else
                              mk('m', name, rr))
        if name in ('allreduce',):
            return mk('res', 'coll', name, rr, *ra)
        r = mk('res', 'coll', name, rr, c)
        if name in ('gather', 'reduce') and len(ra) > 1 and ra[-1].op == 'const':
            # only the root receives a value
            return ite(eqterm(self.pure_mcall(recv, 'Get_rank', [], {}), ra[-1]), r, NONE)
        if name in ('alltoall', 'allgather'):
            return self.alloc('list', r)
        return r

    def dict_list_method(self, recv, name, args, kw, n, stmt):
        """Containers: one normal form for each operation.  None if not applicable."""
        if name == 'get' and 1 <= len(args) <= 2 and not kw:
            d = args[1] if len(args) > 1 else NONE
            return ite(self.contains_(args[0], recv), self.index(recv, args[0]), d)
        if name == 'setdefault' and len(args) == 2:
            k = self.render(args[0])
            c = self.contains_(k, recv)
            g0 = self.g
            old = self.index(recv, k)
            d = args[1]

            def st():
                self.mutate(recv, 'setitem', [k, d])
            self.branch(c, lambda: None, st)
            dv = self.render(d)
            return ite(c, mk('idx', self.render(recv) if recv.op != 'obj' else recv, k), mk('idx', self.render(recv) if recv.op != 'obj' else recv, k)) if True else old
        if name == 'pop' and args and not kw:
            # dict pop / list pop
            k = self.render(args[0])
            if len(args) == 2:
                c = self.contains_(k, recv)
                old = self.index(recv, k)
                self.branch(c, lambda: self.mutate(recv, 'delitem', [k], n), lambda: None)
                return ite(c, old, args[1])
            old = self.index(recv, k)
            self.mutate(recv, 'delitem', [k], n)
            return old
        if name == 'pop' and not args:
            old = self.index(recv, const(-1))
            self.mutate(recv, 'delitem', [const(-1)], n)
            return old
        if name == '__setitem__' and len(args) == 2:
            self.store_idx(recv, args[0], args[1])
            return NONE
        if name == '__delitem__':
            self.do_del(recv, args[0])
            return NONE
        if name == 'extend' and len(args) == 1:
            self.extend(recv, args[0])
            return NONE
        if name == 'clear' and not args:
            self.mutate(recv, 'clear', [], n)
            return NONE
        if name == 'update' and len(args) == 1 and args[0].op in ('obj', 'dict') and not kw:
            d = self.deref(args[0])
            if d.op == 'dict' and not any(x.op == 'starkw' for x in d.args):
                for i in range(0, len(d.args), 2):
                    self.store_idx(recv, d.args[i], d.args[i + 1])
                return NONE
        if name == 'update' and len(args) == 1 and not kw and args[0].op == 'obj' and self.objs[args[0].args[0]].escaped is None and \
                self.objs[args[0].args[0]].kind == 'dict' and is_emptyish(self.objs[args[0].args[0]].init) and not self.changing(self.objs[args[0].args[0]]):
            o = self.objs[args[0].args[0]]
            nf = len(o.frames)
            if len(o.evs) == 1 and o.evs[0][0] == 'setitem' and o.evs[0][1] is args[0] and len(o.evs[0][3]) > nf and o.evs[0][3][:nf] == o.frames \
                    and all(f.op == 'frame' for f in o.evs[0][3][nf:]):
                e = o.evs[0]
                self.run_source(('flat', (e[3][nf:], bconstrain(e[4], o.guard), mk('tuple', *e[2]))),
                                lambda e: self.store_idx(recv, self.index(e, ZERO), self.index(e, ONE)))
                return NONE
        if name == 'update' and len(args) == 1 and not kw and args[0].op == 'param' and args[0].args[0] == '**' and self.obj_of(recv) is None:
            m = args[0]
            self.run_source(self.iter_source(mk('mcall', m, 'items')), lambda e: self.store_idx(recv, self.index(e, ZERO), self.index(e, ONE)))
            return NONE
        if name in ('remove_nodes_from', 'add_nodes_from', 'remove_edges_from') and len(args) == 1 and not kw:
            one = name[:name.index('_from') - 1]

            def each(e):
                xs = [e] if 'node' in one else [self.index(e, ZERO), self.index(e, ONE)]
                self.mcall(recv, one, xs, {}, n, True)
            self.run_source(self.iter_source(args[0]), each)
            return NONE
        if name == 'write' and len(args) == 1 and self.obj_of(recv) is None:
            self.write(recv, args[0], n)
            return NONE
        if name == 'writelines' and len(args) == 1:
            self.run_source(self.iter_source(args[0]), lambda e: self.write(recv, e, n))
            return NONE
        if name == 'writerows' and len(args) == 1:
            self.run_source(self.iter_source(args[0]), lambda e: self.mutate(recv, 'writerow', [e], n))
            return NONE
        if name == 'join' and is_const(recv) and len(args) == 1:
            return mk('join', recv, self.render(args[0]))
        if name == 'format' and is_const(recv) and not kw and isinstance(recv.args[0], str):
            parts = recv.args[0].split('{}')
            if len(parts) == len(args) + 1 and '{' not in ''.join(parts):
                out = []
                for i, p in enumerate(parts):
                    out.append(const(p))
                    if i < len(args):
                        out.append(self.tostr(args[i]))
                return cat(out)
        if name == 'Get_rank' or name == 'Get_size':
            return mk('mcall', self.render(recv), name)
        if name == 'insert' and len(args) == 2 and args[0] is ZERO and False:
            pass
        return None

    def write(self, recv, v, n):
        v = self.render(v)
        if v.op == 'ite':
            c, a, b = v.args
            self.branch(c, lambda: self.write(recv, a, n), lambda: self.write(recv, b, n))
            return
        if v.op == 'const' and v.args[0] == '':
            return
        if v.op == 'cat':
            for x in v.args:
                self.write(recv, x, n)
            return
        self.emit('mut', mk('meth', recv, 'write'), [v if is_stringy(v) else v], n, {'file', self.resource(recv)})

    # --- builtins
    def bi_len(self, n):
        return self.do_len(self.ev(n.args[0]))

    def do_len(self, x):
        d = self.deref(x)
        if d.op in ('tuple', 'list') and not any(a.op == 'star' for a in d.args):
            return const(len(d.args))
        if d.op == 'ite':
            return ite(d.args[0], self.do_len(d.args[1]), self.do_len(d.args[2]))
        if is_const(d) and isinstance(d.args[0], str):
            return const(len(d.args[0]))
        g = graph_of(d)
        if g is not None and g[1] in ('graph', 'nodes', 'edges'):
            return self.pure_mcall(g[0], 'number_of_edges' if g[1] == 'edges' else 'number_of_nodes', [], {})
        if d.op == 'mcall' and d.args[1] in ('keys', 'values', 'items'):
            return self.do_len(d.args[0])
        if d.op == 'listof':
            return self.do_len(d.args[0])
        if x.op == 'obj' and self.objs[x.args[0]].escaped is None:
            return mklen(self.render(x))
        v = self.ver(self.resource(d))
        if v.args and d.op in ('attr', 'idx', 'param', 'glob'):
            return mk('len', self.render(d), v)
        return mklen(self.render(d))

    def bi_isinstance(self, n):
        x = self.render(self.ev(n.args[0]))
        ty = n.args[1]
        tys = [ast.unparse(e) for e in ty.elts] if isinstance(ty, ast.Tuple) else [ast.unparse(ty)]
        return form(bor(*[batom(mk('isa', x, t.split('.')[-1])) for t in tys]))

    def bi_range(self, n):
        a = [self.render(self.ev(x)) for x in n.args]
        if len(a) == 1:
            a = [ZERO, a[0], ONE]
        elif len(a) == 2:
            a = [a[0], a[1], ONE]
        return mk('range_', *a)

    def bi_enumerate(self, n):
        x = self.ev(n.args[0])
        st = ZERO
        if len(n.args) > 1:
            st = self.ev(n.args[1])
        for k in n.keywords:
            if k.arg == 'start':
                st = self.ev(k.value)
        return mk('enum_', x, st)

    def bi_zip(self, n):
        return mk('zip_', *[self.ev(a) for a in n.args])

    def bi_filter(self, n):
        f, x = self.ev(n.args[0]), self.ev(n.args[1])
        return mk('filter_', f, x)

    def bi_map(self, n):
        if len(n.args) == 2:
            return mk('map_', self.ev(n.args[0]), self.ev(n.args[1]))
        return None

    def bi_list(self, n):
        if not n.args:
            return self.alloc('list', mk('list'))
        return self.tolist(self.ev(n.args[0]), 'list')

    def tolist(self, x, kind):
        if x.op in ('filter_', 'map_', 'enum_', 'zip_', 'range_', 'chainstar') or x.op == 'obj' or x.op == 'mcall' and x.args[1] in ('items', 'values'):
            if x.op == 'mcall':
                x = self.render(x)
                o = self.alloc('list', mk('listof', x))
                return o
            if x.op == 'obj' and self.objs[x.args[0]].kind in ('list', 'set', 'dict') and self.objs[x.args[0]].escaped is None:
                d = self.deref(x)
                if d.op in ('list', 'tuple'):
                    return self.alloc('list', mk('list', *d.args))
                return self.alloc('list', mk('listof', self.render(x)))
            o = self.alloc('list', mk('list'))
            self.run_source(self.iter_source(x), lambda e: self.mutate(o, 'append', [e]))
            return o
        if x.op in ('tuple', 'list'):
            return self.alloc('list', mk('list', *x.args))
        rx = self.render(x)
        if rx.op == 'mcall' and rx.args[1] == 'keys':
            rx = rx.args[0]
        if rx.op == 'listof':
            rx = rx.args[0]
        return self.alloc('list', mk('listof', rx))

    def bi_tuple(self, n):
        if not n.args:
            return mk('tuple')
        x = self.ev(n.args[0])
        d = self.deref(x)
        if d.op in ('list', 'tuple') and not any(a.op == 'star' for a in d.args):
            return mk('tuple', *d.args)
        return mk('tupleof', self.render(self.tolist(x, 'list')))

    def bi_dict(self, n):
        if not n.args and not any(k.arg is None for k in n.keywords):
            return self.alloc('dict', mkdict([(const(k.arg), self.ev(k.value)) for k in n.keywords]))
        if len(n.args) == 1 and n.keywords:
            x = self.ev(n.args[0])
            d = self.deref(x)
            o = self.alloc('dict', d if d.op == 'dict' else mk('dictof', self.render(x)))
            for k in n.keywords:
                if k.arg is None:
                    self.mutate(o, 'update', [self.render(self.ev(k.value))])
                else:
                    self.mutate(o, 'setitem', [const(k.arg), self.ev(k.value)])
            return o
        if len(n.args) == 1 and not n.keywords:
            return self.alloc('dict', mk('dictof', self.render(self.ev(n.args[0]))))
        return None

    def bi_set(self, n):
        if not n.args:
            return self.alloc('set', mk('set'))
        return self.alloc('set', mk('setof', self.render(self.ev(n.args[0]))))

    def bi_bool(self, n):
        return form(self.cond(n.args[0]))

    def bi_str(self, n):
        return self.tostr(self.ev(n.args[0])) if n.args else const('')

    def quant(self, n, neg_):
        """any / all over a comprehension"""
        x = self.ev(n.args[0])
        acc = []

        def run(src):
            # find the guard under which an element is truthy
            pass
        r = self.render(x)
        return r

    def bi_any(self, n):
        return form(self.exists_in(n.args[0], False))

    def bi_all(self, n):
        return form(bnot(self.exists_in(n.args[0], True)))

    def exists_in(self, node, negate):
        if isinstance(node, (ast.GeneratorExp, ast.ListComp)):
            n2 = ast.copy_location(ast.ListComp(node.elt, node.generators), node)
            res = [BF]
            env0 = dict(self.env)
            g0 = self.g

            def rec(i):
                if i == len(n2.generators):
                    c = self.cond(n2.elt)
                    if negate:
                        c = bnot(c)
                    return c
                g = n2.generators[i]
                src = self.iter_source(self.ev(g.iter))
                return self.exists_source(src, g.target, g.ifs, lambda: rec(i + 1))
            r = rec(0)
            self.env = env0
            self.g = g0
            return r
        x = self.ev(node)
        src = self.iter_source(x)
        return self.exists_source(src, None, [], None, negate)

    def exists_source(self, src, target, ifs, inner, negate=False):
        def one(e):
            if target is not None:
                self.assign(target, e)
            c = BT
            for i in ifs:
                c = band(c, self.cond(i))
            x = inner() if inner is not None else (bnot(self.truthy(e)) if negate else self.truthy(e))
            return band(c, x)
        if src[0] == 'unroll':
            return bor(*[one(e) for e in src[1]])
        if src[0] == 'iter':
            it = src[1]
            d = self.frame_depth(it)
            fr = mk('frame', it, d, False)
            self.frames.append(fr)
            c = bcanon(one(src[2](d)))
            self.frames.pop()
            return self.exists(it, d, c, fr)
        if src[0] == 'mapped':
            inn, f = src[1], src[2]

            def one2(e):
                g, v = f(e)
                if target is not None:
                    self.assign(target, v)
                c = g
                for i in ifs:
                    c = band(c, self.cond(i))
                x = inner() if inner is not None else (bnot(self.truthy(v)) if negate else self.truthy(v))
                return band(c, x)
            if inn[0] == 'unroll':
                return bor(*[one2(e) for e in inn[1]])
            if inn[0] == 'iter':
                it = inn[1]
                d = self.frame_depth(it)
                fr = mk('frame', it, d, False)
                self.frames.append(fr)
                c = bcanon(one2(inn[2](d)))
                self.frames.pop()
                return self.exists(it, d, c, fr)
        if src[0] == 'flat':
            frames, guard, value = src[1]
            if target is not None:
                self.assign(target, value)
            c = guard
            for i in ifs:
                c = band(c, self.cond(i))
            x = inner() if inner is not None else (bnot(self.truthy(value)) if negate else self.truthy(value))
            c = band(c, x)
            for f in reversed(frames):
                c = mkexists(f, bcanon(c))
            return c
        self.unsupported.append(('exists', self.loc(self.curnode)))
        return batom(mk('exists', mk('unknownsrc'), BT))

    def bi_next(self, n):
        if len(n.args) >= 1 and isinstance(n.args[0], ast.GeneratorExp) and len(n.args[0].generators) == 1:
            ge = n.args[0]
            g = ge.generators[0]
            src = self.iter_source(self.ev(g.iter))
            if src[0] == 'iter':
                it = src[1]
                d = self.frame_depth(it)
                fr = mk('frame', it, d, False)
                env0 = dict(self.env)
                self.frames.append(fr)
                self.assign(g.target, src[2](d))
                c = BT
                for i in g.ifs:
                    c = band(c, self.cond(i))
                v = self.ev(ge.elt)
                self.frames.pop()
                self.env = env0
                fv = self.firstval(it, d, fr, [(c, v)])
                if len(n.args) == 2:
                    return ite(self.exists(it, d, bcanon(c), fr), fv, self.ev(n.args[1]))
                return fv
        it = self.ev(n.args[0])
        r = self.resource(it)
        rv = mk('res', 'next', self.render(it), self.ver(r))
        self.emit('mut', mk('meth', it, 'next'), [self.render(self.ev(a)) for a in n.args[1:]], n, {r})
        self.note_mut({r}, mk('m', 'next', strip_ver(self.render(it))))
        return rv

    def bi_sum(self, n):
        x = self.ev(n.args[0])
        return mk('call', mk('glob', 'sum'), self.render(x))

    def bi_min(self, n):
        a = [self.render(self.ev(x)) for x in n.args]
        if len(a) > 1 and not n.keywords:
            return mk('min', *sorted(set(a), key=lambda t: t.dig))
        return None

    def bi_max(self, n):
        a = [self.render(self.ev(x)) for x in n.args]
        if len(a) > 1 and not n.keywords:
            return mk('max', *sorted(set(a), key=lambda t: t.dig))
        return None

    def bi_getattr(self, n):
        if len(n.args) == 2 and isinstance(n.args[1], ast.Constant):
            return self.attr(self.ev(n.args[0]), n.args[1].value)
        return mk('call', mk('glob', 'getattr'), *[self.render(self.ev(a)) for a in n.args])

    def bi_setattr(self, n):
        if len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
            self.store_attr(self.ev(n.args[0]), n.args[1].value, self.ev(n.args[2]))
            return NONE
        return None

    def bi_iter(self, n):
        if len(n.args) == 1:
            x = self.ev(n.args[0])
            if x.op == 'ite' or x.op == 'mcall':
                return self.mcall(x, '__iter__', [], {}, n)
            return mk('call', mk('glob', 'iter'), self.render(x)) if self.deref(x).op in ('tuple', 'list') else x
        return None

    def bi_sorted(self, n):
        x = self.ev(n.args[0])
        o = self.alloc('list', mk('listof', self.render(x)) if self.render(x).op not in ('list', 'build') else self.render(x))
        kw = {k.arg: self.ev(k.value) for k in n.keywords}
        self.mutate(o, 'sort', self.kwterms(kw))
        return o

    def bi_slice(self, n):
        a = [self.render(self.ev(x)) for x in n.args]
        if len(a) == 1:
            a = [ZERO, a[0], NONE]
        elif len(a) == 2:
            a = a + [NONE]
        return mk('slice', *a)


# run_source for composite sources ---------------------------------------------------------------
_rs = Interp.run_source


def run_source(self, src, body, orelse=()):
    if src[0] == 'mapped':
        inner, f = src[1], src[2]

        def b2(e):
            g, v = f(e)
            self.branch(g, lambda: body(v), lambda: None)
        return run_source(self, inner, b2, orelse)
    if src[0] == 'chainstar':
        outer = self.iter_source(src[1])
        return run_source(self, outer, lambda e: run_source(self, self.iter_source(e), body), orelse)
    if src[0] == 'ite':
        c, a, b = src[1].args
        self.branch(c, lambda: run_source(self, self.iter_source(a), body, orelse),
                    lambda: run_source(self, self.iter_source(b), body, orelse))
        return
    return _rs(self, src, body, orelse)


Interp.run_source = run_source

BOX_FIELDS = ('xmin', 'xextent', 'ymin', 'yextent', 'zmin', 'zextent')
PURE_BUILTINS = {'abs', 'int', 'float', 'str', 'bool', 'len', 'min', 'max', 'sum', 'sorted', 'reversed', 'hash', 'id', 'repr',
                 'round', 'callable', 'hasattr', 'getattr', 'type', 'tuple', 'list', 'dict', 'set', 'frozenset', 'ord', 'chr',
                 'divmod', 'pow', 'super', 'object', 'bytes', 'vars', 'issubclass', 'any', 'all', 'iter', 'map', 'filter', 'zip',
                 'enumerate', 'range', 'ValueError', 'KeyError', 'RuntimeError', 'TypeError', 'property', 'slice', 'Fraction'}


# ------------------------------------------------------------------ helpers
def _load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    return ast.copy_location(t2, t)


def _walk_own(node):
    """Nodes of a function without those of nested functions."""
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                st.append(c)


ONESHOT = {'map', 'filter', 'zip', 'enumerate', 'reversed'}


def _edits_keys(f, name):
    """The function sets or takes out constant keys of the dictionary of that name, and does nothing else to it."""
    found = False
    for n in ast.walk(f):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name and not isinstance(n.ctx, ast.Load):
            if not (isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)):
                return False
            found = True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            if n.func.attr == 'pop':
                if not (n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str)):
                    return False
                found = True
            elif n.func.attr not in ('get', 'items', 'keys', 'values', 'copy'):
                return False
    return found


def oneshot_loads(f):
    """{load: (assignment, in a loop the assignment is not in)} of variables holding iterators that can be
    gone through only once (assigned in one place, from a generator expression, itertools or map/filter/zip)."""
    loops, parent = {}, {}

    def walk(n, ls):
        loops[id(n)] = ls
        if isinstance(n, (ast.For, ast.AsyncFor)):
            subs = [(n.iter, ls)] + [(c, ls + (id(n),)) for c in [n.target] + n.body] + [(c, ls) for c in n.orelse]
        elif isinstance(n, ast.While):
            subs = [(c, ls + (id(n),)) for c in [n.test] + n.body] + [(c, ls) for c in n.orelse]
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            subs = [(g, ls if i == 0 else ls + (id(n),)) for i, g in enumerate(n.generators)]
            subs += [(c, ls + (id(n),)) for c in ast.iter_child_nodes(n) if not isinstance(c, ast.comprehension)]
        elif isinstance(n, ast.comprehension):
            subs = [(n.iter, ls)] + [(c, ls + (id(n),)) for c in [n.target] + n.ifs]
        elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not f:
            subs = []
        else:
            subs = [(c, ls) for c in ast.iter_child_nodes(n)]
        for c, l2 in subs:
            parent[id(c)] = n
            walk(c, l2)
    walk(f, ())
    own = [f] + [n for n in _walk_own(f)]
    stores = {}
    for n in own:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores.setdefault(n.id, []).append(n)
    res = {}
    for n in own:
        if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
            continue
        name, v = n.targets[0].id, n.value
        if len(stores.get(name, ())) != 1:
            continue
        if not isinstance(v, ast.GeneratorExp):
            if not isinstance(v, ast.Call):
                continue
            d = v.func
            while isinstance(d, ast.Attribute):
                d = d.value
            if not (isinstance(d, ast.Name) and (d.id == 'itertools' if d is not v.func else d.id in ONESHOT or d.id in ('chain', 'islice'))):
                continue
        for u in own:
            if isinstance(u, ast.Name) and u.id == name and isinstance(u.ctx, ast.Load) and id(u) in loops:
                q = parent.get(id(u))
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ('next', 'iter', 'isinstance'):
                    continue
                if isinstance(q, ast.Compare):
                    continue
                extra = [x for x in loops[id(u)] if x not in loops[id(n)]]
                res[id(u)] = (id(n), bool(extra))
    return res


def _uses(nodes, name):
    return [x for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == name]


def _assigned(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


def _changes(body, seq):
    """May the statements change the sequence an index loop runs over?"""
    d = ast.unparse(seq)
    names = {x.id for x in ast.walk(seq) if isinstance(x, ast.Name)}
    if names & _assigned(body):
        return True
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in C.MUTATORS and \
                    ast.unparse(x.func.value) == d:
                return True
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) and \
                    (ast.unparse(x) == d or isinstance(x, ast.Subscript) and ast.unparse(x.value) == d):
                return True
    return False


_nfresh = [0]


def desugar_for(st):
    """for i in range(len(X)): ... X[i] ...  is  for x in X: ... x ..."""
    c = st.iter
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'enumerate' and len(c.args) == 1 and \
            not c.keywords and isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2 and \
            isinstance(st.target.elts[0], ast.Name) and not _uses(st.body + st.orelse, st.target.elts[0].id):
        return ast.copy_location(ast.For(st.target.elts[1], c.args[0], st.body, st.orelse), st)
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'range' and isinstance(st.target, ast.Name)):
        return st
    a = c.args
    if len(a) == 3 and isinstance(a[2], ast.Constant) and a[2].value == 1:
        a = a[:2]
    if len(a) == 2 and isinstance(a[0], ast.Constant) and a[0].value == 0:
        a = a[1:]
    if len(a) != 1 or not (isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Name) and a[0].func.id == 'len' and len(a[0].args) == 1):
        return st
    x = a[0].args[0]
    if not isinstance(x, (ast.Name, ast.Attribute)) or _changes(st.body, x):
        return st
    i, d = st.target.id, ast.unparse(x)
    if i in _assigned(st.body):
        return st
    uses = _uses(st.body, i)
    subs = [n for s in st.body for n in ast.walk(s) if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and
            n.slice.id == i and isinstance(n.ctx, ast.Load) and ast.unparse(n.value) == d]
    if not uses or len(uses) != len(subs):
        return st
    _nfresh[0] += 1
    f = f'_elem_{i}'
    ids = {id(n) for n in subs}

    class R(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if id(n) in ids:
                return ast.copy_location(ast.Name(f, ast.Load()), n)
            return self.generic_visit(n)
    import copy
    memo = {}
    body = [copy.deepcopy(s, memo) for s in st.body]
    ids = {id(memo[k]) for k in ids if k in memo}
    body = [R().visit(s) for s in body]
    return ast.copy_location(ast.For(ast.copy_location(ast.Name(f, ast.Store()), st), x, body, st.orelse), st)


def desugar_while(st):
    """while i < n: ...; i += 1; ...   as   for i in range(n): ...   (the caller checks that i is 0 on entry)"""
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, r = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
        l, r = r, l
    elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
        return None
    if not isinstance(l, ast.Name):
        return None
    i = l.id

    def isinc(s):
        return isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == i and \
            isinstance(s.value, ast.Constant) and s.value.value == 1 or \
            isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and \
            ast.unparse(s.value) in (f'{i} + 1', f'1 + {i}')
    incs = [k for k, s in enumerate(st.body) if isinc(s)]
    if len(incs) != 1:
        return None
    k = incs[0]
    body = st.body[:k] + st.body[k + 1:]
    if i in _assigned(body) or _uses(st.body[k + 1:], i):
        return None
    for s in st.body[:k]:
        if any(isinstance(x, ast.Continue) for x in ast.walk(s)):
            return None
    names = {x.id for x in ast.walk(r) if isinstance(x, ast.Name)}
    if names & _assigned(body):
        return None
    for x in ast.walk(r):
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len' and len(x.args) == 1):
            return None
        if isinstance(x, ast.Call) and _changes(body, x.args[0]):
            return None
    rng = ast.Call(ast.Name('range', ast.Load()), [r], [])
    return ast.fix_missing_locations(ast.copy_location(ast.For(ast.Name(i, ast.Store()), rng, body or [ast.Pass()], []), st))


def strip_ver(t):
    """A term without the versions of the reads in it."""
    if not isinstance(t, T):
        return t
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in x.args):
            memo[x] = x
            return x
        if x.op == 'ver':
            return mk('ver')
        na = []
        for a in x.args:
            if isinstance(a, T):
                if a.op == 'ver':
                    if x.op in ('in',):
                        na.append(mk('ver'))
                    continue
                na.append(go(a))
            else:
                na.append(a)
        r = mk(x.op, *na) if x.op in ('bdd',) else (rebuild(x, na) if len(na) == len(x.args) else mk(x.op, *na))
        memo[x] = r
        return r
    return go(t)


def is_value_path(b):
    return False


def is_emptyish(t):
    return t.op in ('list', 'dict', 'set') and not t.args


def is_listlike(t):
    return t.op in ('list', 'build', 'listof', 'concat', 'rep', 'tuple', 'obj')


def concat(a, b):
    parts = []
    for x in (a, b):
        if x.op == 'concat':
            parts += x.args
        else:
            parts.append(x)
    out = []
    for x in parts:
        if x.op in ('list', 'tuple') and not x.args:
            continue
        if out and out[-1].op == x.op and x.op in ('list', 'tuple'):
            out[-1] = mk(x.op, *(out[-1].args + x.args))
        else:
            out.append(x)
    if not out:
        return a
    return out[0] if len(out) == 1 else mk('concat', *out)


def cat(parts):
    flat = []
    for p in parts:
        if p.op == 'cat':
            flat += p.args
        elif p.op == 'const' and p.args[0] == '':
            continue
        else:
            flat.append(p)
    out = []
    for p in flat:
        if out and out[-1].op == 'const' and p.op == 'const' and isinstance(out[-1].args[0], str) and isinstance(p.args[0], str):
            out[-1] = const(out[-1].args[0] + p.args[0])
        else:
            out.append(p)
    # a conditional piece that repeats its neighbours
    if not out:
        return const('')
    if len(out) == 1:
        return out[0] if is_stringy(out[0]) else mk('cat', out[0])
    for i, p in enumerate(out):
        if p.op == 'ite':
            a = cat(out[:i] + [p.args[1]] + out[i + 1:])
            b = cat(out[:i] + [p.args[2]] + out[i + 1:])
            return ite(p.args[0], a, b)
    return mk('cat', *out)


def mkdict(kv):
    last = {}
    if any(k.op == 'starkw' and not k.args for k, _ in kv):
        return mk('dict', *[x for k, v in kv for x in (k, v)])
    for k, v in kv:
        last[k] = v
    items = sorted(last.items(), key=lambda x: x[0].dig)
    return mk('dict', *[x for k, v in items for x in (k, v)])


def is_graph(t):
    while t.op in ('vers', 'listof'):
        t = t.args[0]
    return t.op == 'attr' and t.args[1] == 'graph'


def graph_of(t):
    """(graph, 'graph' | 'nodes' | 'edges' | node whose neighbours it is)"""
    if is_graph(t):
        return t, 'graph'
    if t.op == 'attr' and t.args[1] in ('nodes', 'edges') and is_graph(t.args[0]):
        return t.args[0], t.args[1]
    if t.op == 'mcall' and t.args[1] in ('nodes', 'edges') and is_graph(t.args[0]) and (len(t.args) == 2 or len(t.args) == 3 and t.args[2].op == 'ver'):
        return t.args[0], t.args[1]
    if t.op == 'idx':
        b = t.args[0]
        if b.op == 'attr' and b.args[1] == 'adj':
            b = b.args[0]
        if is_graph(b):
            return b, t.args[1]
    return None


def mklen(x):
    if x.op in ('list', 'tuple') and not any(a.op == 'star' for a in x.args):
        return const(len(x.args))
    if x.op == 'ite':
        return ite(x.args[0], mklen(x.args[1]), mklen(x.args[2]))
    if x.op in ('listof', 'tupleof'):
        return mklen(x.args[0])
    if x.op == 'range_' and x.args[0] is ZERO and x.args[2] is ONE:
        return x.args[1]
    if x.op == 'build' and len(x.args) == 2 and x.args[0].op == 'list' and not x.args[0].args:
        b = x.args[1]
        fr, g = b.args[-2], b.args[-1]
        if b.args[0] == 'append' and len(fr.args) == 1 and g is BT and fr.args[0].op == 'frame':
            return mklen(fr.args[0].args[0])
    return mk('len', x)


def isint(t):
    op = t.op
    if op == 'const':
        return isinstance(t.args[0], int) and not isinstance(t.args[0], bool)
    if op in ('len', 'index', 'cdiv') or op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'int':
        return True
    if op == 'attr':
        return t.args[1] in C.INT_ATTRS
    if op == 'mcall':
        return t.args[1] in ('Get_rank', 'Get_size', 'size')
    if op == 'poly':
        return all(isinstance(c, int) for c in t.args[0::2]) and all(isint(x) for m in t.args[1::2] for x in m.args)
    if op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] in ('ghost_ranks',):
        return True
    if op == 'var' or op == 'param':
        return t in INT_TERMS
    return False


INT_TERMS = set()


def sizes(p):
    """The sizes of the tuples a local list holds, p the size of one of them."""
    if p.op != 'len' or len(p.args) != 1:
        return None
    x = p.args[0]
    if x.op == 'elem' and x.args[0].op == 'build':
        b = x.args[0]
        items = list(b.args[0].args) if b.args[0].op == 'list' else None
        if items is None or len(b.args) < 2:
            return None
        for e in b.args[1:]:
            if e.args[0] != 'append' or e.args[1].op != 'rec':
                return None
            items.append(e.args[2])
        if all(i.op == 'tuple' and not any(y.op == 'star' for y in i.args) for i in items):
            return sorted({len(i.args) for i in items})
    return None


def among(p, ls, sel):
    if not sel:
        return BF
    if len(sel) == len(ls):
        return BT

    def is_(n):
        x, y = sorted((p, const(n)), key=lambda t: t.dig)
        return batom(mk('eq', x, y))
    if len(ls) == 2:
        return is_(ls[1]) if sel == [ls[1]] else bnot(is_(ls[1]))
    return bor(*[is_(n) for n in sel])


def cmp0(k, d):
    """atom d < 0 or d <= 0 in canonical orientation"""
    if is_num(d):
        v = d.args[0]
        return BT if (v < 0 if k == 'lt0' else v <= 0) else BF
    if d.op == 'ite':
        return bite(d.args[0], cmp0(k, d.args[1]), cmp0(k, d.args[2]))
    integer = isint(d)
    if integer and k == 'le0':
        d = sub(d, ONE)
        k = 'lt0'
    if poly_lead_negative(d):
        if integer:
            # d < 0  <=>  -d > 0  <=> not (-d <= 0)  <=> not (-d - 1 < 0)
            return bnot(_cmpatom('lt0', sub(neg(d), ONE)))
        return bnot(_cmpatom('le0' if k == 'lt0' else 'lt0', neg(d)))
    return _cmpatom(k, d)


def _cmpatom(k, d):
    # len(x) - 1 < 0 : empty
    p, c = psplit(d)
    ls = sizes(p)
    if ls is not None and c.__class__ is int:
        return among(p, ls, [n for n in ls if (n + c < 0 if k == 'lt0' else n + c <= 0)])
    if poly_lead_negative(p) and sizes(neg(p)) is not None and c.__class__ is int:
        ls = sizes(neg(p))
        return among(neg(p), ls, [n for n in ls if (c - n < 0 if k == 'lt0' else c - n <= 0)])
    if p.op == 'len' and k == 'lt0':
        if c == -1:
            return bnot(truthy_len(p))
        if c >= 0:
            return BF
    ls = lens_only(p) if k == 'lt0' else None
    if ls:
        if c == -1:
            return band(*[bnot(truthy_len(x)) for x in ls])
        if c >= 0:
            return BF
    if k == 'lt0' and c == -2 and (p.op == 'mcall' and p.args[1] == 'Get_size' or p.op == 'attr' and p.args[1] == 'size' and
                                   p.args[0].op == 'attr' and p.args[0].args[1].endswith('comm')):
        # a communicator has at least one process
        return eqterm(p, ONE)
    if p.op == 'index' and k == 'lt0':
        if c >= 0:
            return BF
        if c == -1:
            return eqterm(p, ZERO)
    return batom(mk(k, d))


def through(t, b):
    """t is a path into an element of b"""
    while t.op in ('idx', 'elem', 'slice_', 'attr') and isinstance(t.args[0], T):
        step, t = t.op, t.args[0]
        if t is b:
            return step in ('idx', 'elem')
    return False


def sibling(t, b):
    """t and b lie in different elements of one object"""
    up = []
    while t.op in ('idx', 'elem', 'slice_', 'attr') and isinstance(t.args[0], T):
        up.append(t)
        t = t.args[0]
    while b.op in ('idx', 'elem', 'slice_', 'attr') and isinstance(b.args[0], T):
        for u in up:
            if u.args[0] is b.args[0]:
                return u.op == 'idx' and b.op == 'idx' and is_const(u.args[1]) and is_const(b.args[1]) and u.args[1] is not b.args[1]
        b = b.args[0]
    return False


def lens_only(p):
    """the terms of a sum of sizes"""
    if p.op != 'poly' or not all(isinstance(c, int) and c > 0 for c in p.args[0::2]):
        return None
    ls = [m.args[0] for m in p.args[1::2] if len(m.args) == 1 and m.args[0].op == 'len']
    return ls if len(ls) * 2 == len(p.args) else None


def truthy_len(l):
    """x is not empty, from len(x)"""
    x = l.args[0]
    if len(l.args) > 1:
        return batom(mk('truthy', mk('vers', x, l.args[1])))
    return truthy(x)


def eqterm(a, b):
    if a is b:
        return BT
    if a.op == 'ite' or b.op == 'ite':
        if count_ites(a) + count_ites(b) <= 8:
            return lift2(a, b, eqterm)
    if is_constant(a) and is_constant(b):
        if a.op == 'const' and b.op == 'const':
            return BT if a.args[0] == b.args[0] and (type(a.args[0]) is type(b.args[0]) or is_num(a) and is_num(b)) else BF
        if a.op == 'enum' and b.op == 'enum':
            return BF
    if a is NONE:
        return isnone(b)
    if b is NONE:
        return isnone(a)
    if a in (TRUE_C, FALSE_C):
        a, b = b, a
    if b is TRUE_C:
        return truthy(a)
    if b is FALSE_C:
        return bnot(truthy(a))
    if a.op == 'form' and b.op == 'form':
        return bite(a.args[0], b.args[0], bnot(b.args[0]))
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return BF
        return band(*[eqterm(x, y) for x, y in zip(a.args, b.args)])
    num = is_num(a) or is_num(b) or a.op in ('poly', 'len', 'index') or b.op in ('poly', 'len', 'index')
    if num and not is_stringy(a) and not is_stringy(b):
        d = sub(a, b)
        if is_num(d):
            return BT if d.args[0] == 0 else BF
        if poly_lead_negative(d):
            d = neg(d)
        p, c = psplit(d)
        ls = sizes(p)
        if ls is not None and c.__class__ is int:
            return among(p, ls, [n for n in ls if n + c == 0])
        if p.op == 'len' and c == 0:
            return bnot(truthy_len(p))
        if p.op == 'len' and c > 0:
            return BF
        if c >= 0 and lens_only(p):
            return band(*[bnot(truthy_len(x)) for x in lens_only(p)]) if c == 0 else BF
        if c != 0 and p.op != 'poly':
            x, y = sorted((p, const(-c if not isinstance(c, int) else -c)), key=lambda t: t.dig)
            return batom(mk('eq', x, y))
        if c == 0 and p.op != 'poly':
            x, y = sorted((p, ZERO), key=lambda t: t.dig)
            return batom(mk('eq', x, y))
        if c == 0 and len(p.args) == 4 and p.args[0] == 1 and p.args[2] == -1 and len(p.args[1].args) == 1 and len(p.args[3].args) == 1:
            x, y = sorted((p.args[1].args[0], p.args[3].args[0]), key=lambda t: t.dig)
            return batom(mk('eq', x, y))
        return batom(mk('eq0', d))
    x, y = sorted((a, b), key=lambda t: t.dig)
    return batom(mk('eq', x, y))


def count_ites(t):
    if t.op == 'ite':
        return 1 + count_ites(t.args[1]) + count_ites(t.args[2])
    return 0


def cut(c, a, b):
    """x[:n] if len(x) > n else x: x[:n]"""
    for x, y, cc in ((a, b, c), (b, a, bnot(c))):
        if x.op == 'idx' and x.args[0] is y and x.args[1].op == 'slice' and x.args[1].args[0] in (ZERO, NONE) and x.args[1].args[2] is NONE:
            n = x.args[1].args[1]
            for l in (mklen(y), mk('len', y, *x.args[2:])):
                if cc is cmp0('lt0', sub(n, l)) or cc is cmp0('le0', sub(n, l)):
                    return x
    return None


def lift2(a, b, f):
    if a.op == 'ite':
        return bite(a.args[0], lift2(a.args[1], b, f), lift2(a.args[2], b, f))
    if b.op == 'ite':
        return bite(b.args[0], lift2(a, b.args[1], f), lift2(a, b.args[2], f))
    return f(a, b)


def liftval(a, b, f):
    if a.op == 'ite':
        return ite(a.args[0], liftval(a.args[1], b, f), liftval(a.args[2], b, f))
    if b.op == 'ite':
        return ite(b.args[0], liftval(a, b.args[1], f), liftval(a, b.args[2], f))
    return f(a, b)


def isnone(t):
    if t is NONE:
        return BT
    op = t.op
    if op in ('const', 'enum', 'tuple', 'list', 'dict', 'set', 'new', 'build', 'lambda', 'form', 'poly', 'cat', 'str', 'len', 'index',
              'listof', 'obj', 'self', 'range_', 'concat'):
        return BF
    if op == 'ite':
        return bite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if op == 'first' and len(t.args) == 3 and isinstance(t.args[1], T) and isinstance(t.args[2], T):
        # a value whose attributes the condition reads is not None
        v = t.args[2]
        if isnone(v) is BF or contains(t.args[1], lambda q: q.op == 'attr' and q.args[0] is v):
            return BF
    if op == 'res' and t.args[0] == 'coll':
        return BF
    if op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in C.MAKES:
        return BF
    if op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] in C.OBJ_MAPS:
        return BF
    if op == 'elem' and t.args[0].op == 'attr' and t.args[0].args[1] in C.OBJ_MAPS:
        return BF
    return batom(mk('isnone', t))


def truthy(t):
    op = t.op
    if op == 'const':
        return BT if t.args[0] else BF
    if op == 'form':
        return t.args[0]
    if is_b(t):
        return t
    if op == 'ite':
        return bite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    if op in ('tuple', 'list', 'dict', 'set') and not any(isinstance(a, T) and a.op == 'star' for a in t.args):
        return BT if t.args else BF
    if op in ('new', 'lambda', 'self'):
        return BT
    if op == 'len':
        return truthy_len(t)
    if op == 'listof':
        return truthy(t.args[0])
    if op == 'build':
        r = nonempty_build(t)
        if r is not None:
            return r
    if op == 'poly':
        return bnot(eqterm(t, ZERO))
    if op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] in C.OBJ_MAPS:
        return BT
    if op == 'mcall' and t.args[1] in C.AGENT_RESULTS:
        return bnot(isnone(t))
    if op == 'res' and len(t.args) > 2 and t.args[0] == 'meth' and t.args[2] in C.AGENT_RESULTS:
        return bnot(isnone(t))
    if op == 'mcall' and t.args[1] in ('keys', 'values', 'items'):
        return truthy(t.args[0])
    if isint(t):
        return bnot(eqterm(t, ZERO))
    if op == 'param' and is_stringy(t):
        return bnot(eqterm(const(''), t))
    return batom(mk('truthy', t))


def nonempty_build(t):
    init = t.args[0]
    if is_emptyish(init):
        base = BF
    elif init.op in ('list', 'dict', 'set'):
        base = BT
    else:
        return None
    r = base
    for b in t.args[1:]:
        if b.args[0] not in ('append', 'add', 'setitem') or b.args[1].op != 'rec':
            return None
        fr, g = b.args[-2], b.args[-1]
        c = g
        for f in reversed(fr.args):
            if f.op != 'frame':
                return None
            c = mkexists(f, bcanon(c))
        r = bor(r, c)
    return r


def mkexists(f, cond):
    """Some element of the frame satisfies the condition; what does not depend on the element is taken out."""
    if cond is BF:
        return BF
    if f.op == 'frame' and is_b(cond):
        e, i = mk('elem', f.args[0], f.args[1]), mk('index', f.args[0], f.args[1])

        def dep(t):
            return t is e or t is i or t.op in ('mu', 'muvar', 'wframe', 'first') or t.op == 'ver' and t.args or t.op in ('elem', 'index') and contains(t.args[0], lambda q: q is e)
        for at in sorted(batoms(cond), key=lambda t: t.dig):
            if not contains(at, dep):
                c1, c0 = bconstrain(cond, batom(at)), bconstrain(cond, bnot(batom(at)))
                return bite(batom(at), mkexists(f, bcanon(c1)), mkexists(f, bcanon(c0)))
    return batom(mk('exists', f, cond))


def as_flat(t):
    """(frames, guard, value) of a build that is one append."""
    if t.op == 'build' and len(t.args) == 2 and t.args[0].op == 'list' and not t.args[0].args:
        b = t.args[1]
        if b.args[0] == 'append' and b.args[1].op == 'rec':
            fr, g = b.args[-2], b.args[-1]
            if fr.args and all(f.op == 'frame' for f in fr.args):
                return (fr.args, g, b.args[2])
    return None


def norm_build(kind, init, evs, interp):
    """Canonical term of a local container with its history."""
    # leading plain appends / settings fold into the literal
    lst = list(init.args) if init.op in ('list', 'dict', 'set') else None
    rest = []
    me = mk('rec')
    started = False
    evs = expand_evs(evs)
    at = invariant_atom(evs)
    if at is not None:
        r = []
        for pol, lit in ((True, batom(at)), (False, bnot(batom(at)))):
            f = lambda t: simp_under(t, at, pol) if isinstance(t, T) else t
            r.append(norm_build(kind, init, [(op, f(p), [f(x) for x in a], tuple(f(x) for x in fr), bconstrain(g, lit), order)
                                             for op, p, a, fr, g, order in evs if bsat(band(g, lit))], interp))
        return ite(batom(at), r[0], r[1])
    for (op, p, a, fr, g, order) in evs:
        if g is BF:
            continue
        if not started and not fr and g is BT and p is me:
            if op == 'append' and init.op == 'list' and lst is not None:
                lst.append(a[0])
                continue
            if op == 'setitem' and init.op == 'dict' and lst is not None and is_constant(a[0]):
                for i in range(0, len(lst), 2):
                    if lst[i] is a[0]:
                        lst[i + 1] = a[1]
                        break
                else:
                    lst += [a[0], a[1]]
                continue
            if op == 'add' and init.op == 'set' and lst is not None:
                if a[0] not in lst:
                    lst.append(a[0])
                continue
        if op in ('clear',) and not fr and g is BT and p is me:
            rest = []
            lst = [] if lst is not None else None
            continue
        if op == 'setall' and not fr and g is BT and p is me:
            rest = []
            if a[0].op in ('list',):
                lst = list(a[0].args)
                init = mk('list')
                continue
            init = a[0]
            lst = None
            continue
        started = True
        rest.append((op, p, a, fr, g, order))
    if lst is not None:
        if init.op == 'dict':
            init = mkdict(list(zip(lst[0::2], lst[1::2])))
        elif init.op == 'set':
            init = mk('set', *sorted(lst, key=lambda t: t.dig))
        else:
            init = mk('list', *lst)
    if not rest:
        return init
    # [x for x in X]
    if len(rest) == 1 and is_emptyish(init) and init.op == 'list':
        x = copied(rest[0])
        if x is not None:
            return x
    if len(rest) > 1 and is_emptyish(init) and init.op == 'list':
        x = copied(rest[0])
        if x is not None and not any(rest[0][3][0] in q[3] for q in rest[1:]):
            init, rest = x, rest[1:]
    # merge equal operations done in exclusive branches, order by path
    merged = []
    for (op, p, a, fr, g, order) in rest:
        for i, (o2, p2, a2, f2, g2, ord2) in enumerate(merged):
            if o2 == op and p2 is p and tuple(a2) == tuple(a) and f2 == fr and not bsat(band(g, g2)):
                merged[i] = (o2, p2, a2, f2, bcanon(bor(g, g2)), ord2)
                break
        else:
            merged.append((op, p, a, fr, g, order))
    keyed = []
    for i, (op, p, a, fr, g, order) in enumerate(merged):
        group = p.dig
        if op in ('setitem', 'delitem') or op.startswith('setattr'):
            group = p.dig + (a[0].dig if op in ('setitem', 'delitem') else op)
            if kind == 'dict' or op == 'setitem':
                keyed.append(((0, group, i), (op, p, a, fr, g)))
                continue
        if op == 'add':
            keyed.append(((0, p.dig + a[0].dig, i), (op, p, a, fr, g)))
            continue
        keyed.append(((1, group, i), (op, p, a, fr, g)))
    keyed.sort(key=lambda x: x[0])
    groups = {}
    for k, (op, p, a, fr, g) in keyed:
        groups.setdefault(k[:2], []).append((mk('bev', op, p, *a, mk('frames', *fr), bcanon(g)), g))
    bevs = []
    for k in groups:
        bevs += canonical_order(groups[k])
    if init.op == 'build' and all(b.args[0] == 'sort' and b.args[1].op == 'rec' for b in bevs):
        return mk('build', *init.args, *bevs)
    return mk('build', init, *bevs)


def copied(ev):
    """The sequence whose elements an operation appends, in order and without exception."""
    op, p, a, fr, g, order = ev
    if op != 'append' or len(fr) != 1 or g is not BT or fr[0].op != 'frame' or p.op != 'rec':
        return None
    x = a[0]
    if x.op == 'idx' and len(x.args) == 2 and x.args[0] is fr[0].args[0] and x.args[1] is mk('elem', fr[0].args[0], fr[0].args[1]):
        return mk('listof', mk('mcall', fr[0].args[0], 'values'))
    if x.op == 'elem' and x.args[0] is fr[0].args[0] and x.args[1] == fr[0].args[1]:
        return mk('listof', fr[0].args[0])
    return None


def invariant_atom(evs):
    """A condition of some operations that is the same for the whole history of the container."""
    fs = {(f.args[0], f.args[1] if len(f.args) > 1 else 0) for e in evs for f in e[3] if f.op == 'frame'}
    if any(f.op != 'frame' for e in evs for f in e[3]):
        return None

    def dep(x):
        if x.op in ('rec', 'mu', 'last'):
            return True
        return x.op in ('elem', 'index') and len(x.args) > 1 and (x.args[0], x.args[1]) in fs
    atoms = set()
    for e in evs:
        atoms |= batoms(e[4])
    if len(atoms) > 12:
        return None
    inv = [a for a in atoms if not contains(a, dep)]
    if not inv or len(inv) > 3:
        return None
    return min(inv, key=lambda a: a.dig)


def canonical_order(evs):
    """Operations whose order does not show, because only one of them is done, in a canonical order."""
    if len(evs) == 1 or len(evs) > 40:
        return [b for b, _ in evs]
    out = []
    left = list(evs)
    while left:
        best = None
        for i, (b, g) in enumerate(left):
            if all(not bsat(band(g, left[j][1])) for j in range(i)):
                if best is None or b.dig < left[best][0].dig:
                    best = i
        out.append(left.pop(best)[0])
    return out


def expand_evs(evs):
    """Split conditional arguments into guarded operations."""
    out = []
    work = list(evs)
    n = 0
    while work:
        (op, p, a, fr, g, order) = work.pop(0)
        n += 1
        x = None
        if n < 400:
            for t in [p] + list(a):
                if isinstance(t, T):
                    x = first_ite(t)
                    if x is not None:
                        break
        if x is None:
            out.append((op, p, a, fr, g, order))
            continue
        c = x.args[0]
        for v, val in ((c, x.args[1]), (bnot(c), x.args[2])):
            g2 = band(g, v)
            if not bsat(g2):
                continue
            m = {x: val}
            at = c.args[0]
            pol = v is c
            f = lambda t: simp_under(subst(t, m), at, pol) if isinstance(t, T) else t
            work.insert(0 if v is c else 1, (op, f(p), [f(t) for t in a], fr, g2, order)) if False else out_insert(work, (op, f(p), [f(t) for t in a], fr, g2, order), v is c)
    return out


def out_insert(work, item, first):
    work.insert(0 if first else (1 if work else 0), item)


def simp_under(t, atom, val):
    """t with the atom known."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'ite' and x.args[0].op == 'bdd' and x.args[0].args[0] is atom:
            r = go(x.args[1] if val else x.args[2])
        elif x.op == 'bdd' and x.args[0] is atom:
            r = go(x.args[1] if val else x.args[2])
        elif x.op in ('build', 'lambda', 'fold', 'exists', 'mu', 'first') or not any(isinstance(a, T) for a in x.args):
            r = x
        else:
            na = [go(a) if isinstance(a, T) else a for a in x.args]
            r = rebuild(x, na)
        memo[x] = r
        return r
    return go(t)


# ------------------------------------------------------------------ events normal form
def split_event(e, limit=64):
    out, work = [], [e]
    while work:
        e = work.pop(0)
        x = None
        if len(out) + len(work) < limit:
            for t in (e.head,) + e.args + tuple(f.args[0] for f in e.frames if f.op == 'frame'):
                x = first_ite(t)
                if x is not None:
                    break
        if x is None:
            out.append(e.copy(args=tuple(a for a in e.args if a is not NO_KW)) if NO_KW in e.args else e)
            continue
        c = x.args[0]
        at = c.args[0]
        new = []
        for pol, val in ((True, x.args[1]), (False, x.args[2])):
            g = band(e.guard, c if pol else bnot(c))
            if not bsat(g):
                continue
            f = lambda t: simp_under(t, at, pol)
            if c.args[1:] == (BT, BF) or c.args[1:] == (BF, BT):
                g = band(f(e.guard), c if pol == (c.args[1] is BT) else bnot(c))
            new.append(e.copy(head=f(e.head), args=tuple(f(a) for a in e.args), frames=tuple(f(q) for q in e.frames), guard=g))
        work[0:0] = new
    return out


def normalise_events(events):
    ev = []
    for e in events:
        if e.guard is BF or not bsat(e.guard):
            continue
        if e.kind == 'raise' and e.frames and all(f.op == 'frame' for f in e.frames) and not e.args:
            # an exception raised for some element is raised once
            g = bcanon(e.guard)
            for f in reversed(e.frames):
                g = mkexists(mk('frame', f.args[0], f.args[1], False), bcanon(g))
            e = e.copy(frames=(), guard=g)
        ev.extend(split_event(e))
    ev = overwritten(ev)
    # merge the same effect in exclusive branches
    out, index = [], {}
    for e in ev:
        k = e.key()
        for i in index.get(k, ()):
            if e.kind == 'raise' and not e.frames or not bsat(band(out[i].guard, e.guard)):
                ps = (out[i].parts or [(out[i].guard, out[i].order)]) + [(e.guard, e.order)]
                out[i] = out[i].copy(guard=bor(out[i].guard, e.guard), parts=ps)
                break
        else:
            index.setdefault(k, []).append(len(out))
            out.append(e)
    out = dead_stores(merge_writes(out))
    for e in out:
        e.guard = bcanon(e.guard)
    return out


def overwritten(events):
    """An attribute set again before anything else is done holds the later value only."""
    out = list(events)
    for i, e in enumerate(out):
        if e.kind != 'store' or e.frames or e.parts or e.head.op != 'attr' or e.head.args[0].op != 'self':
            continue
        for j in range(i - 1, -1, -1):
            b = out[j]
            if b.kind != 'store' or b.frames or b.parts or b.head.op != 'attr' or b.head.args[0].op != 'self':
                break
            if b.head is e.head and bsat(band(b.guard, e.guard)):
                out[j] = b.copy(guard=band(b.guard, bnot(e.guard)))
    return [e for e in out if e.guard is not BF and bsat(e.guard)]


def dead_stores(events):
    """An entry set and removed again before anything else is done was never set."""
    out = list(events)
    for i, s in enumerate(out):
        if s.kind != 'store' or s.head.op != 'idx':
            continue
        g = s.guard
        for t in out[i + 1:]:
            if t.kind == 'del' and t.frames == s.frames and strip_ver(t.head) is strip_ver(s.head):
                g = band(g, bnot(t.guard))
            elif t.kind in ('call', 'ret', 'raise', 'mut', 'yield') and bsat(band(t.guard, g)):
                break
        if g is not s.guard:
            out[i] = s.copy(guard=g)
    return [e for e in out if e.guard is not BF and bsat(e.guard)]


def merge_writes(events):
    """Consecutive pieces of text written to one file are one piece."""
    out = []
    for e in events:
        if e.kind == 'mut' and e.head.op == 'meth' and e.head.args[1] == 'write':
            j = len(out) - 1
            while j >= 0 and not (out[j].res & e.res):
                j -= 1
            if j >= 0 and out[j].kind == 'mut' and out[j].head is e.head and out[j].frames == e.frames and out[j].guard is e.guard:
                out[j] = out[j].copy(args=(cat([out[j].args[0], e.args[0]]),))
                continue
        out.append(e)
    return out


# re-normalisation of terms after substitution
def _r_eq(a, b):
    return eqterm(a, b)


ATOMFN.update({
    'eq': eqterm,
    'eq0': lambda d: eqterm(d, ZERO),
    'lt0': lambda d: cmp0('lt0', d),
    'le0': lambda d: cmp0('le0', d),
    'isnone': isnone,
    'truthy': truthy,
    'exists': lambda *a: mkexists(*a) if len(a) == 2 else batom(mk('exists', *a)),
})
_t.truthy_hook = truthy


def _r_idx(na):
    b, k = na[0], na[1]
    if b.op == 'ite':
        return ite(b.args[0], _r_idx([b.args[1]] + na[1:]), _r_idx([b.args[2]] + na[1:]))
    if b.op in ('tuple', 'list') and is_num(k) and isinstance(k.args[0], int) and -len(b.args) <= k.args[0] < len(b.args) and \
            not any(a.op == 'star' for a in b.args):
        return b.args[k.args[0]]
    if k.op == 'index' and len(k.args) > 1 and k.args[0] is b:
        return mk('elem', b, k.args[1])
    return mk('idx', *na)


def _r_attr(na):
    if na[0].op == 'new':
        a = na[0].args[1:]
        for k, v in zip(a[0::2], a[1::2]):
            if k == na[1]:
                return v
    return mk('attr', *na)


def _r_len(na):
    return mklen(na[0]) if len(na) == 1 else mk('len', *na)


def _r_call(op):
    return lambda na: mk(op, *[a for a in na if a is not NO_KW])


REBUILD.update({
    'res': _r_call('res'),
    'call': _r_call('call'),
    'mcall': _r_call('mcall'),
    'idx': _r_idx,
    'attr': _r_attr,
    'len': _r_len,
    'cat': lambda na: cat(na),
    'concat': lambda na: concat(na[0], na[1]) if len(na) == 2 else mk('concat', *na),
    'str': lambda na: na[0] if is_stringy(na[0]) else mk('str', na[0]),
    'dict': lambda na: mkdict(list(zip(na[0::2], na[1::2]))) if len(na) % 2 == 0 else mk('dict', *na),
})
