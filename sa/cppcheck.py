"""The part of the analysis that is about the compiled modules (_core, _space).

The C++ sources of /repo are parsed by clang and lowered (cpplower) to the small language the effect analysis
understands; every function is then compared with its contract in specs_cpp/native.py, which was written in that
language.  Facts about declarations (template constants, method flags, field types, enumerators) are compared too.
"""
import ast
import copy
import json
import os
import pickle
import hashlib
import config as C
import compare as X
import cpplower
import croots
import interp as I
from interp import Interp, normalise_events, strip_ver
from program import Program, Module, Func, Class
from terms import *

SPECS = os.path.join(os.path.dirname(X.HERE), 'specs_cpp')

# readers of other native objects: name -> state read
PURE = {
    'getLocation': {'agent_map', 'coords'}, 'getAgentAt': {'location_map', 'coords'}, 'getAgentsAt': {'location_map', 'coords'},
    'contains_': {'agent_map', 'coords'}, 'name': set(), 'get_': {'location_map'}, 'size_': {'location_map', 'items'},
    'getAll': {'location_map'}, 'intersects': set(), 'calcChildIndex': {'coords'}, 'transform': {'coords'},
    'numDims': set(), 'procsPerDim': set(), 'getRank': set(), 'getOOBData': set(), 'getNeighborData': set(),
    'getLocalBounds': set(), 'getCartesianCommunicator': set(), 'hasNext': {'iter'}, 'what': set(),
    'transform__pt_coords': {'coords'}, 'transform__pt_pt': {'coords'}, 'contains___dpt': {'coords'}, 'contains___dcoords': {'coords'},
    'contains___cpt': {'coords'}, 'contains___ccoords': {'coords'}, 'begin': set(), 'end': set(),
}
# operations on other native objects: name -> state changed
EFFECTS = {
    'move': {'agent_map', 'location_map', 'coords', 'out_of_bounds_agents', 'spatial_tree'},
    'add_': {'agent_map', 'items'}, 'remove_': {'agent_map', 'location_map', 'out_of_bounds_agents', 'spatial_tree', 'items'},
    'put_': {'location_map'}, 'addItem': {'items', 'spatial_tree', 'children'}, 'removeItem': {'items', 'spatial_tree', 'children'},
    'eraseOOB': {'out_of_bounds_agents'}, 'clearOOBData': {'out_of_bounds_agents'}, 'clear_': {'items'},
    'addToNode': {'items', 'children'}, 'split_': {'items', 'children'}, 'getObjectsWithin': set(), 'getAgentsWithin': set(),
    'getBounds': set(), 'getBounds_2': set(), 'getNeighbors': set(), 'getCoords': set(), 'next_': {'iter'}, 'reset_': {'iter'},
    'tp_new': {'alloc'}, 'tp_alloc': {'alloc'}, 'tp_free': {'alloc'}, 'getAllBounds': {'all_bounds'}, 'emplace_': {'all_bounds'},
}
PURE_FUNCS = {'PyArg_value': set(), 'PyLong_FromLong': set(), 'PyLong_AsLong': set(), 'PyLong_FromLongT': set(), 'PyLong_AsLongT': set(),
              'PyFloat_FromDouble': set(), 'PyFloat_AsDouble': set(), 'PyBool_FromLong': set(), 'PyUnicode_FromString': set(),
              'PyUnicode_FromFormat': set(), 'PyOS_double_to_string': set(), 'Py_TYPE': set(), 'PyType_HasFeature': set(),
              'PyArray_NDIM': set(), 'PyArray_SHAPE': set(), 'PyArray_TYPE': set(), 'fmod': set(), 'floor': set(), 'ceil': set(), 'to_string': set(),
              'extract_coords': {'coords'}, 'point_equals': {'coords'}, 'MPI_Comm_rank': set(), 'MPI_Comm_size': set(),
              'MPI_Cart_coords': set(), 'MPI_Cart_rank': set(), 'MPI_Dims_create': set(), 'PyErr_Occurred': set(), 'Py_BuildValue': set(),
              'invalid_argument': set(), 'domain_error': set(), 'runtime_error': set(), 'std_max': set(), 'lround': set(), 'fabs': set(),
              'trunc': set(), 'wrapped': set(), 'PyLong_FromUnsignedLong': set(), 'PyLong_AsUnsignedLong': set(), 'PyLong_FromLongLong': set(),
              'PyTuple_GET_ITEM': set(), 'PyTuple_GET_SIZE': set(), 'PyTuple_Size': set(), 'PyTuple_GetItem': set(), 'PyLong_FromSize_t': set(),
              'int_trunc': set(), 'domain_error': set(), 'out_of_range': set(), 'logic_error': set()}
EFFECT_FUNCS = {'update_point': {'coords'}, 'create_point': {'alloc'}, 'Py_INCREF': None, 'Py_DECREF': None, 'Py_XDECREF': None, 'Py_XINCREF': None,
                'PyErr_SetString': {'error'}, 'PyErr_SetNone': {'error'}, 'MPI_Cart_create': {'comm'}, 'MPI_Allgather': {'comm'},
                'MPI_Comm_free': {'comm'}, 'PyArg_Parse': {'error'}, 'PyErr_Format': {'error'}, 'PyErr_Clear': {'error'}}
TREE = {'items', 'children', 'spatial_tree'}
IMMORTAL = {'Py_None', 'Py_True', 'Py_False'}
# plain structures: built in place
STRUCTS = {'BoundingBox', 'NodePoint', 'Box2D', 'Box3D'}
# building these talks to the other ranks
COLLECTIVE_CLASSES = {'CartesianTopology', 'SharedGrid', 'SharedContinuousSpace', 'DistributedCartesianSpace', 'BaseSpaceType'}

# functions given the number of dimensions of the topology, and its position
DIMS_PARAM = {'compute_buffer_bounds': 2, 'compute_neighbor_buffers': 3}


class CppInterp(Interp):
    def resource(self, t):
        # the coordinates of two points of one operation are different storage
        while t.op in ('idx', 'index', 'elem', 'slice_'):
            if t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'coords':
                return f'coords:{strip_ver(t.args[0].args[0]).dig}'
            t = t.args[0]
        if t.op == 'attr' and t.args[1] == 'coords':
            return f'coords:{strip_ver(t.args[0]).dig}'
        return Interp.resource(self, t)

    def compare(self, op, a, b):
        # a box or topology has 1, 2 or 3 dimensions (its constructors and reset are contracts of their own)
        k = type(op).__name__
        if k in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE') and (I.is_num(a) or I.is_num(b)):
            x, c = (b, a) if I.is_num(a) else (a, b)
            if x.op == 'attr' and x.args[1] in ('num_dims', 'num_dims_') or \
                    x.op == 'param' and x.args[0] == DIMS_PARAM.get(self.acts[0].func.name):
                rel = {'Eq': lambda p, q: p == q, 'NotEq': lambda p, q: p != q, 'Lt': lambda p, q: p < q, 'LtE': lambda p, q: p <= q,
                       'Gt': lambda p, q: p > q, 'GtE': lambda p, q: p >= q}[k]
                one, two = I.eqterm(x, I.const(1)), I.eqterm(x, I.const(2))
                cases = [one, band(bnot(one), two), band(bnot(one), bnot(two))]
                v = c.args[0]
                return bor(BF, *[g for i, g in zip((1, 2, 3), cases) if (rel(i, v) if x is a else rel(v, i))])
        return Interp.compare(self, op, a, b)

    def mcall(self, recv, name, args, kw, n=None, stmt=False):
        if recv.op == 'ite':
            return Interp.mcall(self, recv, name, args, kw, n, stmt)
        act = self.acts[-1]
        if recv is act.selfterm and act.cls is not None:
            m = self.p.method(act.cls, name)
            if m is not None and (act.cls.name, name) not in self.opaque and (m.cls.name, name) not in self.opaque:
                return self.inline(m, act.cls, recv, args, kw, n)
            if m is not None:
                b = self.bind(m, args, kw, True)
                if b is not None:
                    args, kw = b
        elif recv.op == 'obj' and self.objs[recv.args[0]].kind == 'inst' and self.objs[recv.args[0]].escaped is None:
            cls = self.__dict__.get('inst_cls', {}).get(recv.args[0])
            m = self.p.method(cls, name) if cls else None
            if m is not None and name not in PURE:
                return self.inline(m, cls, recv, args, kw, n)
        elif name not in PURE and name not in EFFECTS:
            # a helper method added to a class: only one class has it
            ms = [c.methods[name] for mm in self.p.modules.values() for c in mm.classes.values() if name in c.methods]
            if len(ms) == 1 and (ms[0].cls.name, name) not in self.opaque and not any(
                    self.p.method(c, name) is not None and c is not ms[0].cls for mm in self.p.modules.values() for c in mm.classes.values()
                    if self.p.bases(c) and c is not ms[0].cls and ms[0].cls not in self.p.mro(c)):
                return self.inline(ms[0], ms[0].cls, recv, args, kw, n)
        if name in PURE:
            if name == 'transform':
                args = args[:1]
            return self.pure_mcall(recv, name, args, kw, PURE[name])
        if name in EFFECTS:
            r = self.resource(recv)
            e = {'accessor': {'location_map'}, 'spatial_tree': TREE, 'root': TREE, 'children': TREE, 'items': TREE, 'delegate': TREE}.get(r)
            return self.effect_mcall(recv, name, args, kw, n, (EFFECTS[name] if e is None else e) | {r})
        return Interp.mcall(self, recv, name, args, kw, n, stmt)

    def gcall(self, d, args, kw, n, stmt=False):
        if d.endswith('UNSUPPORTED'):
            self.unsupported.append('construct the lowering of C++ does not know')
        last = d.rsplit('.', 1)[-1]
        r = self.p.lookup(d)
        if r is None or isinstance(r, tuple) or isinstance(r, Func) and ((None, r.name) in self.opaque or (r.module.name, r.name) in self.opaque):
            if last in PURE_FUNCS:
                v = self.ver(PURE_FUNCS[last])
                ra = [self.render(a) for a in args] + self.kwterms(kw)
                return mk('call', mk('glob', last), *ra, v) if v.args else mk('call', mk('glob', last), *ra)
            if last in EFFECT_FUNCS:
                rs = EFFECT_FUNCS[last]
                if rs is None:
                    a = args[0]
                    if a.op == 'glob' and str(a.args[0]).rsplit('.', 1)[-1] in IMMORTAL:
                        return NONE
                    if a.op == 'ite':
                        self.branch(a.args[0], lambda: self.gcall(d, [a.args[1]], kw, n), lambda: self.gcall(d, [a.args[2]], kw, n))
                        return NONE
                    rs = {f'ref:{strip_ver(self.render(args[0])).dig}'}
                return self.opaque_call(mk('glob', last), args, kw, n, set(rs))
        return Interp.gcall(self, d, args, kw, n, stmt)

    def construct(self, cls, args, kw, n):
        if cls.name in STRUCTS:
            if cls.name == 'BoundingBox' and len(args) == 1:
                return args[0]
            o = self.alloc('inst', mk('inst', cls.name), cls.name)
            self.inst_cls = self.__dict__.setdefault('inst_cls', {})
            self.inst_cls[o.args[0]] = cls
            init = None
            for k, m in cls.methods.items():
                if k == '__init__' or k.startswith('__init___'):
                    a = m.node.args
                    hi = len(a.args) - 1
                    lo = hi - len(a.defaults)
                    if lo <= len(args) <= hi and not (k == '__init__' and cls.name == 'BoundingBox'):
                        init = m
            if init is not None:
                self.inline(init, cls, o, args, kw, n)
            return o
        if cls.name in COLLECTIVE_CLASSES:
            return self.opaque_call(mk('glob', f'{cls.module.name}.{cls.name}'), args, kw, n, {'comm'})
        return Interp.construct(self, cls, args, kw, n)

    def passed(self, a, head):
        Interp.passed(self, a, head)
        if a.op == 'obj':
            o = self.objs[a.args[0]]
            if o.kind == 'inst' and o.escaped is None and o.fields:
                who = mk('out', self.render(head), self.order)
                for f in o.fields:
                    self.heap[mk('attr', a, f)] = mk('attr', mk('out', strip_ver(self.render(head))), f)


class CppComparator(X.Comparator):
    def roots(self, tag=None):
        out = []
        m = self.spec.modules['repast4py.native']
        for cn, fn, tags, soft in croots.roots(m):
            if tag is None or tag in tags:
                out.append(('native', cn, fn, tags, soft))
        return out

    def opaque_sets(self, drop_soft=False):
        op = set()
        for mod, cn, fn, tags, soft in self.roots():
            if soft and (drop_soft or self.code_func(mod, cn, fn) is None):
                continue
            if cn is None:
                op.add(('repast4py.' + mod, fn))
            else:
                op.add((cn, fn))
        return op

    def summarise(self, prog, func, cls, opaque, nparams=None, transparent=()):
        it = CppInterp(prog, opaque, transparent=transparent)
        ev = normalise_events(it.run(func, cls, nparams))
        return ev, it.unsupported


def load_spec():
    p = Program('repast4py')
    with open(os.path.join(SPECS, 'native.py')) as f:
        src = f.read()
    p.add(Module('repast4py.native', os.path.join(SPECS, 'native.py'), src=src))
    facts = json.load(open(os.path.join(SPECS, 'facts.json')))
    return p, facts


def load_code(rep):
    tree, facts, problems = cpplower.lower_dir(X.CODE)
    tree.body = [n for n in tree.body if not (isinstance(n, ast.Assign) and 'anonymous' in ast.unparse(n))]
    tree = ast.fix_missing_locations(tree)
    p = Program('repast4py')
    m = Module('repast4py.native', X.CODE, src='', tree=tree)
    p.add(m)
    for f in list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]:
        cf = getattr(f.node, 'cfile', None)
        f.file = cf if cf and os.path.isabs(cf) else os.path.join(X.CODE, cf) if cf else X.CODE
    return p, facts, problems


REF = {'Py_INCREF', 'Py_DECREF', 'Py_XDECREF', 'Py_XINCREF'}


def is_ref(e):
    return e is not None and e.kind == 'call' and e.head.op == 'glob' and e.head.args[0] in REF


def relevant(prop, f):
    evs = [e for e in (f.spec, f.code) if e is not None]
    binding = f.root.startswith('native.Py')
    if prop == 'P29':
        return binding or any(is_ref(e) for e in evs)
    if evs and all(is_ref(e) for e in evs):
        return False
    return True


RANK = {'bool': 0, 'short': 1, 'int': 2, 'unsigned int': 2, 'long': 3, 'unsigned long': 3, 'long long': 3, 'size_t': 3, 'long_t': 3,
        'double': 5, 'float': 4}


def fact_differs(k, a, b):
    if k.endswith(' type'):
        if a in RANK and b in RANK:
            if 'unsigned' in b and 'unsigned' not in a and a != 'bool' and 'size' not in k:
                return True
            return RANK[b] < RANK[a]
        return False
    return a != b


def check_facts(prop, spec, code):
    out, n = [], 0
    for k, a in spec.items():
        if prop not in croots.fact_tags(k):
            continue
        if k not in code:
            continue
        n += 1
        b = code[k]
        if fact_differs(k, a, b):
            out.append((f'native: declaration: {k} is {b}, required: {a}', 'src/repast4py', f'{k} is {b}; required: {a}'))
    return out, n


def run(prop, tier, rep):
    spec, sfacts = load_spec()
    c0 = CppComparator(spec, spec)
    nroots = len(c0.roots(prop))
    if not nroots and not any(prop in croots.fact_tags(k) for k in sfacts):
        return [], 0
    und = rep.setdefault('undecided', [])
    try:
        code, facts, problems = load_code(rep)
    except Exception as x:
        und.append(f'native part: {type(x).__name__} {str(x)[:300]}')
        return [], nroots
    c = CppComparator(spec, code)
    found = []
    for r in c.roots(prop):
        n0 = len(c.undecided)
        try:
            fs = c.check_root(r)
        except X.MissingAnchor:
            raise
        if fs or len(c.undecided) > n0:
            c2 = CppComparator(spec, code)
            fs2 = c2.check_root(r, drop_soft=True)
            if not fs2 and not c2.undecided:
                fs, c.undecided[n0:] = [], []
        found += [(f.ident(), f.where(), f.text) for f in fs if relevant(prop, f)]
    ff, nf = check_facts(prop, sfacts, facts)
    found += ff
    und += c.undecided
    und += [f'native part: {p}' for p in problems]
    rep['native functions compared with their contract'] = c.stats['roots']
    rep['effects matched'] = rep.get('effects matched', 0) + c.stats['matched']
    rep['native declarations compared'] = nf
    rep.setdefault('functions', [])
    rep['functions'] = list(rep['functions']) + [f'{n} ({os.path.relpath(f, X.REPO)}:{l}): {s} effects demanded, {k} found'
                                                 for n, s, k, f, l in c.analysed]
    if tier == 'thorough':
        import audit
        audit.run(spec, code, CppComparator, c.roots(prop), True, 300, rep, 'of the native contracts')
    return found, nroots
