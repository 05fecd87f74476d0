"""Lowers the native sources to the statement language the engine analyses.

clang parses every translation unit (types, templates and macros resolved as in the build) and its syntax tree is
translated: pointers and references become object references, iterators the key or element they stand for,
standard containers the corresponding list, dictionary or set operation, out-parameters assigned results.
The types and methods Python sees are found through the type and method tables, so that a binding is known by
its Python name and not by the name of the C function.  Nothing is executed.
"""
import ast
import copy
import json
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import config as C

UNITS = ['spacemodule.cpp', 'coremodule.cpp', 'geometry.cpp', 'space.cpp', 'SpatialTree.cpp', 'distributed_space.cpp']
INCLUDES = ['/usr/include/python3.12', '/opt/venv/lib/python3.12/site-packages/numpy/_core/include',
            '/opt/venv/lib/python3.12/site-packages/mpi4py/include',
            '/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']

WRAP = {'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
        'CXXStdInitializerListExpr', 'SubstNonTypeTemplateParmExpr', 'CStyleCastExpr', 'CXXStaticCastExpr',
        'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'CXXDynamicCastExpr', 'CXXFunctionalCastExpr'}

CONTAINER = re.compile(r'std::(__cxx11::)?(map|vector|list|set|unordered_map|unordered_set|deque|array)\b|AgentMapType|LocationMapType|AgentList|MapT\b|'
                       r'LMType|IterableT|SequenceT|MapType|MOMapType|SOMapType|AIDPyObjMapT')
MAPLIKE = re.compile(r'std::(unordered_)?map\b|[A-Za-z]*Map(Type)?_?\b|MapT\b|LMType|LocationMapType')
SETLIKE = re.compile(r'std::(unordered_)?set\b')
# member functions of standard containers, used where the type of the receiver depends on a template parameter
CMETHODS = {'find', 'end', 'begin', 'erase', 'emplace', 'push_back', 'push_front', 'pop_back', 'pop_front', 'front', 'back', 'empty',
            'insert', 'emplace_back', 'at', 'data', 'resize', 'cend', 'cbegin', 'reserve', 'count'}

ALWAYS = {'push_back', 'push_front', 'pop_back', 'pop_front', 'emplace_back', 'emplace', 'resize', 'reserve'}

# functions with results in arguments: name -> positions (after lowering, the arguments that are assigned)
OUT = {'extract_coords': [1], 'transform': [1], 'transform_': [1], 'MPI_Comm_size': [1], 'MPI_Comm_rank': [1], 'MPI_Cart_coords': [3],
       'MPI_Cart_rank': [2], 'MPI_Cart_create': [5], 'MPI_Allgather': [3], 'MPI_Dims_create': [2]}
INOUT = {'MPI_Dims_create'}
DATA = {'Point', 'PointComp', 'PtrPointComp', 'agent_id_comp', 'R4Py_AgentID', 'R4Py_Agent', 'CTNeighbor', 'SpaceItem'}
SCRATCH = {'wpt', 'temp_pt'}

ARITH = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|double|float|size_t|bool|long_t|npy_intp|npy_int|Py_ssize_t|'
                   r'unsigned|unsigned int|long long|unsigned long|coord_type|BoundingBox::coord_type|std::size_t)( int| long)?$')
INTEGRAL = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|size_t|long_t|npy_intp|npy_int|Py_ssize_t|unsigned|'
                      r'long long|std::size_t|BoundingBox::coord_type)( int| long)?$')
COLLIDE = (C.MUTATORS | C.PURE_METHODS | set(C.EFFECTS) | set(C.READS) | C.COLLECTIVES | C.POINT2POINT | C.RNG_METHODS |
           {'get', 'pop', 'setdefault', 'add', 'remove', 'clear', 'size', 'next', 'reset', 'contains', 'copy'}) - {'getAgentAt'}


class Unsupported(Exception):
    pass


def user_name(n):
    return n + '_' if n in COLLIDE else n


# --------------------------------------------------------------------------------------------- clang
def wrapper(path):
    """The unit inside a namespace of its own, so that the functions of the unit itself are in the dump."""
    head = []
    with open(path) as f:
        for line in f:
            m = re.match(r'\s*#\s*(include|define)\b(.*)', line)
            if m and not (m.group(1) == 'define' and '(' in m.group(2)):
                head.append(line.rstrip())
            elif re.match(r'\s*(using namespace|namespace|static|template|constexpr|PyMODINIT)', line):
                break
    return '\n'.join(head) + f'\nnamespace repast4py_bind_ns {{\n#include "{path}"\n}}\n'


def dump(path, src):
    own = os.path.basename(path) in ('spacemodule.cpp', 'coremodule.cpp')
    with tempfile.TemporaryDirectory() as d:
        w = os.path.join(d, 'tu.cpp')
        with open(w, 'w') as f:
            f.write(wrapper(path) if own else f'#include "{path}"\n')
        cmd = ['clang++-18', '-std=c++14', '-fsyntax-only', '-w', '-DPY_SSIZE_T_CLEAN'] if False else \
            ['clang++-18', '-std=c++14', '-fsyntax-only', '-w']
        for i in INCLUDES + [src]:
            cmd += ['-I', i]
        cmd += ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=repast4py', w]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if 'fatal error' in r.stderr or ' error: ' in r.stderr:
            raise Unsupported(f'{os.path.basename(path)} does not compile: {r.stderr[:300]}')
    s = r.stdout
    dec = json.JSONDecoder()
    i, tops, n = 0, [], len(s)
    while True:
        while i < n and s[i] in ' \n\t\r':
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        st = [None, 0]
        locate(o, st)
        tops.append(o)
    return tops


def locate(n, st):
    """Gives every node its file and line; clang only prints those that changed."""
    def one(d):
        if 'spellingLoc' in d or 'expansionLoc' in d:
            if 'spellingLoc' in d:
                one(d['spellingLoc'])
            r = one(d.get('expansionLoc', {}))
            return r
        if 'file' in d:
            st[0] = d['file']
        if 'line' in d:
            st[1] = d['line']
        return (st[0], st[1], d.get('offset'), d.get('tokLen', 0)) if d else None
    l = one(n['loc']) if 'loc' in n and n['loc'] else None
    b = e = None
    if 'range' in n:
        b = one(n['range'].get('begin', {}) or {})
        e = one(n['range'].get('end', {}) or {})
    n['_loc'] = l or b
    n['_rng'] = (b, e)
    for c in n.get('inner', ()):
        locate(c, st)


def asserts(n):
    if (n.get('referencedDecl', {}).get('name') or n.get('name')) in ('__assert_fail', '__assert_rtn'):
        return True
    return any(asserts(c) for c in n.get('inner', ()))


def strip(n):
    while n.get('kind') in WRAP and n.get('inner'):
        n = n['inner'][-1] if n['kind'] == 'CXXFunctionalCastExpr' else n['inner'][0]
    return n


def unctor(n):
    n = strip(n)
    while n.get('kind') == 'CXXConstructExpr' and len(n.get('inner', ())) == 1:
        n = strip(n['inner'][0])
    return n


def qt(n):
    return n.get('type', {}).get('qualType', '')


def dq(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


class LFunc:
    def __init__(self, name, cls, node, params, body, static=False):
        self.name, self.cls, self.node, self.params, self.body, self.static = name, cls, node, params, body, static
        self.inits = [x for x in node.get('inner', ()) if x['kind'] == 'CXXCtorInitializer']
        self.file, self.line = node['_loc'][0], node['_loc'][1]
        self.lname = None


class LClass:
    def __init__(self, name, file, line):
        self.name, self.file, self.line = name, file, line
        self.bases, self.fields, self.funcs = [], [], []
        self.ftypes = {}


class Lower:
    def __init__(self, src):
        self.src = src
        self.files = {}
        self.classes, self.funcs = {}, {}
        self.ids = {}
        self.specials = {}
        self.tables = {}
        self.typeobjs = {}
        self.globals = {}
        self.fieldtypes = {}
        self.units = []
        self.aliases = {}
        paths = [os.path.join(src, u) for u in UNITS]
        with ThreadPoolExecutor(6) as ex:
            for tops in ex.map(lambda p: dump(p, src), paths):
                self.units.append(tops)
        for tops in self.units:
            seen_ids = {}
            self.ids = seen_ids
            for t in tops:
                self.index_ids(t)
            for t in tops:
                self.collect(t, None)
            for f in self.pending_ids():
                pass
        self.units = None
        self.name_funcs()

    def pending_ids(self):
        return ()

    def text(self, n):
        b, e = n['_rng']
        if not b or not e or b[0] is None or b[2] is None or e[2] is None:
            return ''
        if b[0] not in self.files:
            with open(b[0], 'rb') as f:
                self.files[b[0]] = f.read()
        return self.files[b[0]][b[2]:e[2] + e[3]].decode(errors='replace')

    # ---------------------------------------------------------------- declarations
    def index_ids(self, n):
        k = n.get('kind')
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl') and n.get('name'):
            self.ids[n['id']] = n['name']
        for c in n.get('inner', ()):
            self.index_ids(c)

    def mine(self, n):
        l = n.get('_loc')
        return l is not None and l[0] is not None and os.path.realpath(l[0]).startswith(os.path.realpath(self.src) + os.sep)

    def collect(self, n, cls):
        k = n.get('kind')
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in n.get('inner', ()):
                self.collect(c, cls)
            return
        if k not in ('ClassTemplateDecl', 'FunctionTemplateDecl') and not self.mine(n):
            return
        if k == 'ClassTemplateDecl':
            for c in n.get('inner', ()):
                if c['kind'] == 'CXXRecordDecl':
                    self.record(c)
        elif k == 'CXXRecordDecl':
            self.record(n)
        elif k in ('ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            self.special(n)
        elif k == 'FunctionTemplateDecl':
            for c in n.get('inner', ()):
                if c['kind'] == 'FunctionDecl':
                    self.function(c, None)
                    break
        elif k == 'FunctionDecl':
            self.function(n, None)
        elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            c = self.ids.get(n.get('parentDeclContextId'))
            self.function(n, c)
        elif k == 'VarDecl':
            self.variable(n)
        elif k in ('TypeAliasDecl', 'TypedefDecl'):
            self.aliases[n.get('name')] = dq(n)
        elif k == 'TypeAliasTemplateDecl':
            for c in n.get('inner', ()):
                if c['kind'] == 'TypeAliasDecl':
                    self.aliases[n.get('name')] = qt(c)

    def record(self, n):
        name = n.get('name')
        if not name or not n.get('completeDefinition') or not self.mine(n):
            return
        if name in self.classes:
            return
        c = self.classes[name] = LClass(name, n['_loc'][0], n['_loc'][1])
        for b in n.get('bases', ()):
            c.bases.append(re.sub(r'<.*', '', b['type']['qualType']).split('::')[-1].strip())
        for x in n.get('inner', ()):
            k = x['kind']
            if k == 'FieldDecl' and x.get('name'):
                c.fields.append((x['name'], self.ctype(x)))
                c.ftypes[x['name']] = qt(x)
                self.fieldtypes.setdefault(x['name'], qt(x))
            elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and not x.get('isImplicit'):
                self.function(x, name)
            elif k == 'VarDecl':
                self.variable(x, name)

    def ctype(self, n):
        """Type of a field or variable, as far as it determines what can be stored there."""
        t = dq(n)
        t = re.sub(r'\b(repast4py::|repast4py_bind_ns::|struct |class |const |typename |std::__cxx11::)', '', t)
        return t.strip()

    def special(self, n):
        args = [a['type']['qualType'] for a in n.get('inner', ()) if a['kind'] == 'TemplateArgument' and 'type' in a]
        if not n.get('name') or not args:
            return
        for x in n.get('inner', ()):
            if x['kind'] == 'VarDecl' and x.get('inner'):
                try:
                    v = FnLower(self, None, None).E(x['inner'][0])
                    self.specials[(n['name'], ', '.join(short(a) for a in args), x['name'])] = ast.unparse(v)
                except Unsupported:
                    pass
            elif x['kind'] in ('TypeAliasDecl',):
                self.specials[(n['name'], ', '.join(short(a) for a in args), x['name'])] = self.ctype(x)

    def function(self, n, cls):
        if not self.mine(n):
            return
        body = None
        params = []
        for x in n.get('inner', ()):
            if x['kind'] == 'ParmVarDecl':
                params.append(x)
            elif x['kind'] in ('CompoundStmt', 'CXXTryStmt'):
                body = x
        if body is None:
            return
        name = n.get('name', '')
        k = n['kind']
        if k == 'CXXConstructorDecl':
            name = '__init__'
        elif k == 'CXXDestructorDecl':
            name = '__del__'
        elif name.startswith('operator'):
            name = {'operator()': '__call__', 'operator<<': '__lshift__'}.get(name, name.replace('operator', 'op_'))
        f = LFunc(name, cls, n, params, body, n.get('storageClass') == 'static' and cls is not None)
        if cls is not None:
            if cls not in self.classes:
                return
            lst = self.classes[cls].funcs
        else:
            lst = self.funcs.setdefault(name, [])
        if not any(g.file == f.file and g.line == f.line and g.name == f.name for g in lst):
            lst.append(f)

    def variable(self, n, cls=None):
        t = qt(n)
        name = n.get('name')
        if not n.get('inner'):
            return
        if 'PyMethodDef' in t or 'PyGetSetDef' in t or 'PyMemberDef' in t:
            self.tables[name] = n
        elif 'PyTypeObject' in t or '_typeobject' in t:
            self.typeobjs[name] = n
        elif cls is None:
            self.globals[name] = n

    def name_funcs(self):
        for c in self.classes.values():
            by = {}
            for f in c.funcs:
                by.setdefault(f.name, []).append(f)
            for nm, lst in by.items():
                self.overloads(user_name(nm) if not nm.startswith('__') else nm, lst)
        for nm, lst in self.funcs.items():
            self.overloads(nm, lst)

    def overloads(self, nm, lst):
        if len(lst) == 1:
            lst[0].lname = nm
            return
        ar = {}
        for f in lst:
            ar.setdefault(len(f.params), []).append(f)
        if len(ar) == len(lst):
            least = min(ar)
            for f in lst:
                f.lname = nm if len(f.params) == least or nm == '__init__' and False else f'{nm}_{len(f.params)}'
            return
        for f in lst:
            f.lname = nm + '__' + '_'.join(kindof(qt(p)) for p in f.params if kindof(qt(p)))
        # names still shared
        seen = {}
        for f in lst:
            seen.setdefault(f.lname, []).append(f)
        for k, v in seen.items():
            if len(v) > 1:
                for i, f in enumerate(v):
                    f.lname = f'{k}_{i}'

    # ---------------------------------------------------------------- python visible types
    def pytypes(self):
        """(python name, {slot: C function name}, {constants}) for every type object."""
        out = {}
        for v, n in self.typeobjs.items():
            init = strip(n['inner'][-1])
            vals = [strip(x) for x in init.get('inner', ())]
            fields = TYPE_SLOTS
            name = None
            slots = {}
            consts = {}
            strings = [x for x in vals if x['kind'] == 'StringLiteral']
            if not strings:
                continue
            name = json_str(strings[0]).split('.')[-1]
            for i, x in enumerate(vals):
                nm = None
                if x['kind'] == 'DeclRefExpr':
                    nm = x['referencedDecl'].get('name')
                elif x['kind'] == 'UnaryOperator':
                    y = strip(x['inner'][0])
                    if y['kind'] == 'DeclRefExpr':
                        nm = y['referencedDecl'].get('name')
                if nm is None:
                    continue
                slot = fields[i] if i < len(fields) else str(i)
                if nm in self.funcs:
                    slots[slot] = nm
                elif nm in self.tables:
                    consts[slot] = nm
            out[v] = (name, slots, consts)
        return out

    def table(self, name):
        rows = []
        n = self.tables[name]
        init = strip(n['inner'][-1])
        for row in init.get('inner', ()):
            row = strip(row)
            cells = []
            for x in row.get('inner', ()):
                y = strip(x)
                if y['kind'] == 'StringLiteral':
                    cells.append(('str', json_str(y)))
                elif y['kind'] == 'DeclRefExpr' and y['referencedDecl'].get('name') in self.funcs:
                    cells.append(('func', y['referencedDecl']['name']))
                elif y['kind'] == 'DeclRefExpr':
                    cells.append(('name', y['referencedDecl'].get('name')))
                elif y['kind'] in ('IntegerLiteral', 'BinaryOperator', 'OffsetOfExpr', 'UnaryExprOrTypeTraitExpr'):
                    cells.append(('val', re.sub(r'\s', '', self.text(y)) if y['kind'] != 'IntegerLiteral' else y['value']))
                else:
                    cells.append(('none', None))
            rows.append(cells)
        return rows

    # ---------------------------------------------------------------- output
    def build(self):
        """One module with everything, and the facts about declarations that are compared as they are."""
        body, facts = [], {}
        self.bound = {}
        self.problems = []
        pyt = self.pytypes()
        classes = []
        for v, (pn, slots, consts) in sorted(pyt.items()):
            meths = []
            for slot, fn in sorted(slots.items()):
                if slot in SLOT_NAMES:
                    meths.append((SLOT_NAMES[slot], fn))
                else:
                    facts[f'{pn} slot {slot}'] = fn
            for slot, tb in sorted(consts.items()):
                for row in self.table(tb):
                    if not row or row[0][0] != 'str':
                        continue
                    key = row[0][1]
                    fns = [x[1] for x in row if x[0] == 'func']
                    if slot == 'tp_methods':
                        if fns:
                            meths.append((key, fns[0]))
                        flags = [x[1] for x in row[1:] if x[0] == 'val']
                        facts[f'{pn}.{key} flags'] = flags_of(flags)
                    elif slot == 'tp_getset':
                        if len(row) > 1 and row[1][0] == 'func':
                            meths.append(('get_' + key, row[1][1]))
                        if len(row) > 2 and row[2][0] == 'func':
                            meths.append(('set_' + key, row[2][1]))
                    elif slot == 'tp_members':
                        facts[f'{pn}.{key} member'] = [x[1] for x in row[1:] if x[0] == 'val']
            classes.append(('Py' + pn, meths))
            for m, fn in meths:
                self.bound.setdefault(fn, []).append('Py' + pn + '.' + m)
        for key, val in sorted(self.specials.items()):
            facts[f'{key[0]}<{key[1]}>::{key[2]}'] = val
        for c in self.classes.values():
            for f, t in c.fields:
                if ARITH.match(t) or 'coord_type' in t or '*' in t:
                    facts[f'{c.name}.{f} type'] = norm_type(t)
        for c in self.classes.values():
            d = self.class_def(c)
            body.append(d)
        for pn, meths in classes:
            d = ast.ClassDef(pn, [], [], [], [])
            for m, fn in meths:
                f = self.funcs[fn][0]
                d.body.append(self.func_def(f, m, pn))
            d.body = d.body or [ast.Pass()]
            body.append(d)
        for nm, lst in sorted(self.funcs.items()):
            for f in lst:
                if nm not in self.bound:
                    body.append(self.func_def(f, f.lname, None))
        for nm, n in sorted(self.globals.items()):
            if 'char' in qt(n) or nm.endswith('_doc'):
                continue
            try:
                fl = FnLower(self, None, None)
                v = fl.E(n['inner'][-1])
                if not fl.pre:
                    facts['global ' + nm] = ast.unparse(v)
                    body.append(ast.Assign([ast.Name(nm, ast.Store())], v, lineno=1))
            except Unsupported:
                pass
        m = ast.Module(body, [])
        ast.fix_missing_locations(m)
        return m, facts

    def class_def(self, c):
        d = ast.ClassDef(c.name, [ast.Name(b, ast.Load()) for b in c.bases if b in self.classes], [], [], [], lineno=c.line)
        has_init = any(f.name == '__init__' for f in c.funcs)
        if not has_init:
            d.decorator_list = [ast.Name('dataclass', ast.Load())]
            for f, t in c.fields:
                d.body.append(ast.AnnAssign(ast.Name(f, ast.Store()), ast.Constant(norm_type(t)), None, 1))
        for f in c.funcs:
            d.body.append(self.func_def(f, f.lname, c))
        d.body = d.body or [ast.Pass()]
        return d

    def func_def(self, f, name, cls):
        fl = FnLower(self, f, cls if isinstance(cls, LClass) else None)
        try:
            node = fl.run(name, bound=isinstance(cls, str))
        except Unsupported as x:
            self.problems.append(f'{f.cls or ""}.{f.name}: {x}')
            node = ast.FunctionDef(name, ast.arguments([], ([ast.arg('self')] if f.cls or isinstance(cls, str) and not f.params else []) + 
                                   [ast.arg('self' if i == 0 and isinstance(cls, str) else p.get('name', f'_{i}')) for i, p in enumerate(f.params)], None, [], [], None, []),
                                   [ast.Expr(ast.Call(ast.Name('UNSUPPORTED', ast.Load()), [], []))], [])
        node.lineno = f.line
        node.cfile = f.file
        node.cname = f.name
        return node


SLOT_NAMES = {'tp_new': '__new__', 'tp_init': '__init__', 'tp_dealloc': '__del__', 'tp_repr': '__repr__', 'tp_str': '__str__',
              'tp_richcompare': '__richcmp__', 'tp_hash': '__hash__', 'tp_iter': '__iter__', 'tp_iternext': '__next__'}
TYPE_SLOTS = ['ob_base', 'tp_name', 'tp_basicsize', 'tp_itemsize', 'tp_dealloc', 'tp_vectorcall_offset', 'tp_getattr', 'tp_setattr', 'tp_as_async',
              'tp_repr', 'tp_as_number', 'tp_as_sequence', 'tp_as_mapping', 'tp_hash', 'tp_call', 'tp_str', 'tp_getattro', 'tp_setattro',
              'tp_as_buffer', 'tp_flags', 'tp_doc', 'tp_traverse', 'tp_clear', 'tp_richcompare', 'tp_weaklistoffset', 'tp_iter', 'tp_iternext',
              'tp_methods', 'tp_members', 'tp_getset', 'tp_base', 'tp_dict', 'tp_descr_get', 'tp_descr_set', 'tp_dictoffset', 'tp_init',
              'tp_alloc', 'tp_new', 'tp_free']


def flags_of(v):
    return sorted(set(re.findall(r'METH_\w+', ' '.join(v)))) or v


def short(t):
    t = re.sub(r'\b(repast4py::|repast4py_bind_ns::|std::__cxx11::|class |struct )', '', t)
    return t


def norm_type(t):
    t = t.strip()
    if re.search(r'double', t):
        return 'double'
    return t


def kindof(t):
    t = t.replace('const ', '')
    if 'AgentID' in t:
        return 'aid'
    if 'R4Py_Agent' in t:
        return 'agent'
    if 'Box2D' in t:
        return '2D'
    if 'Box3D' in t:
        return '3D'
    if 'BoundingBox' in t:
        return 'box'
    if t.startswith('Point<') or ' Point<' in t:
        return ('d' if 'Discrete' in t else 'c' if 'Continuous' in t else '') + 'coords'
    if 'DiscretePoint' in t:
        return 'dpt'
    if 'ContinuousPoint' in t:
        return 'cpt'
    if 'PointType' in t:
        return 'pt'
    if 'AgentList' in t:
        return 'list'
    if 'vector' in t:
        return 'vec'
    if re.match(r'^int|^unsigned', t):
        return 'n'
    return ''


def json_str(n):
    v = n.get('value', '""')
    try:
        return ast.literal_eval(v) if v.startswith('"') else v
    except Exception:
        return v.strip('"')


NAME = lambda s: ast.Name(s, ast.Load())
NONE = lambda: ast.Constant(None)


def store(e):
    e = ast.parse(ast.unparse(e), mode='eval').body if not isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Tuple)) else e
    if isinstance(e, ast.Name):
        return ast.Name(e.id, ast.Store())
    if isinstance(e, ast.Attribute):
        return ast.Attribute(e.value, e.attr, ast.Store())
    if isinstance(e, ast.Subscript):
        return ast.Subscript(e.value, e.slice, ast.Store())
    if isinstance(e, ast.Tuple):
        return ast.Tuple([store(x) for x in e.elts], ast.Store())
    raise Unsupported(f'assignment to {ast.unparse(e)}')


def before_continue(b, inc):
    """The statements with the step of the loop put before every continue of this loop."""
    import copy
    out = []
    for st in b:
        if isinstance(st, ast.Continue):
            out += copy.deepcopy(inc) + [st]
            continue
        if not isinstance(st, (ast.For, ast.While, ast.FunctionDef)):
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(st, f, None):
                    setattr(st, f, before_continue(getattr(st, f), inc))
            for h in getattr(st, 'handlers', ()):
                h.body = before_continue(h.body, inc)
        out.append(st)
    return out


class FnLower:
    def __init__(self, low, f, cls):
        self.low, self.f, self.cls = low, f, cls
        self.pre = []
        self.iters = {}
        self.emplaced = {}
        self.bindings = {}
        self.places = {}
        self.names = {}
        self.scal = []
        self.ntmp = 0
        self.line = f.line if f else 0
        self.selfname = 'self'
        self.vtypes = {}

    # ---------------------------------------------------------------- function
    def run(self, name, bound=False):
        f = self.f
        params = []
        for i, p in enumerate(f.params):
            pn = p.get('name') or f'_{i}'
            if bound and i == 0:
                self.names[p['id']] = 'self'
                self.vtypes['self'] = qt(p)
                continue
            if pn == 'self':
                pn = 'self_'
            self.names[p['id']] = pn
            self.vtypes[pn] = qt(p)
            params.append(pn)
        self.scal = self.scalar_refs(f)
        body = []
        if f.name == '__init__':
            body += self.ctor_inits(f)
        body += self.stmts(f.body['inner'] if f.body['kind'] == 'CompoundStmt' and f.body.get('inner') else
                           ([f.body] if f.body['kind'] != 'CompoundStmt' else []))
        if self.scal:
            ret = self.scal_tuple(None)
            body.append(ast.Return(ret))
        elif f.name in OUT and len(f.params) > OUT[f.name][0] and qt(f.node).split('(')[0].strip() == 'void':
            body.append(ast.Return(NAME(self.names[f.params[OUT[f.name][0]]['id']])))
        args = [ast.arg('self')] if f.cls or bound else []
        args += [ast.arg(p) for p in params]
        dflt = []
        for p in f.params[::-1]:
            d = [x for x in p.get('inner', ()) if x['kind'] not in ('FullComment',)]
            if not p.get('init') or not d:
                break
            dflt.insert(0, self.E(d[-1]))
        return ast.FunctionDef(name, ast.arguments([], args, None, [], [], None, dflt), body or [ast.Pass()], [])

    def scalar_refs(self, f):
        """Parameters through which a number is handed back."""
        out = []
        ret = qt(f.node).split('(')[0].strip()
        for p in f.params:
            t = qt(p)
            m = re.match(r'^(.*?)\s*([*&])$', t)
            if m and ARITH.match(m.group(1).strip()) and not m.group(1).startswith('const') and 'char' not in m.group(1):
                if m.group(2) == '*' and self.indexed(f.body, p['id']):
                    continue
                out.append(self.names.get(p['id'], p.get('name')))
        self.ret_void = ret == 'void'
        return out

    def indexed(self, n, pid):
        if n.get('kind') == 'ArraySubscriptExpr':
            b = strip(n['inner'][0])
            if b.get('kind') == 'DeclRefExpr' and b['referencedDecl'].get('id') == pid:
                return True
        return any(self.indexed(c, pid) for c in n.get('inner', ()))

    def scal_tuple(self, v):
        elts = ([v] if v is not None else []) + [NAME(x) for x in self.scal]
        return elts[0] if len(elts) == 1 else ast.Tuple(elts, ast.Load())

    def ctor_inits(self, f):
        out = []
        for i in f.inits:
            inner = i.get('inner', ())
            if 'anyInit' in i:
                nm = i['anyInit'].get('name')
                if nm in SCRATCH:
                    continue
                t = i['anyInit'].get('type', {}).get('qualType', '')
                v = None
                if inner:
                    x = strip(inner[0])
                    if x['kind'] in ('InitListExpr', 'ParenListExpr', 'CXXConstructExpr') and len(x.get('inner', ())) <= 1 and not \
                            (x['kind'] == 'CXXConstructExpr' and CONTAINER.search(t)):
                        if x.get('inner'):
                            v = self.E(x['inner'][0])
                        else:
                            v = self.default_of(t)
                    elif x['kind'] in ('InitListExpr', 'ParenListExpr'):
                        v = self.construct(t, x.get('inner', ()))
                    else:
                        v = self.E(inner[0])
                else:
                    v = self.default_of(t)
                out += self.flush()
                if v is not None:
                    out.append(ast.Assign([ast.Attribute(NAME('self'), nm, ast.Store())], v))
            elif inner:
                x = strip(inner[0])
                t = i.get('baseInit', {}).get('qualType', '')
                args = [self.E(a) for a in x.get('inner', ()) if a['kind'] != 'CXXDefaultArgExpr'] \
                    if x['kind'] in ('ParenListExpr', 'InitListExpr', 'CXXConstructExpr', 'CXXUnresolvedConstructExpr') else [self.E(x)]
                out += self.flush()
                bn = re.sub(r'<.*', '', t).split('::')[-1].strip() or '?'
                if bn in self.low.classes and any(g.name == '__init__' and (g.body.get('inner') or g.inits) for g in self.low.classes[bn].funcs):
                    out.append(ast.Expr(ast.Call(ast.Attribute(ast.Call(NAME('super'), [], []), '__init__', ast.Load()), args, [])))
        return out

    def default_of(self, t):
        if re.match(r'(const )?(std::)?(unique_ptr|shared_ptr)<', t) or t.endswith('*'):
            return NONE()
        if ARITH.match(t):
            return ast.Constant(0)
        t2 = self.low.aliases.get(re.sub(r'<.*', '', t), t)
        if SETLIKE.search(t) or SETLIKE.search(t2):
            return ast.Call(NAME('set'), [], [])
        if MAPLIKE.search(t) or MAPLIKE.search(t2):
            return ast.Dict([], [])
        if CONTAINER.search(t) or CONTAINER.search(t2):
            return ast.List([], ast.Load())
        b = re.sub(r'<.*', '', t).split('::')[-1].strip()
        if b in self.low.classes:
            return ast.Call(NAME(b), [], [])
        return None

    def flush(self):
        p, self.pre = self.pre, []
        return p

    # ---------------------------------------------------------------- statements
    def stmts(self, lst):
        out = []
        for n in lst:
            out += self.S(n)
        return out

    def block(self, n):
        if n is None:
            return [ast.Pass()]
        r = self.stmts(n.get('inner', ())) if n['kind'] == 'CompoundStmt' else self.S(n)
        return r or [ast.Pass()]

    def S(self, n):
        k = n.get('kind')
        if n.get('_loc') and n['_loc'][1]:
            self.line = n['_loc'][1]
        line = self.line
        out = self.S_(n, k)
        for s in out:
            for x in ast.walk(s):
                if not hasattr(x, 'lineno'):
                    x.lineno = line
        return out

    def S_(self, n, k):
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            return self.stmts(inner)
        if k in ('NullStmt', None):
            return []
        if k == 'DeclStmt':
            out = []
            for d in inner:
                if d['kind'] in ('VarDecl', 'DecompositionDecl'):
                    out += self.decl(d)
                elif d['kind'] in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl'):
                    continue
                else:
                    raise Unsupported(d['kind'])
            return out
        if k == 'ReturnStmt':
            if inner:
                x = strip(inner[0])
                v = self.E(inner[0])
                if self.f and qt(self.f.node).startswith('bool') and x['kind'] not in ('CXXBoolLiteralExpr',):
                    v = self.boolish(inner[0], v)
                out = self.flush()
                if isinstance(v, ast.Expr):
                    v = v.value
                if qt(self.f.node).startswith('void') and not self.scal:
                    # return f(); of a function without a result
                    return out + [ast.Expr(v), ast.Return(None)]
            else:
                v, out = None, []
            if self.scal:
                v = self.scal_tuple(v)
            return out + [ast.Return(v)]
        if k == 'IfStmt' and len(inner) == 3 and asserts(inner[2]):
            return []
        if k == 'IfStmt':
            parts = list(inner)
            out = []
            if n.get('hasInit'):
                out += self.S(parts.pop(0))
            if n.get('hasVar'):
                out += self.S(parts.pop(0))
            c = self.cond(parts[0])
            out += self.flush()
            th = self.block(parts[1])
            el = self.block(parts[2]) if len(parts) > 2 else []
            return out + [ast.If(c, th, el)]
        if k == 'ForStmt':
            return self.for_(inner)
        if k == 'CXXForRangeStmt':
            return self.range_for(inner)
        if k == 'WhileStmt':
            c = self.cond(inner[0])
            if self.pre:
                raise Unsupported('side effect in a loop condition')
            return [ast.While(c, self.block(inner[-1]), [])]
        if k == 'DoStmt':
            b = self.block(inner[0])
            c = self.cond(inner[1])
            if any(isinstance(x, (ast.Continue, ast.Break)) for s in b for x in ast.walk(s)):
                raise Unsupported('do loop')
            return b + [ast.While(c, b, [])]
        if k == 'BreakStmt':
            return [ast.Break()]
        if k == 'ContinueStmt':
            return [ast.Continue()]
        if k == 'CXXTryStmt':
            body = self.block(inner[0])
            hs = []
            for h in inner[1:]:
                hi = h.get('inner', [])
                t = None
                if hi and hi[0].get('kind') == 'VarDecl':
                    t = re.sub(r'[&*]|const ', '', qt(hi[0])).strip().split('::')[-1]
                    self.names[hi[0]['id']] = hi[0].get('name', '_ex')
                hs.append(ast.ExceptHandler(NAME(t) if t else None, hi[0].get('name') if t else None, self.block(hi[-1])))
            return [ast.Try(body, hs, [], [])]
        if k == 'SwitchStmt':
            return self.switch(inner)
        return self.expr_stmt(n)

    def switch(self, inner):
        v = self.E(inner[0])
        out = self.flush()
        self.ntmp += 1
        nm = f'switch{self.ntmp}'
        out.append(ast.Assign([ast.Name(nm, ast.Store())], v))
        arms, cur = [], None

        def add(s):
            nonlocal cur
            k = s.get('kind')
            if k in ('CaseStmt', 'DefaultStmt'):
                i = s.get('inner', [])
                t = None if k == 'DefaultStmt' else self.E(i[0])
                if cur is None or cur[1]:
                    cur = [[], [], False]
                    arms.append(cur)
                cur[0].append(t)
                add(i[-1])
                return
            if k == 'BreakStmt':
                cur[2] = True
                return
            cur[1] += self.S(s)
            if k == 'ReturnStmt':
                cur[2] = True
        for s in inner[-1].get('inner', ()):
            add(s)
        res = []
        for ts, body, done in arms[::-1]:
            if not done and arms[-1][1] is not body:
                raise Unsupported('fall through')
            if None in ts:
                res = body
            else:
                c = [ast.Compare(NAME(nm), [ast.Eq()], [t]) for t in ts]
                res = [ast.If(c[0] if len(c) == 1 else ast.BoolOp(ast.Or(), c), body or [ast.Pass()], res)]
        return out + res

    def decl(self, d):
        nm = d.get('name')
        if not nm and d['kind'] == 'DecompositionDecl':
            nm = 'parts'
        if not nm:
            return []
        if nm == 'self' and self.f and (self.f.cls or not self.f.params or self.names.get(self.f.params[0]['id']) != 'self'):
            pass
        base, i = nm, 1
        while nm in self.names.values() or (nm in self.low.funcs and False):
            i += 1
            nm = f'{base}_v{i}'
        self.names[d['id']] = nm
        t = qt(d)
        self.vtypes[nm] = t
        init = [x for x in d.get('inner', ()) if x['kind'] not in ('FullComment', 'AlignedAttr', 'BindingDecl')] if d.get('inner') else []
        if not init or not d.get('init'):
            v = self.default_of(t) if not ARITH.match(t) and not t.endswith('*') and '[' not in t else None
            m = re.match(r'^(.*)\[(\d+)\]$', t)
            if m:
                return []
            if v is None:
                return []
            return [ast.Assign([ast.Name(nm, ast.Store())], v)]
        x = strip(init[-1])
        it = self.iterator_init(x)
        if it is not None:
            return self.make_iter(d['id'], nm, it)
        if self.lambda_of(init[-1]) is not None:
            return [self.lambda_def(self.lambda_of(init[-1]), nm)]
        em = self.emplacement(x)
        if em is not None:
            out, it = self.insertion(em, nm)
            bs = [b for b in d['inner'] if b['kind'] == 'BindingDecl']
            if bs:
                self.bindings[bs[0]['id']] = ('first', it)
                self.bindings[bs[1]['id']] = ('second', it)
            else:
                self.emplaced[d['id']] = it
            return out
        if d['kind'] == 'DecompositionDecl':
            if t.endswith('&') and not t.startswith('const '):
                raise Unsupported('structured binding by reference')
            v, ns = self.E(init[-1]), []
            for b in d['inner']:
                if b['kind'] == 'BindingDecl':
                    b0 = bn = b['name']
                    i = 1
                    while bn in self.names.values():
                        i += 1
                        bn = f'{b0}_v{i}'
                    self.names[b['id']] = bn
                    ns.append(bn)
            return self.flush() + [ast.Assign([ast.Tuple([ast.Name(b, ast.Store()) for b in ns], ast.Store())], v)]
        if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&') and x['kind'] not in ('CallExpr', 'CXXMemberCallExpr') and (
                ARITH.match(t[:-1].strip()) or t[:-1].strip().endswith('*') or self.f is not None and self.writes(self.f.body, d['id'])):
            # another name for a place
            for v in self.vars_in(x):
                if v in self.names and v not in self.iters and self.f is not None and self.writes(self.f.body, v):
                    raise Unsupported('reference to a place that moves')
            del self.names[d['id']]
            self.places[d['id']] = x
            return []
        if d.get('init') == 'list' or x['kind'] in ('InitListExpr', 'ParenListExpr', 'CXXConstructExpr', 'CXXUnresolvedConstructExpr'):
            v = self.construct_decl(t, x, d)
        else:
            v = self.E(init[-1])
            if t in ('bool', 'const bool'):
                v = self.boolish(init[-1], v)
            if INTEGRAL.match(t) and self.floating(x):
                v = ast.Call(NAME('int'), [v], [])
        out = self.flush()
        if v is None:
            return out
        return out + [ast.Assign([ast.Name(nm, ast.Store())], v)]

    def vars_in(self, n):
        out = [n['referencedDecl'].get('id')] if n.get('kind') == 'DeclRefExpr' else []
        for c in n.get('inner', ()):
            out += self.vars_in(c)
        return out

    def floating(self, n):
        return qt(n) in ('double', 'float', 'const double') and n['kind'] != 'CallExpr' or \
            (qt(n) == 'double' and not (isinstance(n.get('inner'), list) and self.callee_name(n) in ('floor', 'ceil', 'std::floor', 'std::ceil')))

    def callee_name(self, n):
        if n.get('kind') != 'CallExpr':
            return None
        c = strip(n['inner'][0])
        return c.get('name') or c.get('referencedDecl', {}).get('name')

    def construct_decl(self, t, x, d):
        if x['kind'] == 'CXXConstructExpr' and not CONTAINER.search(t) or x['kind'] == 'CXXUnresolvedConstructExpr':
            args = [a for a in x.get('inner', ()) if a['kind'] != 'CXXDefaultArgExpr']
            if len(args) == 1 and self.same_type(args[0], t):
                return self.E(args[0])
        m = re.match(r'^(.*)\[(\d*)\]$', t)
        if m:
            el = [self.E(a) for a in x.get('inner', ()) if a['kind'] != 'ImplicitValueInitExpr'] if x.get('inner') else []
            if not el and x.get('array_filler'):
                el = [self.E(a) for a in x['array_filler'] if a['kind'] != 'ImplicitValueInitExpr']
            if el and m.group(2) and int(m.group(2)) > len(el):
                el += [ast.Constant(0)] * (int(m.group(2)) - len(el))
            return ast.List(el, ast.Load())
        if t == 'auto' or ARITH.match(t) or t.endswith('*') or t.endswith('&'):
            if x['kind'] in ('InitListExpr', 'ParenListExpr') and len(x.get('inner', ())) == 1:
                return self.E(x['inner'][0])
            return self.E(x)
        return self.construct(t, x.get('inner', ()))

    def same_type(self, a, t):
        b = re.sub(r'\b(const|repast4py::|std::__cxx11::|typename)\b|[&*\s]', '', qt(a))
        c = re.sub(r'\b(const|repast4py::|std::__cxx11::|typename)\b|[&*\s]', '', t)
        return b == c or 'shared_ptr' in b or b == '<dependenttype>' and 'ptr' in c or 'string' in c or 'AgentListPtr' in c

    def construct(self, t, inner):
        """Object of a named type from the expressions it is constructed from."""
        args = [a for a in inner if a['kind'] != 'CXXDefaultArgExpr']
        t = t.replace('const ', '').strip()
        bare = re.sub(r'<.*', '', t).split('::')[-1].strip(' &*')
        al = self.low.aliases.get(bare, '')
        if re.search(r'(unique|shared)_ptr', t) and not args:
            return NONE()
        if re.search(r'(unique|shared)_ptr', t) and len(args) == 1:
            return self.E(args[0])
        if 'string' in t and len(args) >= 1:
            return self.E(args[0])
        if SETLIKE.search(t) or SETLIKE.search(al):
            return ast.Set(self.elements(args)) if args else ast.Call(NAME('set'), [], [])
        if 'pair' in t:
            return ast.Tuple([self.E(a) for a in args], ast.Load())
        if MAPLIKE.search(t) or MAPLIKE.search(al):
            return ast.Dict([], []) if not args else self.E(args[0])
        if CONTAINER.search(t) or CONTAINER.search(al) or 'initializer_list' in t:
            if len(args) == 1 and strip(args[0])['kind'] not in ('InitListExpr',) and CONTAINER.search(qt(args[0])):
                return self.E(args[0])
            if len(args) in (1, 2) and strip(args[0])['kind'] not in ('InitListExpr',) and self.f is not None and \
                    not any(a['kind'] == 'CXXStdInitializerListExpr' for a in args) and INTEGRAL.match(qt(args[0])) and '{' not in t:
                return ast.BinOp(ast.List([self.E(args[1]) if len(args) == 2 else ast.Constant(0)], ast.Load()), ast.Mult(), self.E(args[0]))
            return ast.List(self.elements(args), ast.Load())
        a = []
        fl = self.low.classes.get(bare)
        for i, x in enumerate(args):
            y = strip(x)
            if y['kind'] == 'InitListExpr' and fl is not None and i < len(fl.fields):
                a.append(self.construct(fl.fields[i][1], y.get('inner', ())))
            else:
                a.append(self.E(x))
        if bare in self.low.classes or '::' in t or t[:1].isupper():
            if len(args) == 1 and self.same_type(args[0], t) and bare not in ('SpaceItem',):
                return a[0]
            return ast.Call(NAME(bare or 'unknown_type'), a, [])
        if len(a) == 1:
            return a[0]
        return ast.List(a, ast.Load()) if a else ast.Constant(0)

    def elements(self, args):
        if len(args) == 1 and strip(args[0])['kind'] == 'InitListExpr':
            args = strip(args[0]).get('inner', ())
        return [self.E(a) for a in args]

    def for_(self, inner):
        init, cv, cond, inc, body = (inner + [{}] * 5)[:5]
        out = []
        ci = strip(cond) if cond else {}
        # for (auto it = X.begin(); it != X.end(); ++it)
        if init.get('kind') == 'DeclStmt' and len(init['inner']) == 1 and init['inner'][0].get('inner'):
            d = init['inner'][0]
            x = strip(d['inner'][-1])
            r = self.member_call(x)
            if r is not None and r[1] in ('begin', 'cbegin') and self.is_end_cmp(ci, d['id']):
                seq = self.E(r[0])
                nm = d['name']
                self.ntmp += 1
                out += self.flush()
                if self.maplike(r[0]):
                    kn, vn = f'{nm}_k', f'{nm}_v'
                    self.iters[d['id']] = ('pair', kn, vn, None)
                    b = self.block(body)
                    return out + [ast.For(ast.Tuple([ast.Name(kn, ast.Store()), ast.Name(vn, ast.Store())], ast.Store()),
                                          ast.Call(ast.Attribute(seq, 'items', ast.Load()), [], []), b, [])]
                self.iters[d['id']] = ('elem', nm, None, None)
                b = self.block(body)
                return out + [ast.For(ast.Name(nm, ast.Store()), seq, b, [])]
            # for (int i = a; i < b; ++i)
            ups, rest = self.bounds(ci, d['id']) if ci else ([], [])
            if ups and not (rest and not INTEGRAL.match(qt(d))) and inc and self.is_incr(inc, d['id']) and not self.writes(body, d['id']) and \
                    not any(self.writes(x, d['id']) for x in rest) and INTEGRAL.match(qt(d).replace('auto', 'int')):
                lb = self.leading_break(body, d['id'])
                while lb is not None:
                    ups.append(lb[0])
                    body = lb[1]
                    lb = self.leading_break(body, d['id'])
                a = self.E(d['inner'][-1])
                bs = []
                for op, x in ups:
                    e = self.E(x)
                    e = ast.BinOp(e, ast.Add(), ast.Constant(1)) if op == '<=' else e
                    if ast.dump(e) not in [ast.dump(y) for y in bs]:
                        bs.append(e)
                out += self.flush()
                bs.sort(key=ast.dump)
                b = bs[0] if len(bs) == 1 else ast.Call(NAME('min'), bs, [])
                base, i = d['name'], 1
                nm = base
                while nm in self.names.values():
                    i += 1
                    nm = f'{base}_v{i}'
                self.names[d['id']] = nm
                self.vtypes[nm] = 'int'
                args = [b] if isinstance(a, ast.Constant) and a.value == 0 else [a, b]
                head = []
                for x in rest:
                    c = self.cond(x)
                    if self.pre:
                        raise Unsupported('side effect in a loop condition')
                    head.append(ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], []))
                return out + [ast.For(ast.Name(nm, ast.Store()), ast.Call(NAME('range'), args, []), head + self.block(body), [])]
        if init:
            out += self.S(init)
        c = self.cond(cond) if cond else ast.Constant(True)
        if self.pre:
            raise Unsupported('side effect in a loop condition')
        b = self.block(body)
        i = self.expr_stmt(inc) if inc else []
        if any(isinstance(x, ast.Continue) for s in b for x in ast.walk(s)):
            b = before_continue(b, i)
        return out + [ast.While(c, b + i, [])]

    def bounds(self, ci, vid):
        """Upper bounds of i and the rest of a loop condition i < a && i < b && ..."""
        if ci.get('kind') == 'BinaryOperator' and ci.get('opcode') == '&&':
            a, b = self.bounds(strip(ci['inner'][0]), vid), self.bounds(strip(ci['inner'][1]), vid)
            return a[0] + b[0], a[1] + b[1]
        if ci.get('kind') == 'BinaryOperator':
            isv = lambda x: x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == vid
            l, r = strip(ci['inner'][0]), strip(ci['inner'][1])
            if ci['opcode'] in ('<', '<=', '!=') and isv(l):
                return [(ci['opcode'], ci['inner'][1])], []
            if ci['opcode'] in ('>', '>=', '!=') and isv(r):
                return [({'>': '<', '>=': '<=', '!=': '!='}[ci['opcode']], ci['inner'][0])], []
        return [], [ci]

    def leading_break(self, body, vid):
        """(bound, rest of the body) of  { if (i >= X) break; ... }"""
        if not body or body.get('kind') != 'CompoundStmt' or not body.get('inner'):
            return None
        f = body['inner'][0]
        if f.get('kind') != 'IfStmt' or len(f['inner']) != 2:
            return None
        t = f['inner'][1]
        if t.get('kind') == 'CompoundStmt' and len(t.get('inner', ())) == 1:
            t = t['inner'][0]
        if t.get('kind') != 'BreakStmt':
            return None
        c = strip(f['inner'][0])
        if c.get('kind') != 'BinaryOperator' or c.get('opcode') not in ('>=', '==', '>'):
            return None
        l = strip(c['inner'][0])
        if l.get('kind') != 'DeclRefExpr' or l['referencedDecl']['id'] != vid:
            return None
        return ('<=' if c['opcode'] == '>' else '<', c['inner'][1]), dict(body, inner=body['inner'][1:])

    def is_incr(self, n, vid):
        n = strip(n)
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '++':
            x = strip(n['inner'][0])
            return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == vid
        if n.get('kind') == 'CXXOperatorCallExpr' and self.opname(n) == 'operator++':
            x = strip(n['inner'][1])
            return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == vid
        if n.get('kind') == 'CompoundAssignOperator' and n.get('opcode') == '+=':
            x, y = strip(n['inner'][0]), strip(n['inner'][1])
            return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == vid and y.get('value') == '1'
        return False

    def writes(self, n, vid):
        k = n.get('kind')
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (k == 'CompoundAssignOperator' or n.get('opcode') == '=') or \
                k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            x = strip(n['inner'][0])
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('id') == vid:
                return True
        return any(self.writes(c, vid) for c in n.get('inner', ()))

    def is_end_cmp(self, c, vid):
        if not c:
            return False
        ops = self.cmp_parts(c)
        if ops is None:
            return False
        op, a, b = ops
        if op != '!=':
            return False
        for x, y in ((a, b), (b, a)):
            x = unctor(x)
            r = self.member_call(strip(y))
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('id') == vid and r is not None and r[1] in ('end', 'cend'):
                return True
        return False

    def range_for(self, inner):
        rng = var = body = None
        decls = [x for x in inner if x.get('kind') == 'DeclStmt']
        body = inner[-1]
        var = inner[-2]['inner'][0]
        for d in decls:
            v = d['inner'][0]
            if v.get('name', '').startswith('__range'):
                rng = v
        if rng is None:
            raise Unsupported('range for')
        r = rng['inner'][-1]
        seq = self.E(r)
        out = self.flush()
        nm = var.get('name')
        base, i = nm or 'entry', 1
        nm = base
        while nm in self.names.values():
            i += 1
            nm = f'{base}_v{i}'
        if var['kind'] == 'DecompositionDecl':
            bs = [x for x in var['inner'] if x['kind'] == 'BindingDecl']
            ns = []
            for x in bs:
                b0 = bn = x['name']
                i = 1
                while bn in self.names.values():
                    i += 1
                    bn = f'{b0}_v{i}'
                self.names[x['id']] = bn
                ns.append(bn)
                if self.writes(body, x['id']):
                    raise Unsupported('assignment to a structured binding')
            it = ast.Call(ast.Attribute(seq, 'items', ast.Load()), [], []) if self.maplike(r) else seq
            return out + [ast.For(ast.Tuple([ast.Name(x, ast.Store()) for x in ns], ast.Store()), it, self.block(body), [])]
        self.names[var['id']] = nm
        self.vtypes[nm] = qt(var)
        if self.maplike(r):
            kn, vn = f'{nm}_k', f'{nm}_v'
            self.iters[var['id']] = ('pair', kn, vn, None)
            b = self.block(body)
            used = {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name)}
            del used
            return out + [ast.For(ast.Tuple([ast.Name(kn, ast.Store()), ast.Name(vn, ast.Store())], ast.Store()),
                                  ast.Call(ast.Attribute(seq, 'items', ast.Load()), [], []), b, [])]
        b = self.block(body)
        return out + [ast.For(ast.Name(nm, ast.Store()), seq, b, [])]

    def type_of(self, n):
        """Declared type of an expression, also where it depends on a template parameter."""
        n = strip(n)
        t = qt(n)
        while n.get('kind') in ('UnaryOperator', 'CXXOperatorCallExpr') and n.get('inner'):
            m = strip(n['inner'][-1])
            if n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('*', '&') or n.get('kind') == 'CXXOperatorCallExpr' and \
                    len(n['inner']) == 2:
                n = m
                t = qt(n) or t
            else:
                break
        if 'dependent' in t or not t or t.startswith('<'):
            nm = n.get('name') or n.get('member')
            if nm is None and n.get('kind') in ('DependentScopeDeclRefExpr', 'UnresolvedMemberExpr'):
                nm = self.low.text(n).split('::')[-1].split('->')[-1].split('.')[-1].strip()
            if nm and nm in self.low.fieldtypes and n.get('kind') != 'DeclRefExpr':
                return self.low.fieldtypes[nm]
        if n.get('kind') == 'DeclRefExpr':
            return n['referencedDecl'].get('type', {}).get('qualType', t)
        return t

    def maplike(self, n):
        t = self.type_of(n)
        if SETLIKE.search(t) or re.match(r'(const )?std::(vector|list)', t) or 'shared_ptr<std::vector' in t:
            return False
        b = re.sub(r'<.*', '', t).split('::')[-1].strip(' &*')
        return bool(MAPLIKE.search(t) or MAPLIKE.search(self.low.aliases.get(b, '')))

    # ---------------------------------------------------------------- iterators
    def member_call(self, n):
        """(receiver node, method name, argument nodes) of a method call."""
        n = unctor(n)
        if n.get('kind') not in ('CallExpr', 'CXXMemberCallExpr') or not n.get('inner'):
            return None
        c = n['inner'][0]
        while c.get('kind') in ('ParenExpr', 'ImplicitCastExpr') and c.get('inner'):
            c = c['inner'][0]
        args = [a for a in n['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        if c['kind'] == 'MemberExpr':
            return c['inner'][0] if c.get('inner') else None, c.get('name'), args
        if c['kind'] == 'CXXDependentScopeMemberExpr':
            return (c['inner'][0] if c.get('inner') else None), c.get('member'), args
        if c['kind'] == 'UnresolvedMemberExpr':
            t = self.low.text(c)
            nm = re.split(r'->|\.|::', re.sub(r'<[^<>]*(<[^<>]*>[^<>]*)*>', '', t))[-1].strip()
            return (c['inner'][0] if c.get('inner') else None), nm, args
        return None

    def iterator_init(self, x):
        while x.get('kind') == 'CXXConstructExpr' and len(x.get('inner', ())) == 1:
            x = strip(x['inner'][0])
        r = self.member_call(x)
        if r is not None and r[1] == 'find' and len(r[2]) == 1 and r[0] is not None and self.is_container(r[0]):
            return ('find', r[0], r[2][0])
        if x.get('kind') == 'CallExpr':
            c = strip(x['inner'][0])
            nm = c.get('name') or c.get('referencedDecl', {}).get('name')
            if nm == 'find' and len(x['inner']) == 4:
                b = self.member_call(strip(x['inner'][1]))
                if b is not None and b[1] in ('begin', 'cbegin'):
                    return ('stdfind', b[0], x['inner'][3])
            if nm == 'find_if' and len(x['inner']) == 4:
                b = self.member_call(strip(x['inner'][1]))
                lam = self.lambda_of(x['inner'][3])
                if b is not None and b[1] in ('begin', 'cbegin') and lam is not None:
                    k = self.same_as(lam)
                    return ('stdfind', b[0], k) if k is not None else ('findif', b[0], lam)
        return None

    def emplacement(self, x):
        """(container, arguments) of an insertion that reports whether it inserted."""
        while x.get('kind') == 'CXXConstructExpr' and len(x.get('inner', ())) == 1:
            x = strip(x['inner'][0])
        r = self.member_call(x)
        if r is None or r[1] not in ('emplace', 'insert', 'try_emplace') or r[0] is None or not self.is_container(r[0]):
            return None
        if self.maplike(r[0]):
            return (r[0], r[2]) if len(r[2]) == 2 or len(r[2]) == 1 and r[1] == 'insert' else None
        return (r[0], r[2]) if len(r[2]) == 1 and SETLIKE.search(self.type_of(r[0])) else None

    def insertion(self, em, nm):
        """statements of an insertion; NAME_in afterwards: the key was there before."""
        c, args = em
        kn, inn = nm + '_key', nm + '_in'
        seq = self.E(c)
        if self.maplike(c):
            if len(args) == 2:
                k, v = self.E(args[0]), self.E(args[1])
            else:
                e = self.E(args[0])
                if not isinstance(e, (ast.Tuple, ast.List)) or len(e.elts) != 2:
                    raise Unsupported('insertion of a computed pair')
                k, v = e.elts
            put = ast.Assign([ast.Subscript(seq, NAME(kn), ast.Store())], v)
            it = ('mapkey', kn, seq, inn)
        else:
            k = self.E(args[0])
            put = ast.Expr(ast.Call(ast.Attribute(seq, 'add', ast.Load()), [NAME(kn)], []))
            it = ('elem', kn, seq, inn)
        out = self.flush()
        out.append(ast.Assign([ast.Name(kn, ast.Store())], k))
        out.append(ast.Assign([ast.Name(inn, ast.Store())], ast.Compare(NAME(kn), [ast.In()], [seq])))
        out.append(ast.If(ast.UnaryOp(ast.Not(), NAME(inn)), [put], []))
        return out, it

    def make_iter(self, vid, nm, it):
        kind, c, k = it
        kn, inn = nm + '_key', nm + '_in'
        if kind == 'findif':
            seq, f = self.E(c), self.E(k)
            out = self.flush()
            self.ntmp += 1
            v = f'each{self.ntmp}'
            out.append(ast.Assign([ast.Name(inn, ast.Store())], ast.Constant(False)))
            out.append(ast.Assign([ast.Name(kn, ast.Store())], NONE()))
            out.append(ast.For(ast.Name(v, ast.Store()), seq, [ast.If(ast.Call(f, [NAME(v)], []), [
                ast.Assign([ast.Name(kn, ast.Store())], NAME(v)),
                ast.Assign([ast.Name(inn, ast.Store())], ast.Constant(True)), ast.Break()], [])], []))
            self.iters[vid] = ('elem', kn, seq, inn)
            return out
        seq, key = self.E(c), self.E(k)
        out = self.flush()
        out.append(ast.Assign([ast.Name(kn, ast.Store())], key))
        out.append(ast.Assign([ast.Name(inn, ast.Store())], ast.Compare(NAME(kn), [ast.In()], [seq])))
        if kind == 'find' and self.maplike(c):
            self.iters[vid] = ('mapkey', kn, seq, inn)
        else:
            self.iters[vid] = ('elem', kn, seq, inn)
        return out

    def iter_of(self, n):
        n = unctor(n)
        if n.get('kind') == 'CXXOperatorCallExpr' and len(n['inner']) == 2:
            n = strip(n['inner'][1])
        if n.get('kind') == 'DeclRefExpr':
            it = self.iters.get(n['referencedDecl'].get('id'))
            if it is None:
                b = self.bindings.get(n['referencedDecl'].get('id'))
                return b[1] if b is not None and b[0] == 'first' else None
            return it
        if (n.get('name') or n.get('member') or '').lstrip('.->') == 'first' and n.get('inner'):
            b = strip(n['inner'][0])
            e = self.emplaced.get(b['referencedDecl'].get('id')) if b.get('kind') == 'DeclRefExpr' else None
            return e
        return None

    def deref(self, it):
        kind, k, s, inn = it
        if kind == 'elem':
            return NAME(k)
        if kind == 'pair':
            return ast.Tuple([NAME(k), NAME(s)], ast.Load())
        return ast.Tuple([NAME(k), ast.Subscript(s, NAME(k), ast.Load())], ast.Load())

    def iter_member(self, it, name):
        kind, k, s, inn = it
        if kind == 'pair':
            return NAME(k if name == 'first' else s)
        if kind == 'mapkey':
            return NAME(k) if name == 'first' else ast.Subscript(s, NAME(k), ast.Load())
        if kind == 'elem':
            if name == 'first':
                return ast.Subscript(NAME(k), ast.Constant(0), ast.Load())
            if name == 'second':
                return ast.Subscript(NAME(k), ast.Constant(1), ast.Load())
            return ast.Attribute(NAME(k), name, ast.Load())
        raise Unsupported('iterator member ' + name)

    def is_container(self, n):
        t = self.type_of(n)
        b = re.sub(r'<.*', '', t).split('::')[-1].strip(' &*')
        if b in self.low.classes and not re.search('ptr<', t):
            return False
        if re.search(r'Accessor|items_type|BorderType|DelegateType|BaseSpaceType|unique_ptr|shared_ptr<(repast4py::)?(STNode|Composite|SpaceItem)', t):
            return False
        if CONTAINER.search(t) or CONTAINER.search(self.low.aliases.get(b, '')):
            return True
        return None if ('dependent' in t or t in ('', 'auto', 'auto &')) else False

    # ---------------------------------------------------------------- expressions
    def boolish(self, n, v):
        x = strip(n)
        if isinstance(v, ast.Constant) and v.value in (0, 1) and not isinstance(v.value, bool):
            return ast.Constant(bool(v.value))
        return self.cond_of(x, v) if not isinstance(v, ast.Constant) else v

    def cond(self, n):
        x = n
        while x.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr') and x.get('inner'):
            if x['kind'] == 'ImplicitCastExpr' and x.get('castKind') not in ('LValueToRValue', 'NoOp', 'IntegralToBoolean', 'PointerToBoolean',
                                                                            'UserDefinedConversion', 'IntegralCast'):
                break
            x = x['inner'][0]
        k = x.get('kind')
        if k == 'UnaryOperator' and x.get('opcode') == '!':
            return ast.UnaryOp(ast.Not(), self.cond(x['inner'][0]))
        if k == 'BinaryOperator' and x.get('opcode') in ('&&', '||'):
            a = self.cond(x['inner'][0])
            npre = len(self.pre)
            b = self.cond(x['inner'][1])
            if len(self.pre) > npre:
                raise Unsupported('side effect in a condition')
            return ast.BoolOp(ast.And() if x['opcode'] == '&&' else ast.Or(), [a, b])
        return self.cond_of(x, self.E(x))

    def cond_of(self, x, e):
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return e
        if isinstance(e, ast.Name) and e.id.endswith('_in') and any(it[3] == e.id for it in self.iters.values()):
            return e
        t = qt(strip(x))
        if isinstance(e, ast.Constant):
            return e
        if t in ('bool', 'const bool'):
            return e
        if INTEGRAL.match(t) and not isinstance(e, ast.Call):
            return ast.Compare(e, [ast.NotEq()], [ast.Constant(0)])
        if INTEGRAL.match(t):
            return ast.Compare(e, [ast.NotEq()], [ast.Constant(0)]) if self.unsigned(x) else e
        if isinstance(e, ast.Call) and self.unsigned(x):
            return ast.Compare(e, [ast.NotEq()], [ast.Constant(0)])
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)) or t.endswith('*') or 'ptr<' in t:
            return ast.Compare(e, [ast.IsNot()], [NONE()])
        return e

    def unsigned(self, n):
        """The value of a call is not negative."""
        n = strip(n)
        if re.match(r'^(const )?(unsigned|size_t|std::size_t)', qt(n)) and qt(n):
            return True
        r = self.member_call(n)
        if r is None or r[1] is None:
            return False
        fs = [f for c in self.low.classes.values() for f in c.funcs if f.name == r[1].lstrip('.->')]
        return bool(fs) and all(re.match(r'^(unsigned|size_t|std::size_t)', qt(f.node).split('(')[0]) for f in fs)

    def tmp(self, v):
        self.ntmp += 1
        nm = f'tmp{self.ntmp}'
        self.pre.append(ast.Assign([ast.Name(nm, ast.Store())], v))
        return NAME(nm)

    def expr_stmt(self, n):
        x = n
        while x.get('kind') in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'MaterializeTemporaryExpr',
                                'CXXBindTemporaryExpr') and x.get('inner'):
            x = x['inner'][0]
        k = x.get('kind')
        if k == 'BinaryOperator' and x['opcode'] == '=':
            return self.assign(x['inner'][0], x['inner'][1])
        if k == 'CXXOperatorCallExpr' and self.opname(x) == 'operator=':
            return self.assign(x['inner'][1], x['inner'][2])
        if k == 'BinaryOperator' and x['opcode'] == ',':
            return self.expr_stmt(x['inner'][0]) + self.expr_stmt(x['inner'][1])
        if k == 'CompoundAssignOperator':
            v = self.E(x['inner'][1])
            t = self.E(x['inner'][0])
            out = self.flush()
            return out + [self.aug(t, x['opcode'][:-1], v, x)]
        if k == 'CXXOperatorCallExpr' and self.opname(x) in ('operator+=', 'operator-='):
            t, v = self.E(x['inner'][1]), self.E(x['inner'][2])
            return self.flush() + [self.aug(t, self.opname(x)[8:-1], v, x)]
        if k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
            t = self.E(x['inner'][0])
            return self.flush() + [self.aug(t, x['opcode'][0], ast.Constant(1), x)]
        if k == 'CXXOperatorCallExpr' and self.opname(x) in ('operator++', 'operator--'):
            t = self.E(x['inner'][1])
            return self.flush() + [ast.Expr(ast.Call(NAME('advance'), [t], []))]
        if k == 'CXXThrowExpr':
            v = self.E(x['inner'][0]) if x.get('inner') else None
            return self.flush() + [ast.Raise(v, None)]
        if k == 'CXXDeleteExpr':
            v = self.E(x['inner'][0])
            if x.get('isArray') and isinstance(v, ast.Name):
                return self.flush()             # a local buffer
            return self.flush() + [ast.Expr(ast.Call(NAME('delete'), [v], []))]
        if k == 'ConditionalOperator' and asserts(x):
            return self.flush()
        if k == 'ConditionalOperator':
            c = self.cond(x['inner'][0])
            out = self.flush()
            return out + [ast.If(c, self.expr_stmt(x['inner'][1]) or [ast.Pass()], self.expr_stmt(x['inner'][2]))]
        v = self.E(x, stmt=True)
        out = self.flush()
        if v is None or isinstance(v, (ast.Name, ast.Constant)):
            return out
        if isinstance(v, ast.stmt):
            return out + [v]
        return out + [ast.Expr(v)]

    def aug(self, t, op, v, x):
        o = self.binop(op, x)
        return ast.AugAssign(store(t), o, v)

    def binop(self, op, x):
        if op == '/':
            return ast.FloorDiv() if self.int_div(x) else ast.Div()
        return {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '%': ast.Mod, '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor, '<<': ast.LShift,
                '>>': ast.RShift}[op]()

    def int_div(self, x):
        def it(n):
            t = qt(strip(n))
            t = t.replace('const ', '')
            return bool(INTEGRAL.match(t)) or 'coord_type' in t and 'BoundingBox' in t
        if x['kind'] == 'CompoundAssignOperator':
            return it(x['inner'][0]) and it(x['inner'][1])
        return it(x['inner'][0]) and it(x['inner'][1])

    def assign(self, l, r):
        x = strip(r)
        if strip(l).get('kind') == 'DeclRefExpr' and strip(l)['referencedDecl'].get('id') in self.iters:
            it = self.iterator_init(x)
            if it is None:
                raise Unsupported('iterator assigned')
            d = strip(l)['referencedDecl']
            return self.make_iter(d['id'], d['name'], it)
        if x.get('kind') == 'BinaryOperator' and x.get('opcode') == '=':
            out = self.assign(x['inner'][0], x['inner'][1])
            t, v = self.E(l), self.E(x['inner'][0])
            return out + self.flush() + [ast.Assign([store(t)], v)]
        v = self.E(r)
        if qt(strip(l)) == 'bool':
            v = self.boolish(r, v)
        if INTEGRAL.match(qt(strip(l))) and self.floating(x):
            v = ast.Call(NAME('int'), [v], [])
        t = self.E(l)
        out = self.flush()
        if isinstance(t, ast.Name) and t.id == 'self_':
            t = NAME('self_')
        return out + [ast.Assign([store(t)], v)]

    def opname(self, n):
        c = strip(n['inner'][0])
        return c.get('name') or c.get('referencedDecl', {}).get('name') or ''

    def cmp_parts(self, n):
        if n.get('kind') == 'BinaryOperator' and n.get('opcode') in ('==', '!=', '<', '>', '<=', '>='):
            return n['opcode'], n['inner'][0], n['inner'][1]
        if n.get('kind') == 'CXXOperatorCallExpr' and self.opname(n) in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=',
                                                                        'operator>='):
            return self.opname(n)[8:], n['inner'][1], n['inner'][2]
        if n.get('kind') == 'CXXRewrittenBinaryOperator':
            return self.cmp_parts(strip(n['inner'][0]))
        return None

    def compare(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            r = self.member_call(strip(y))
            if r is not None and r[1] in ('end', 'cend') and op in ('==', '!='):
                it = self.iter_of(x)
                if it is not None and it[3] is not None:
                    return NAME(it[3]) if op == '!=' else ast.UnaryOp(ast.Not(), NAME(it[3]))
                fi = self.iterator_init(strip(x))
                if fi is not None:
                    k, s = self.E(fi[2]), self.E(fi[1])
                    return ast.Compare(k, [ast.In() if op == '!=' else ast.NotIn()], [s])
        l, r = self.E(a), self.E(b)
        if isinstance(l, ast.Constant) and isinstance(l.value, int) and not isinstance(r, ast.Constant):
            a, b, l, r, op = b, a, r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if isinstance(r, ast.Constant) and r.value in (0, 1) and not isinstance(r.value, bool):
            z = {('>', 0): '!=', ('>=', 1): '!=', ('<=', 0): '==', ('<', 1): '=='}.get((op, r.value))
            if isinstance(l, ast.Compare) and isinstance(l.ops[0], (ast.In, ast.NotIn)):
                pos = z == '!=' or (op, r.value) in (('!=', 0), ('==', 1))
                neg = z == '==' or (op, r.value) in (('==', 0), ('!=', 1))
                if pos or neg:
                    return l if pos else ast.UnaryOp(ast.Not(), l)
            elif z is not None and isinstance(l, ast.Call) and not (isinstance(l.func, ast.Name) and l.func.id == 'len') and self.unsigned(a):
                op, r = z, ast.Constant(0)
        if isinstance(r, ast.Constant) and r.value is None:
            return ast.Compare(l, [ast.Is() if op == '==' else ast.IsNot()], [r])
        if isinstance(l, ast.Constant) and l.value is None:
            return ast.Compare(r, [ast.Is() if op == '==' else ast.IsNot()], [l])
        o = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE}[op]()
        if op in ('==', '!=') and isinstance(r, ast.Constant) and r.value in (0, 1) and qt(strip(a)) == 'bool':
            return l if (op == '==') == bool(r.value) else ast.UnaryOp(ast.Not(), l)
        return ast.Compare(l, [o], [r])

    def E(self, n, stmt=False):
        k = n.get('kind')
        m = getattr(self, 'e_' + (k or ''), None)
        if k in WRAP:
            return self.wrap(n, stmt)
        if m is not None:
            return m(n)
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            return self.call(n, stmt)
        raise Unsupported(f'{k} at line {self.line}')

    def wrap(self, n, stmt):
        ck = n.get('castKind')
        inner = n['inner'][-1] if n['kind'] == 'CXXFunctionalCastExpr' else n['inner'][0]
        if ck == 'NullToPointer':
            return NONE()
        if n['kind'] == 'CXXFunctionalCastExpr' and strip(inner)['kind'] in ('InitListExpr', 'CXXConstructExpr') and not ARITH.match(qt(n)):
            x = strip(inner)
            return self.construct(qt(n), x.get('inner', ()))
        if n['kind'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr') and qt(n).endswith('*') and \
                strip(inner).get('kind') == 'IntegerLiteral' and strip(inner).get('value') == '0':
            return NONE()
        v = self.E(inner, stmt)
        if ck == 'FloatingToIntegral':
            if not (isinstance(v, ast.Constant)):
                return ast.Call(NAME('int'), [v], [])
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return ast.Compare(v, [ast.IsNot()], [NONE()]) if not isinstance(v, ast.Compare) else v
        if ck == 'IntegralToBoolean' and n['kind'] != 'ImplicitCastExpr':
            return v
        if n['kind'] in ('CStyleCastExpr', 'CXXStaticCastExpr') and INTEGRAL.match(qt(n)) and qt(strip(inner)) in ('double', 'float') and \
                not isinstance(v, (ast.Constant,)) and ck != 'FloatingToIntegral':
            return ast.Call(NAME('int'), [v], [])
        return v

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d.get('id') in self.iters:
            it = self.iters[d['id']]
            return self.deref(it) if it[0] != 'mapkey' else NAME(it[1])
        if d.get('id') in self.bindings:
            k, it = self.bindings[d['id']]
            return ast.UnaryOp(ast.Not(), NAME(it[3])) if k == 'second' else self.deref(it)
        if d.get('id') in self.places:
            return self.E(self.places[d['id']])
        nm = self.names.get(d.get('id'))
        if nm is not None:
            return NAME(nm)
        if d.get('kind') == 'EnumConstantDecl':
            return NAME(d['name'])
        if d.get('name') in ('_Py_NoneStruct',):
            return NAME('Py_None')
        if d.get('name') in ('_Py_TrueStruct', '_Py_FalseStruct', '_Py_NotImplementedStruct'):
            return NAME(d['name'].replace('_Py_', 'Py_').replace('Struct', ''))
        g = self.low.globals.get(d.get('name'))
        if g is not None and ('constexpr' in self.low.text(g) or qt(g).startswith('const ')) and ARITH.match(qt(g).replace('const ', '')):
            x = strip(g['inner'][-1])
            if x.get('kind') in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr'):
                return self.E(x)
        if self.cls is not None and d.get('kind') in ('FieldDecl', 'VarDecl') and d.get('name') in self.cls.ftypes and d.get('id') not in self.names:
            return ast.Attribute(NAME('self'), d['name'], ast.Load())
        return NAME(d.get('name') or 'anonymous')

    def field(self, base, name):
        if isinstance(base, ast.Name) and base.id == 'self' and name in SCRATCH and self.f is not None and self.f.cls:
            return NAME('self_' + name)
        return ast.Attribute(base, name, ast.Load())

    def member(self, n, name):
        inner = n.get('inner')
        if not inner:
            t = self.low.text(n) if n.get('kind') == 'CXXDependentScopeMemberExpr' else ''
            q = re.sub(r'<[^<>]*(<[^<>]*>[^<>]*)*>', '', t).split('::')
            if len(q) >= 2 and not (self.cls is not None and q[-2].strip() in self.ancestors(self.cls.name)):
                return NAME(re.sub(r'\W+', '_', t.replace('this->', '')))
            return self.field(NAME('self'), name)
        b = inner[0]
        if name == 'second':
            sb = strip(b)
            it = self.emplaced.get(sb['referencedDecl'].get('id')) if sb.get('kind') == 'DeclRefExpr' else None
            if it is None:
                em = self.emplacement(sb)
                if em is not None:
                    self.ntmp += 1
                    out, it = self.insertion(em, f'put{self.ntmp}')
                    self.pre += out
            if it is not None:
                return ast.UnaryOp(ast.Not(), NAME(it[3]))
        it = self.iter_of(b)
        if it is not None and name in ('first', 'second'):
            return self.iter_member(it, name)
        if it is not None and it[0] == 'elem':
            return self.iter_member(it, name)
        e = self.E(b)
        if name == 'first':
            return ast.Subscript(e, ast.Constant(0), ast.Load())
        if name == 'second':
            return ast.Subscript(e, ast.Constant(1), ast.Load())
        if not name:
            return e
        if name in ('ob_base',):
            return e
        return self.field(e, name)

    def e_MemberExpr(self, n):
        return self.member(n, n.get('name', '').lstrip('.->'))

    def e_CXXDependentScopeMemberExpr(self, n):
        return self.member(n, n.get('member'))

    def e_UnresolvedMemberExpr(self, n):
        t = re.sub(r'<[^<>]*(<[^<>]*>[^<>]*)*>', '', self.low.text(n))
        nm = re.split(r'->|\.|::', t)[-1].strip()
        return self.member(n, nm)

    def e_DependentScopeDeclRefExpr(self, n):
        t = re.sub(r'<[^<>]*(<[^<>]*>[^<>]*)*>', '', self.low.text(n))
        parts = [p.strip() for p in t.split('::') if p.strip()]
        if len(parts) >= 2 and self.cls is not None and parts[-2] in self.ancestors(self.cls.name):
            return self.field(NAME('self'), parts[-1])
        return NAME(re.sub(r'\W+', '_', self.low.text(n)).strip('_') or 'unknown')

    def ancestors(self, c):
        out, q = [], [c]
        while q:
            x = q.pop()
            if x in out:
                continue
            out.append(x)
            if x in self.low.classes:
                q += self.low.classes[x].bases
        return out

    def e_UnresolvedLookupExpr(self, n):
        return NAME(n.get('name'))

    def e_CXXThisExpr(self, n):
        return NAME('self')

    def e_UnaryOperator(self, n):
        op = n['opcode']
        x = n['inner'][0]
        if op == '*':
            it = self.iter_of(x)
            if it is not None:
                return self.deref(it)
            return self.E(x)
        if op == '&':
            y = strip(x)
            if y.get('kind') == 'ArraySubscriptExpr' or y.get('kind') == 'CXXOperatorCallExpr':
                return self.E(x)
            return self.E(x)
        if op == '!':
            return ast.UnaryOp(ast.Not(), self.cond(x))
        if op in ('++', '--'):
            t = self.E(x)
            if n.get('isPostfix'):
                old = self.tmp(t)
                self.pre.append(self.aug(t, op[0], ast.Constant(1), n))
                return old
            self.pre.append(self.aug(t, op[0], ast.Constant(1), n))
            return t
        v = self.E(x)
        if op == '-':
            if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)):
                return ast.Constant(-v.value)
            return ast.UnaryOp(ast.USub(), v)
        if op == '+':
            return v
        if op == '__extension__':
            return v
        raise Unsupported('operator ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        if op in ('&&', '||'):
            return self.cond(n)
        c = self.cmp_parts(n)
        if c is not None:
            return self.compare(*c)
        if op == '=':
            self.pre += self.assign(n['inner'][0], n['inner'][1])
            return self.E(n['inner'][0])
        if op == ',' and asserts(n['inner'][0]):
            return self.E(n['inner'][1])
        if op == ',':
            self.pre += self.expr_stmt(n['inner'][0])
            return self.E(n['inner'][1])
        return ast.BinOp(self.E(n['inner'][0]), self.binop(op, n), self.E(n['inner'][1]))

    def e_CompoundAssignOperator(self, n):
        self.pre += self.expr_stmt(n)
        return self.E(n['inner'][0])

    def e_CXXRewrittenBinaryOperator(self, n):
        return self.E(n['inner'][0])

    def e_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        a = n['inner'][1:]
        if op == 'operator[]':
            return ast.Subscript(self.E(a[0]), self.E(a[1]), ast.Load())
        c = self.cmp_parts(n)
        if c is not None:
            return self.compare(*c)
        if op in ('operator->', 'operator*') and len(a) == 1:
            it = self.iter_of(a[0])
            if it is not None:
                return self.deref(it)
            x = strip(a[0])
            if self.iterator_field(x):
                return ast.Call(NAME('current'), [self.E(a[0])], [])
            return self.E(a[0])
        if op == 'operator=':
            self.pre += self.assign(a[0], a[1])
            return self.E(a[0])
        if op == 'operator()':
            return ast.Call(self.E(a[0]), [self.E(x) for x in a[1:]], [])
        if op in ('operator+', 'operator-') and len(a) == 2:
            return ast.BinOp(self.E(a[0]), ast.Add() if op == 'operator+' else ast.Sub(), self.E(a[1]))
        if op == 'operator!':
            return ast.UnaryOp(ast.Not(), self.cond(a[0]))
        if op == 'operator<<':
            return ast.Call(NAME('stream'), [self.E(x) for x in a], [])
        if op in ('operator++', 'operator--'):
            self.pre.append(ast.Expr(ast.Call(NAME('advance'), [self.E(a[0])], [])))
            return self.E(a[0])
        if op == 'operator bool':
            return ast.Compare(self.E(a[0]), [ast.IsNot()], [NONE()])
        raise Unsupported(op)

    def iterator_field(self, x):
        return (x.get('name') or x.get('member') or '').endswith('iter_')

    def e_ArraySubscriptExpr(self, n):
        return ast.Subscript(self.E(n['inner'][0]), self.E(n['inner'][1]), ast.Load())

    def e_ConditionalOperator(self, n):
        c = self.cond(n['inner'][0])
        k = len(self.pre)
        a, b = self.E(n['inner'][1]), self.E(n['inner'][2])
        if len(self.pre) > k:
            raise Unsupported('side effect in a conditional')
        return ast.IfExp(c, a, b)

    def e_IntegerLiteral(self, n):
        return ast.Constant(int(n['value']))

    def e_FloatingLiteral(self, n):
        v = float(n['value'])
        return ast.Constant(int(v) if v == int(v) and abs(v) < 1e6 else v)

    def e_StringLiteral(self, n):
        return ast.Constant(json_str(n))

    def e_CharacterLiteral(self, n):
        return ast.Constant(n.get('value'))

    def e_CXXBoolLiteralExpr(self, n):
        return ast.Constant(bool(n['value']))

    def e_CXXNullPtrLiteralExpr(self, n):
        return NONE()

    def e_GNUNullExpr(self, n):
        return NONE()

    def e_ImplicitValueInitExpr(self, n):
        return ast.Constant(0)

    def e_CXXScalarValueInitExpr(self, n):
        return ast.Constant(0)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return ast.Constant('sizeof ' + (n.get('argType', {}).get('qualType') or re.sub(r'\s', '', self.low.text(n))))

    def e_SourceLocExpr(self, n):
        return ast.Constant('')

    e_PredefinedExpr = e_SourceLocExpr

    def e_OffsetOfExpr(self, n):
        return ast.Constant(re.sub(r'\s', '', self.low.text(n)))

    def e_InitListExpr(self, n):
        t = qt(n)
        if t and not t.startswith('<') and t not in ('void',) and not ARITH.match(t):
            m = re.match(r'^(.*)\[(\d*)\]$', t)
            if m:
                return ast.List([self.E(a) for a in n.get('inner', ())], ast.Load())
            return self.construct(t, n.get('inner', ()))
        a = [self.E(x) for x in n.get('inner', ())]
        if len(a) == 1 and ARITH.match(t or ''):
            return a[0]
        return ast.List(a, ast.Load())

    def e_ParenListExpr(self, n):
        a = [self.E(x) for x in n.get('inner', ())]
        return a[0] if len(a) == 1 else ast.Tuple(a, ast.Load())

    def e_CXXConstructExpr(self, n):
        args = [a for a in n.get('inner', ()) if a['kind'] != 'CXXDefaultArgExpr']
        t = qt(n)
        if len(args) == 1 and (self.same_type(args[0], t) or 'iterator' in t.lower()):
            return self.E(args[0])
        if re.search(r'invalid_argument|domain_error|runtime_error|out_of_range|logic_error|exception', t):
            return ast.Call(NAME(t.split('::')[-1]), [self.E(a) for a in args], [])
        return self.construct(t, args)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXUnresolvedConstructExpr(self, n):
        t = qt(n) or n.get('typeAsWritten', {}).get('qualType', '')
        return self.construct(t, n.get('inner', ()))

    def e_CXXNewExpr(self, n):
        t = qt(n).rstrip('* ').strip()
        inner = n.get('inner', ())
        if n.get('isArray'):
            size = self.E(inner[0])
            return ast.BinOp(ast.List([ast.Constant(0)], ast.Load()), ast.Mult(), size)
        if 'dependent' in t or not t:
            m = re.match(r'new\s+([\w:]+)', self.low.text(n))
            t = m.group(1) if m else t
        t = self.expand(t)
        if not inner:
            return ast.Call(NAME(re.sub(r'<.*', '', t).split('::')[-1]), [], [])
        x = strip(inner[-1])
        if x['kind'] in ('CXXConstructExpr', 'ParenListExpr', 'InitListExpr', 'CXXUnresolvedConstructExpr'):
            args = [self.E(a) for a in x.get('inner', ()) if a['kind'] != 'CXXDefaultArgExpr']
        else:
            args = [self.E(x)]
        b = re.sub(r'<.*', '', t).split('::')[-1]
        inst = re.search(r'<(.*)>', t)
        kw = []
        if inst and b in self.low.classes:
            of = self.tmpl(inst.group(1))
            kw = [ast.keyword('of', ast.Constant(of))] if of else []
        return ast.Call(NAME(b), args, kw)

    def tmpl(self, t):
        """Template arguments, which select what the class delegates to."""
        own = [x for x in re.findall(r'\w+', short(self.expand(t))) if x in self.low.classes and x not in DATA]
        return ','.join(x for i, x in enumerate(own) if i == 0 or x != own[i - 1])

    def expand(self, t):
        """The type with names the sources give to types replaced by what they stand for."""
        for _ in range(6):
            t2 = re.sub(r'\b[A-Za-z_]\w*\b(?!\s*<)', lambda m: self.low.aliases.get(m.group(0), m.group(0))
                        if '<' in self.low.aliases.get(m.group(0), '') and '\\' not in m.group(0) else m.group(0), t)
            if t2 == t:
                break
            t = t2
        return t

    def e_CXXDefaultArgExpr(self, n):
        return NONE()

    def e_CXXDeleteExpr(self, n):
        return ast.Call(NAME('delete'), [self.E(n['inner'][0])], [])

    def e_CXXThrowExpr(self, n):
        self.pre.append(ast.Raise(self.E(n['inner'][0]), None))
        return NONE()

    def e_StmtExpr(self, n):
        inner = n['inner'][0].get('inner', ())
        for s in inner[:-1]:
            self.pre += self.S(s)
        return self.E(inner[-1])

    # ---------------------------------------------------------------- lambdas
    def lambda_parts(self, n):
        op = None
        for c in n['inner'][0].get('inner', ()):
            if c['kind'] == 'FunctionTemplateDecl':
                c = next((x for x in c.get('inner', ()) if x['kind'] == 'CXXMethodDecl'), c)
            if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
                break
        body = n['inner'][-1]
        if op is None or body.get('kind') != 'CompoundStmt':
            raise Unsupported('lambda')
        return op, [p for p in op.get('inner', ()) if p['kind'] == 'ParmVarDecl'], body

    def refs(self, n, out=None):
        out = set() if out is None else out
        if n.get('kind') == 'DeclRefExpr':
            out.add(n['referencedDecl'].get('id'))
        for c in n.get('inner', ()):
            self.refs(c, out)
        return out

    def lambda_def(self, n, nm):
        op, ps, body = self.lambda_parts(n)
        for v in self.refs(body):
            if v in self.iters or v in self.places:
                raise Unsupported('lambda over an iterator')
            if v in self.names and self.f is not None and self.writes(self.f.body, v):
                raise Unsupported('lambda over a variable that changes')
        params = []
        for i, p in enumerate(ps):
            pn = p.get('name') or f'_{i}'
            base, j = pn, 1
            while pn in self.names.values():
                j += 1
                pn = f'{base}_v{j}'
            self.names[p['id']] = pn
            self.vtypes[pn] = qt(p)
            params.append(ast.arg(pn))
            if p.get('init'):
                raise Unsupported('lambda with a default')
        keep = self.f, self.scal, self.pre
        self.f, self.scal, self.pre = copy.copy(self.f), [], []
        self.f.node = op
        try:
            out = self.stmts(body.get('inner', ()))
        finally:
            self.f, self.scal, self.pre = keep
        return ast.FunctionDef(nm, ast.arguments([], params, None, [], [], None, []), out or [ast.Pass()], [])

    def e_LambdaExpr(self, n):
        self.ntmp += 1
        nm = f'lambda{self.ntmp}'
        self.pre.append(self.lambda_def(n, nm))
        return NAME(nm)

    def lambda_of(self, n):
        while n.get('kind') in WRAP or n.get('kind') in ('CXXConstructExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') \
                and len(n.get('inner', ())) == 1:
            n = n['inner'][0]
        return n if n.get('kind') == 'LambdaExpr' else None

    def same_as(self, lam):
        """x of a predicate  [x](auto e) { return e == x; }, else None."""
        op, ps, body = self.lambda_parts(lam)
        b = body.get('inner', ())
        if len(ps) != 1 or len(b) != 1 or b[0]['kind'] != 'ReturnStmt' or not b[0].get('inner'):
            return None
        c = self.cmp_parts(strip(b[0]['inner'][0]))
        if c is None or c[0] != '==':
            return None
        pid = ps[0]['id']
        for x, y in ((c[1], c[2]), (c[2], c[1])):
            x = strip(x)
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('id') == pid and pid not in self.refs(y):
                return y
        return None

    def whole(self, a, b):
        """The container c of the pair c.begin(), c.end()."""
        x, y = self.member_call(unctor(strip(a))), self.member_call(unctor(strip(b)))
        if x is not None and y is not None and x[1] in ('begin', 'cbegin') and y[1] in ('end', 'cend') and x[0] is not None and y[0] is not None:
            p, q = self.E(x[0]), self.E(y[0])
            if ast.dump(p) == ast.dump(q):
                return p
        return None

    def algorithm(self, nm, argn, stmt):
        seq = self.whole(argn[0], argn[1])
        if seq is None:
            raise Unsupported('std::' + nm)
        f = self.E(argn[2])
        self.ntmp += 1
        v = f'each{self.ntmp}'
        call = ast.Call(f, [NAME(v)], [])
        if nm == 'for_each':
            self.pre.append(ast.For(ast.Name(v, ast.Store()), seq, [ast.Expr(call)], []))
            return None
        gen = ast.GeneratorExp(ast.UnaryOp(ast.Not(), call) if nm == 'none_of' else call,
                               [ast.comprehension(ast.Name(v, ast.Store()), seq, [], 0)])
        return ast.Call(NAME('any' if nm == 'any_of' else 'all'), [gen], [])

    # ---------------------------------------------------------------- calls
    def call(self, n, stmt):
        inner = n['inner']
        c = inner[0]
        while c.get('kind') in ('ParenExpr', 'ImplicitCastExpr') and c.get('inner'):
            c = c['inner'][0]
        argn = [a for a in inner[1:] if a['kind'] != 'CXXDefaultArgExpr']
        r = self.member_call(n)
        if r is not None:
            return self.method(r, c, n, stmt)
        if c['kind'] == 'DependentScopeDeclRefExpr':
            t = re.sub(r'<[^<>]*(<[^<>]*>[^<>]*)*>', '', self.low.text(c))
            parts = [p.strip() for p in t.split('::') if p.strip()]
            if len(parts) >= 2 and self.cls is not None and parts[-2] in self.ancestors(self.cls.name):
                return self.method((None, parts[-1], argn), c, n, stmt, via=parts[-2])
            return ast.Call(NAME('_'.join(parts)), [self.E(a) for a in argn], [])
        nm = c.get('name') or c.get('referencedDecl', {}).get('name')
        if nm is None:
            f = self.E(c)
            return ast.Call(f, [self.E(a) for a in argn], [])
        if c.get('kind') == 'DeclRefExpr' and c['referencedDecl'].get('id') in self.names:
            return ast.Call(NAME(self.names[c['referencedDecl']['id']]), [self.E(a) for a in argn], [])
        nm = re.sub(r'^_(Py\w+)_SizeT$', r'\1', nm)
        if self.cls is not None and not self.f.static and (c.get('referencedDecl', {}).get('kind') == 'CXXMethodDecl' or c['kind'] == 'UnresolvedLookupExpr') \
                and any(g.name == nm and g.static for a in self.ancestors(self.cls.name) if a in self.low.classes for g in self.low.classes[a].funcs):
            return self.method((None, nm, argn), c, n, stmt)
        if nm in ('move', 'forward', 'ref', 'static_pointer_cast') and len(argn) == 1 and nm not in self.low.funcs:
            return self.E(argn[0])
        if nm == 'PyArray_DATA':
            return self.E(argn[0])
        if nm in ('make_pair', 'make_tuple'):
            return ast.Tuple([self.E(a) for a in argn], ast.Load())
        if nm in ('max', 'min') and len(argn) == 2:
            return ast.Call(NAME(nm), [self.E(a) for a in argn], [])
        if nm in ('make_shared', 'make_unique'):
            t = self.low.text(n)
            m = re.match(r'(?:std::)?make_(?:shared|unique)\s*<(.*)>\s*\(', t, re.S)
            targ = m.group(1).strip() if m else ''
            # only the template argument list, not what follows
            targ = self.balanced(targ)
            v = self.construct(targ, argn)
            return v
        if nm == 'numeric_limits':
            return NAME('limits')
        if nm.startswith('PyArg_Parse'):
            return self.parse(nm, argn)
        if nm == 'fill_n' and len(argn) == 3:
            t, k, v = self.E(argn[0]), self.E(argn[1]), self.E(argn[2])
            self.pre.append(ast.Assign([store(t)], ast.BinOp(ast.List([v], ast.Load()), ast.Mult(), k)))
            return None if stmt else t
        if nm in ('for_each', 'any_of', 'all_of', 'none_of') and len(argn) == 3 and nm not in self.low.funcs:
            return self.algorithm(nm, argn, stmt)
        if nm in ('find', 'find_if', 'find_if_not') and len(argn) == 3:
            raise Unsupported('std::find in an expression')
        if nm in ('Py_INCREF', 'Py_DECREF', 'Py_XINCREF', 'Py_XDECREF', 'Py_CLEAR', '_Py_INCREF', '_Py_DECREF'):
            return self.refcount(nm.lstrip('_'), self.E(argn[0]))
        if nm in ('Py_NewRef', 'Py_XNewRef', '_Py_NewRef', '_Py_XNewRef'):
            a = self.E(argn[0])
            v = self.refcount('Py_XINCREF' if 'X' in nm else 'Py_INCREF', a)
            if v is not None:
                self.pre.append(ast.Expr(v))
            return a
        out = OUT.get(nm)
        lst = self.low.funcs.get(nm)
        args = [self.E(a) for a in argn]
        if nm.startswith('MPI_'):               # &x[0]: the storage of x
            args = [v.value if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Constant) and v.slice.value == 0 and
                    strip(a).get('kind') == 'UnaryOperator' else v for v, a in zip(args, argn)]
        if out is not None and all(i < len(args) for i in out) and (lst is None or nm in ('extract_coords', 'transform')):
            ins = [a for i, a in enumerate(args) if i not in out or nm in INOUT]
            t = [args[i] for i in out]
            if nm == 'MPI_Cart_create' and False:
                pass
            for x in range(len(t)):
                if isinstance(t[x], ast.Subscript) and isinstance(t[x].slice, ast.Constant) and t[x].slice.value == 0 and \
                        nm in ('MPI_Cart_coords', 'MPI_Allgather'):
                    t[x] = t[x].value
            v = ast.Call(NAME(nm), ins, [])
            self.pre.append(ast.Assign([store(t[0])], v))
            return None if stmt else ast.Constant(0)
        if lst is not None and len(lst) >= 1:
            g = [f for f in lst if len(f.params) == len(args)] or lst
            sc = self.scalar_params(g[0])
            if sc:
                ts = [args[i] for i in sc]
                v = ast.Call(NAME(self.call_name(lst, g[0])), args, [])
                void = qt(g[0].node).split('(')[0].strip() == 'void'
                if void:
                    tgt = ts[0] if len(ts) == 1 else ast.Tuple(ts, ast.Load())
                    self.pre.append(ast.Assign([store(tgt)], v))
                    return None
                self.ntmp += 1
                r = NAME(f'tmp{self.ntmp}')
                self.pre.append(ast.Assign([store(ast.Tuple([r] + ts, ast.Load()))], v))
                return r
            return ast.Call(NAME(self.call_name(lst, g[0])), args, [])
        return ast.Call(NAME(nm), args, [])

    def refcount(self, nm, a):
        if isinstance(a, ast.Name) and a.id in ('Py_None', 'Py_True', 'Py_False'):
            return None                     # immortal
        if nm in ('Py_XDECREF', 'Py_XINCREF'):
            self.pre.append(ast.If(ast.Compare(a, [ast.IsNot()], [NONE()]),
                                   [ast.Expr(ast.Call(NAME(nm.replace('X', '')), [a], []))], []))
            return None
        return ast.Call(NAME(nm), [a], [])

    def call_name(self, lst, f):
        if len(lst) == 1 or len({len(g.params) for g in lst}) == len(lst):
            return f.lname
        return f.name

    def balanced(self, t):
        d = 0
        for i, ch in enumerate(t):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
                if d < 0:
                    return t[:i]
        return t

    def scalar_params(self, f):
        fl = FnLower(self.low, f, None)
        for i, p in enumerate(f.params):
            fl.names[p['id']] = str(i)
        return [int(x) for x in fl.scalar_refs(f)]

    def parse(self, nm, argn):
        """PyArg_Parse*: the destinations are assigned what the format converts."""
        i = 1 if nm != 'PyArg_ParseTupleAndKeywords' else 2
        src = self.E(argn[0])
        fmt = strip(argn[i])
        if fmt.get('kind') != 'StringLiteral':
            raise Unsupported('format')
        f = json_str(fmt)
        rest = argn[i + 1:]
        kw = []
        if nm == 'PyArg_ParseTupleAndKeywords':
            kl = strip(rest[0])
            names = self.kwlist(kl)
            kw = [ast.Constant(names)]
            rest = rest[1:]
        opt = False
        j, types, idx = 0, [], 0
        tl = []
        p = 0
        f = f.split(':')[0].split(';')[0]
        while p < len(f):
            ch = f[p]
            p += 1
            if ch == '|':
                opt = True
                continue
            if ch in '()$ ':
                continue
            conv = ch
            if p < len(f) and f[p] in '!&#*':
                conv += f[p]
                p += 1
            extra = []
            if conv.endswith('!') or conv.endswith('&'):
                extra = [self.E(rest[j])]
                j += 1
            if j >= len(rest):
                raise Unsupported('format arguments')
            d = rest[j]
            j += 1
            x = strip(d)
            t = self.E(d)
            ty = dq(strip(x['inner'][0])) if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&' else dq(x)
            prev = [t] if opt else []
            v = ast.Call(NAME('PyArg_value'), [src, ast.Constant(conv), ast.Constant(idx), ast.Constant(parse_type(ty))] + extra + prev, [])
            self.pre.append(ast.Assign([store(t)], v))
            types.append(conv)
            idx += 1
        return ast.Call(NAME('PyArg_Parse'), [src, ast.Constant(f)] + tl + kw, [])

    def kwlist(self, n):
        if n.get('kind') != 'DeclRefExpr':
            return 'unknown'
        d = self.find_decl(self.f.body, n['referencedDecl'].get('id'))
        if d is None:
            return 'unknown'
        out = []

        def rec(x):
            if x.get('kind') == 'StringLiteral':
                out.append(json_str(x))
            for c in x.get('inner', ()):
                rec(c)
        rec(d)
        return ' '.join(out)

    def find_decl(self, n, i):
        if n.get('id') == i:
            return n
        for c in n.get('inner', ()):
            r = self.find_decl(c, i)
            if r is not None:
                return r
        return None

    def method(self, r, c, n, stmt, via=None):
        recvn, nm, argn = r
        if nm is None:
            raise Unsupported('call')
        nm = nm.lstrip('.->')
        if nm.startswith('operator '):
            return ast.Compare(self.E(recvn), [ast.IsNot()], [NONE()])
        # qualified call of an overridden member: Base::f(...)
        own = recvn is None or strip(recvn).get('kind') == 'CXXThisExpr'
        txt = self.low.text(c)
        if own and self.cls is not None:
            m = re.match(r'^(?:this->)?(\w+)(?:<.*>)?\s*::\s*(?:template )?\w+$', txt, re.S)
            q = via or (m.group(1) if m else None)
            if q and q in self.ancestors(self.cls.name) and q != self.cls.name and any(
                    g.name == nm for g in self.cls.funcs):
                args = [self.E(a) for a in argn]
                return ast.Call(ast.Attribute(ast.Call(NAME('super'), [], []), self.method_name(q, nm, len(args)), ast.Load()), args, [])
        if nm == 'c_str' or nm == 'get' and recvn is not None and 'ptr<' in self.type_of(recvn) and not argn or \
                nm == 'str' and not argn:
            return self.E(recvn)
        if recvn is not None and not own:
            ic = self.is_container(recvn)
            if not ic and nm in ALWAYS and not any(g.name == nm for k in self.low.classes.values() for g in k.funcs):
                ic = True
            if ic or (ic is None and (nm in CMETHODS or nm in ('size', 'clear'))):
                v = self.container(recvn, nm, argn, stmt)
                if v is not NotImplemented:
                    return v
        args = [self.E(a) for a in argn]
        recv = NAME('self') if recvn is None else self.E(recvn)
        if self.iter_of(recvn) is not None if recvn is not None else False:
            it = self.iter_of(recvn)
            recv = self.deref(it) if it[0] == 'elem' else recv
        out = OUT.get(nm)
        if out is not None and all(i < len(args) for i in out) and not (nm == 'transform' and False):
            ins = [a for i, a in enumerate(args) if i not in out]
            v = ast.Call(ast.Attribute(recv, nm, ast.Load()), ins, [])
            self.pre.append(ast.Assign([store(args[out[0]])], v))
            return None if stmt else NONE()
        name = user_name(nm)
        if own and self.cls is not None:
            name = self.method_name(self.cls.name, nm, len(args))
        else:
            t = re.sub(r'<.*', '', self.type_of(recvn)).replace('const ', '').split('::')[-1].strip(' &*')
            name = self.method_name(t if t in self.low.classes else None, nm, len(args))
        sc = self.method_scalars(self.cls.name if own and self.cls is not None else None, nm, len(args))
        v = ast.Call(ast.Attribute(recv, name, ast.Load()), args, [])
        if sc:
            ts = [args[i] for i in sc[0]]
            if sc[1]:
                self.pre.append(ast.Assign([store(ts[0] if len(ts) == 1 else ast.Tuple(ts, ast.Load()))], v))
                return None
            self.ntmp += 1
            rv = NAME(f'tmp{self.ntmp}')
            self.pre.append(ast.Assign([store(ast.Tuple([rv] + ts, ast.Load()))], v))
            return rv
        return v

    def method_scalars(self, cn, nm, nargs):
        if cn is None:
            return None
        for a in self.ancestors(cn):
            if a in self.low.classes:
                for f in self.low.classes[a].funcs:
                    if f.name == nm and len(f.params) == nargs:
                        s = self.scalar_params(f)
                        if s:
                            return s, qt(f.node).split('(')[0].strip() == 'void'
                        return None
        return None

    def method_name(self, cn, nm, nargs):
        """Lowered name: overloads of different arity are told apart, others are not."""
        base = user_name(nm)
        cands = self.ancestors(cn) if cn else list(self.low.classes)
        for a in cands:
            c = self.low.classes.get(a)
            if c is None:
                continue
            lst = [f for f in c.funcs if f.name == nm]
            if lst:
                ars = [len(f.params) for f in lst]
                if len(set(ars)) == len(ars) and len(ars) > 1:
                    if nargs != min(ars) and nargs in ars:
                        return f'{base}_{nargs}'
                return base
        return base

    def container(self, recvn, nm, argn, stmt):
        recv = self.E(recvn)
        args = argn
        at = lambda a, i: ast.Subscript(a, ast.Constant(i), ast.Load())
        m = lambda name, *a: ast.Call(ast.Attribute(recv, name, ast.Load()), list(a), [])
        if nm == 'size':
            return ast.Call(NAME('len'), [recv], [])
        if nm == 'empty':
            return ast.Compare(ast.Call(NAME('len'), [recv], []), [ast.Eq()], [ast.Constant(0)])
        if nm == 'data' and not args:
            return recv
        if nm == 'front':
            return at(recv, 0)
        if nm == 'back':
            return at(recv, -1)
        if nm == 'push_back':
            v = self.E(args[0])
            if isinstance(v, ast.List) and 'pair' in self.type_of(recvn):
                v = ast.Tuple(v.elts, ast.Load())
            return m('append', v)
        if nm == 'emplace_back':
            a = [self.E(x) for x in args]
            return m('append', a[0] if len(a) == 1 else ast.Tuple(a, ast.Load()))
        if nm == 'push_front':
            return m('insert', ast.Constant(0), self.E(args[0]))
        if nm == 'pop_front':
            return m('pop', ast.Constant(0))
        if nm == 'pop_back':
            return m('pop')
        if nm == 'clear':
            return m('clear')
        if nm == 'at':
            return ast.Subscript(recv, self.E(args[0]), ast.Load())
        if nm == 'count':
            return ast.Compare(self.E(args[0]), [ast.In()], [recv])
        if nm == 'reserve':
            return None
        if nm == 'resize':
            return ast.Call(ast.Attribute(recv, 'resize', ast.Load()), [self.E(a) for a in args], [])
        if nm == 'erase':
            it = self.iter_of(args[0])
            if it is not None and it[0] == 'mapkey':
                self.pre.append(ast.Delete([ast.Subscript(recv, NAME(it[1]), ast.Del())]))
                return None
            if it is not None and it[0] == 'elem':
                return m('remove', NAME(it[1]))
            if self.maplike(recvn):
                self.pre.append(ast.Expr(m('pop', self.E(args[0]), NONE())))
                return None
            return m('discard' if SETLIKE.search(self.type_of(recvn)) else 'erase', self.E(args[0]))
        if nm in ('emplace', 'insert') and len(args) >= 1:
            r0 = self.member_call(strip(args[0]))
            if r0 is not None and r0[1] in ('end', 'cend'):
                if nm == 'insert' and len(args) == 3:
                    b = self.member_call(strip(args[1]))
                    if b is not None and b[1] in ('begin', 'cbegin'):
                        return m('extend', self.E(b[0]))
                a = [self.E(x) for x in args[1:]]
                return m('append', a[0] if len(a) == 1 else ast.Tuple(a, ast.Load()))
            if self.maplike(recvn) and len(args) == 2:
                k, v = self.E(args[0]), self.E(args[1])
                self.pre.append(ast.If(ast.Compare(k, [ast.NotIn()], [recv]), [ast.Assign([ast.Subscript(recv, k, ast.Store())], v)], []))
                return None
            if self.maplike(recvn) and len(args) == 1:
                v = self.E(args[0])
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == 2:
                    k, v = v.elts
                    self.pre.append(ast.If(ast.Compare(k, [ast.NotIn()], [recv]), [ast.Assign([ast.Subscript(recv, k, ast.Store())], v)], []))
                    return None
            if len(args) == 1 and not self.maplike(recvn):
                return m('add', self.E(args[0]))
        if nm in ('begin', 'cbegin') and not args:
            return m('begin')
        if nm in ('end', 'cend') and not args:
            return m('end')
        return NotImplemented


def parse_type(t):
    t = re.sub(r'\b(const|struct)\b', '', t).strip()
    if t.endswith('*') and 'char' not in t:
        return 'object'
    return t


def lower_dir(src):
    low = Lower(src)
    m, facts = low.build()
    return m, facts, low.problems


if __name__ == '__main__':
    m, facts, problems = lower_dir(sys.argv[1] if len(sys.argv) > 1 else '/repo/src/repast4py')
    print(ast.unparse(m))
    for k, v in facts.items():
        print('#', k, '=', v)
    for p in problems:
        print('## PROBLEM', p)
