"""Decides whether the effect summary of a function is the one its contract demands.

Every contract (specs/*.py) is summarised by the same abstract evaluation as the code.  An effect the
contract demands and the code lacks (or has under another condition, on other objects, in another order),
and an effect on known state the contract does not allow, is a violation, reported with the construct
responsible.  A construct the analysis has no semantics for makes the function undecided, never a violation.
"""
import ast
import os
import time
import config as C
from terms import *
from program import Program, Func, Class
from interp import Interp, str_params, normalise_events, Event, Unsupported, strip_ver
import roots as R

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), 'specs')
REPO = os.environ.get('R4PY_REPO', '/repo')
CODE = os.path.join(REPO, 'src', 'repast4py')

# constructs whose normal form is not unique: only trusted where the contract has them too
EXOTIC = ('unknown', 'mu', 'muvar', 'fold', 'last', 'afterloop', 'first', 'wframe', 'chainstar', 'zip_', 'unknownsrc', 'star',
          'gone', 'missing', 'lambda', 'starkw', 'unset')
KNOWN_FUNCS = {'abs', 'int', 'float', 'round', 'len', 'min', 'max', 'sum', 'str', 'bool', 'math.floor', 'math.ceil', 'sorted',
               'numpy.prod', 'numpy.mod', 'numpy.where', 'numpy.stack', 'numpy.zeros', 'numpy.empty', 'dict', 'list', 'tuple',
               'numpy.full', 'numpy.array', 'numpy.arange', 'numpy.tile', 'numpy.concatenate', 'numpy.cumsum', 'numpy.sum',
               'reversed', 'set'}


class MissingAnchor(Exception):
    pass


class Finding:
    def __init__(self, root, kind, text, loc, tags, spec=None, code=None):
        self.root, self.kind, self.text, self.loc, self.tags = root, kind, text, loc, tags
        self.spec, self.code = spec, code

    def where(self):
        f, l = self.loc
        return f'{os.path.relpath(f, REPO) if f.startswith(REPO) else f}:{l}'

    def ident(self):
        return f'{self.root}: {self.kind}: {self.text}'


def load():
    spec, code = Program('repast4py'), Program('repast4py')
    spec.load_dir(SPECS)
    code.load_dir(CODE)
    return spec, code


def program_vocab(p):
    """Attribute and method names, and names of functions, used anywhere in a program."""
    out = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
            elif isinstance(n, ast.alias):
                out.update((n.asname or n.name).split('.'))
    return out


def program_defs(p):
    """Names the program itself gives to things."""
    out = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    return out


def partial_id(t):
    """A search for an element that agrees with something in a proper part of the unique id."""
    if t.op != 'first' or len(t.args) != 3 or not isinstance(t.args[1], T) or t.args[1].op != 'bdd':
        return False
    seen = set()
    for a in batoms(t.args[1]):
        if a.op != 'eq' or not all(isinstance(x, T) and x.op == 'attr' and x.args[1] in ('id', 'type', 'rank') for x in a.args[:2]) or \
                a.args[0].args[1] != a.args[1].args[1]:
            return False
        seen.add(a.args[0].args[1])
    return 0 < len(seen) < 3


def term_names(t, acc, memo):
    if t in memo:
        return
    memo.add(t)
    if t.op == 'attr':
        acc.add(t.args[1])
    elif t.op == 'mcall' and len(t.args) > 1 and isinstance(t.args[1], str):
        acc.add(t.args[1])
    elif t.op == 'meth' and len(t.args) > 1 and isinstance(t.args[1], str):
        acc.add(t.args[1])
    elif t.op == 'glob':
        acc.add('G:' + t.args[0])
    if t.op in EXOTIC and not partial_id(t):
        acc.add('X:' + t.op)
    for a in t.args:
        if isinstance(a, T):
            term_names(a, acc, memo)


def event_terms(e):
    return [x for x in (e.head,) + tuple(e.args) + tuple(e.frames) + (e.guard,) if isinstance(x, T)]


def names_of(es):
    acc, memo = set(), set()
    for e in es:
        for t in event_terms(e):
            term_names(t, acc, memo)
    return acc


class Comparator:
    texts = frozenset()      # positions of the parameters declared to be texts, on either side
    form = ''                # suffix of the form of the contract that is compared

    def __init__(self, spec, code):
        self.spec, self.code = spec, code
        self.svocab = program_vocab(spec)
        self.cvocab = program_vocab(code)
        self.sdefs = program_defs(spec)
        self.stats = dict(roots=0, matched=0, undecided=0, collectives=0)
        self.undecided = []
        self.analysed = []

    # ---------------------------------------------------------------- roots
    def roots(self, tag=None):
        """(module, class name or None, function, tags, soft)"""
        out = []
        for mod, lst in R.ROOTS.items():
            m = self.spec.modules['repast4py.' + mod]
            for q, tags in lst:
                tags = tuple(tags.split())
                soft = q.startswith('?')
                q = q.lstrip('?')
                if q.startswith('*'):
                    base, fn = q[1:].split('.')
                    for c in m.classes.values():
                        if any(b.name == base for b in self.spec.mro(c)) and c.name != base:
                            out.append((mod, c.name, fn, tags, soft))
                elif '.' in q:
                    cn, fn = q.split('.')
                    out.append((mod, cn, fn, tags, soft))
                else:
                    out.append((mod, None, q, tags, soft))
        if tag is not None:
            out = [r for r in out if tag in r[3]]
        return out

    def opaque_sets(self, drop_soft=False):
        """What is analysed separately, in both programs."""
        op = set()
        for mod, cn, fn, tags, soft in self.roots():
            m = self.code.modules.get('repast4py.' + mod)
            if soft and drop_soft or self.code_func(mod, cn, fn) is None:
                continue
            if cn is None:
                if fn not in C.INLINE_FUNCS:
                    op.add(('repast4py.' + mod, fn))
            else:
                op.add((cn, fn))
                sc = self.spec.modules['repast4py.' + mod].classes[cn]
                f = self.spec.method(sc, fn)
                if f is not None:
                    op.add((f.cls.name, fn))
                cc = m.classes.get(cn) if m else None
                f = self.code.method(cc, fn) if cc else None
                if f is not None:
                    op.add((f.cls.name, fn))
        return op

    def code_func(self, mod, cn, fn):
        m = self.code.modules.get('repast4py.' + mod)
        if m is None:
            return None
        if cn is None:
            f = self.code.lookup('repast4py.' + mod + '.' + fn)
            return f if isinstance(f, Func) else None
        c = m.classes.get(cn)
        if c is None:
            c2 = self.code.lookup('repast4py.' + mod + '.' + cn)
            c = c2 if isinstance(c2, Class) else None
        if c is None:
            return None
        return self.code.method(c, fn)

    def spec_func(self, mod, cn, fn):
        m = self.spec.modules['repast4py.' + mod]
        if cn is None:
            return m.funcs.get(fn)
        return self.spec.method(m.classes[cn], fn)

    # ---------------------------------------------------------------- one root
    def summarise(self, prog, func, cls, opaque, nparams=None, transparent=()):
        it = Interp(prog, opaque, transparent=transparent)
        it.str_params = self.texts
        ev = it.run(func, cls, nparams)
        if func.name.startswith('__init__'):
            ev = unborn(ev)
        ev = normalise_events(ev)
        ev = [e for e in ev if not (e.kind == 'call' and e.head.op == 'glob' and e.head.args[0] in C.IGNORED_CALLS)]
        return ev, it.unsupported

    def check_root(self, root, drop_soft=False):
        n0, m0, a0 = len(self.undecided), dict(self.stats), len(self.analysed)
        fs = self.check_form(root, drop_soft)
        if not fs and len(self.undecided) == n0:
            return fs
        # a contract may be stated in several equivalent forms (NAME__or1, ...)
        k = 1
        while self.spec_func(root[0], root[1], f'{root[2]}__or{k}') is not None:
            n1, m1, a1 = len(self.undecided), dict(self.stats), len(self.analysed)
            self.form = f'__or{k}'
            try:
                fs2 = self.check_form(root, drop_soft)
            finally:
                self.form = ''
            if not fs2 and len(self.undecided) == n1:
                del self.undecided[n0:]
                del self.analysed[a0:a1]
                self.stats.update(m0, matched=m0['matched'] + self.stats['matched'] - m1['matched'], roots=m0['roots'] + 1)
                return []
            del self.undecided[n1:]
            del self.analysed[a1:]
            self.stats.update(m1)
            k += 1
        return fs

    def check_form(self, root, drop_soft=False):
        n0, m0 = len(self.undecided), dict(self.stats)
        fs = self.check_once(root, drop_soft)
        if (fs or len(self.undecided) > n0) and self.last is not None:
            # what one side does itself and the other through a function of its own is analysed in place
            ts, tc = self.in_place(root, *self.last)
            if ts or tc:
                n1, m1, a1 = len(self.undecided), dict(self.stats), len(self.analysed)
                fs2 = self.check_once(root, drop_soft, ts, tc)
                if not fs2 and len(self.undecided) == n1:
                    del self.undecided[n0:]
                    del self.analysed[a1:]
                    self.stats.update(m0, matched=m0['matched'] + self.stats['matched'] - m1['matched'], roots=m0['roots'] + 1)
                    return []
                del self.undecided[n1:]
                del self.analysed[a1:]
                self.stats.update(m1)
        return fs

    def in_place(self, root, sev, cev):
        mod, cn, fn, tags, soft = root
        ns, nc = called_names(sev), called_names(cev)
        ts = {n for n in (x.split('.')[-1] for x in ns - nc) if self.own_function(self.spec, mod, cn, n)} - {fn}
        tc = {n for n in (x.split('.')[-1] for x in nc - ns) if self.own_function(self.code, mod, cn, n)} - {fn}
        return ts, tc

    def own_function(self, prog, mod, cn, name):
        m = prog.modules.get('repast4py.' + mod)
        if m is None:
            return False
        if cn is not None:
            c = m.classes.get(cn) or prog.lookup('repast4py.' + mod + '.' + cn)
            if isinstance(c, Class) and prog.method(c, name) is not None:
                return True
        return any(name in x.funcs for x in prog.modules.values())

    def check_once(self, root, drop_soft=False, tspec=(), tcode=()):
        self.last = None
        mod, cn, fn, tags, soft = root
        name = f'{mod}.{cn + "." if cn else ""}{fn}'
        sf, cf = self.spec_func(mod, cn, fn + self.form), self.code_func(mod, cn, fn)
        if cf is None:
            if not soft:
                self.undecided.append(f'{name}: the function no longer exists; what it did is analysed inside its callers')
            return []
        op = self.opaque_sets(drop_soft)
        scls = self.spec.modules['repast4py.' + mod].classes[cn] if cn else None
        ccls = self.code.lookup('repast4py.' + mod + '.' + cn) if cn else None
        np_ = nparams_of(sf)
        self.texts = str_params(sf) | str_params(cf)
        try:
            sev, _ = self.summarise(self.spec, sf, scls, op, None, tspec)
            cev, uns = self.summarise(self.code, cf, ccls, op, np_, set(tcode) | self.new_public(ccls))
        except Exception as x:
            # nothing the analysis cannot model may turn into a report
            self.undecide(name, f'{type(x).__name__} {x}')
            return []
        self.last = (sev, cev)
        self.analysed.append((name, len(sev), len(cev), cf.file, cf.node.lineno))
        self.stats['roots'] += 1
        if uns:
            self.undecide(name, f'constructs without semantics here: {uns[:3]}')
            return []
        fs = self.compare(name, sev, cev, cf, tags)
        fs += self.defaults(name, sf, cf, tags)
        if fs:
            why = self.unknown(sev, cev, fs)
            if why:
                self.undecide(name, why)
                return []
        return fs

    def new_public(self, ccls):
        """Methods the code has added to a class: part of whatever calls them."""
        if ccls is None:
            return set()
        return {n for c in self.code.mro(ccls) for n in c.methods if n not in self.svocab}

    def undecide(self, name, why):
        self.stats['undecided'] += 1
        self.undecided.append(f'{name}: {why}')

    def defaults(self, name, sf, cf, tags):
        out = []
        sd, cd = default_map(sf), default_map(cf)
        for i, v in sd.items():
            w = cd.get(i)
            if w is None:
                out.append(Finding(name, 'default', f'parameter {i} has no default value', (cf.file, cf.node.lineno), tags))
            elif v != w:
                out.append(Finding(name, 'default', f'default of parameter {i} is {w}, not {v}', (cf.file, cf.node.lineno), tags))
        return out

    def unknown(self, sev, cev, fs):
        """A reason to distrust a mismatch: vocabulary or constructs the contract knows nothing of."""
        un = [f.code for f in fs if f.code is not None]
        sn, cn = names_of(sev), names_of(un)
        for n in sorted(cn - sn):
            if n.startswith('X:'):
                return f'construct {n[2:]} is not one the contract uses'
            if n.startswith('G:'):
                g = n[2:]
                last = g.split('.')[-1]
                if g in KNOWN_FUNCS or last in self.svocab or g.startswith('repast4py.'):
                    continue
                if g.split('.')[0] in ('random', 'time', 'os', 'uuid', 'secrets') or 'random' in g:
                    continue
                return f'{g} is not part of the contract\'s vocabulary'
            if n not in self.svocab and n not in C.MUTATORS and n not in C.COLLECTIVES and n not in C.EFFECTS:
                return f'name {n} is not part of the contract\'s vocabulary'
        # state the contract speaks of under a name the code no longer has
        miss = [f.spec for f in fs if f.spec is not None]
        renamed = any(f.kind in ('effect', 'unexpected') for f in fs) or \
            any(n[:2] not in ('X:', 'G:') and n not in self.svocab for n in names_of(cev))
        for n in sorted(names_of(miss)):
            if n[:2] not in ('X:', 'G:') and n not in self.cvocab and renamed and n in self.sdefs:
                return f'name {n} no longer occurs in the code'
        return None

    # ---------------------------------------------------------------- events
    def compare(self, name, sev, cev, cf, tags):
        out = []
        left = list(range(len(cev)))
        pairs = []
        smiss = []
        byk = {}
        for j in left:
            byk.setdefault(cev[j].key(), []).append(j)
        used = set()
        for i, s in enumerate(sev):
            hit = None
            for j in byk.get(s.key(), ()):
                if j not in used and bequiv(s.guard, cev[j].guard):
                    hit = j
                    break
            if hit is None:
                smiss.append(i)
            else:
                used.add(hit)
                pairs.append((i, hit))
        # the same effect written with values only equal under its condition
        still = []
        for i in smiss:
            s = sev[i]
            ns = under(s)
            hit = None
            for j in left:
                if j in used or cev[j].kind != s.kind:
                    continue
                nc = under(cev[j])
                if nc.key() == ns.key() and bequiv(s.guard, cev[j].guard):
                    hit = j
                    break
            if hit is None:
                still.append(i)
            else:
                used.add(hit)
                pairs.append((i, hit))
        still, extra = self.match_split(sev, cev, still, [j for j in left if j not in used], pairs, used)
        self.stats['matched'] += len(pairs)
        taken = set()
        for i in still:
            s = sev[i]
            cand = [j for j in extra if j not in taken and cev[j].key() == s.key()]
            if cand:
                j = cand[0]
                taken.add(j)
                out.append(Finding(name, 'condition', f'{brief(cev[j])}  —  required condition: {cond(s)}; found: {cond(cev[j])}',
                                   cev[j].loc, tags, s, cev[j]))
                continue
            cand = [j for j in extra if j not in taken and cev[j].kind == s.kind and strip_ver(cev[j].head) is strip_ver(s.head)]
            if cand:
                cand.sort(key=lambda j: (cev[j].frames != s.frames, not bequiv(cev[j].guard, s.guard)))
                j = cand[0]
                taken.add(j)
                out.append(Finding(name, 'effect', f'found: {cev[j].text()}; required: {s.text()}', cev[j].loc, tags, s, cev[j]))
                continue
            out.append(Finding(name, 'missing', f'required effect missing: {s.text()}', (cf.file, cf.node.lineno), tags, s, None))
        for j in extra:
            if j in taken:
                continue
            c = cev[j]
            if self.ignorable(c, sev):
                continue
            out.append(Finding(name, 'unexpected', f'effect not allowed by the contract: {c.text()}', c.loc, tags, None, c))
        if not out:
            out += self.order(name, sev, cev, pairs, cf, tags)
        return out

    def match_split(self, sev, cev, smiss, extra, pairs, used):
        """Effects whose condition is split differently on the two sides."""
        bykey = {}
        for i in smiss:
            bykey.setdefault(sev[i].key(), [[], []])[0].append(i)
        for j in extra:
            if cev[j].key() in bykey:
                bykey[cev[j].key()][1].append(j)
        for k, (a, b) in bykey.items():
            if a and b and (len(a) > 1 or len(b) > 1):
                ga, gb = [sev[i].guard for i in a], [cev[j].guard for j in b]
                if exclusive(ga) and exclusive(gb) and bequiv(bor(*ga), bor(*gb)):
                    for i in a:
                        pairs.append((i, b[0]))
                        smiss = [x for x in smiss if x != i]
                    for j in b:
                        used.add(j)
                        extra = [x for x in extra if x != j]
        return smiss, extra

    def ignorable(self, c, sev):
        """New state or pure computation that the contract does not speak of."""
        if c.kind in ('store', 'del', 'reset'):
            h = c.head
            while h.op == 'idx':
                h = h.args[0]
            if h.op == 'attr' and h.args[1] not in self.svocab:
                return True
            if h.op == 'glob' and h.args[0].split('.')[-1] not in self.svocab:
                return True
        if c.kind == 'mut':
            h = c.head.args[0]
            while h.op == 'idx':
                h = h.args[0]
            if h.op == 'attr' and h.args[1] not in self.svocab:
                return True
        if c.kind == 'break':
            return True
        return False

    def order(self, name, sev, cev, pairs, cf, tags):
        out = []
        pos = {i: cev[j].order for i, j in pairs}
        idx = sorted(pos)
        dup = [j for _, j in pairs]
        idx = [i for i in idx if dup.count(dict(pairs)[i]) == 1]
        for a in range(len(idx)):
            for b in range(a + 1, len(idx)):
                i, k = idx[a], idx[b]
                s, t = sev[i], sev[k]
                if not conflict(s, t):
                    continue
                ca, cb = cev[dict(pairs)[i]], cev[dict(pairs)[k]]
                if not (bsat(band(before(s, t), before(cb, ca))) or bsat(band(before(t, s), before(ca, cb)))):
                    continue
                out.append(Finding(name, 'order', f'{brief(t)} comes before {brief(s)}, which has to come first',
                                   cev[dict(pairs)[k]].loc, tags, t, cev[dict(pairs)[k]]))
                return out
        return out


def unborn(es):
    """What a constructor that raises has set in the object before cannot be seen."""
    rs = [e.guard for e in es if e.kind == 'raise' and not e.frames]
    if not rs:
        return es
    out = []
    for e in es:
        if e.kind == 'store' and not e.frames and e.head.op == 'attr' and e.head.args[0].op == 'self':
            g = e.guard
            for r in rs:
                if bsat(band(g, r)):
                    g = band(g, bnot(r))
            e = e.copy(guard=g)
        out.append(e)
    return out


def called_names(es):
    out, memo = set(), set()

    def walk(t):
        if t in memo:
            return
        memo.add(t)
        a = t.args
        if t.op in ('attr', 'meth', 'mcall') and len(a) > 1 and isinstance(a[1], str):
            out.add(a[1] if a[0].op != 'self' else 'self.' + a[1])
        elif t.op == 'res' and len(a) > 2 and isinstance(a[2], str):
            out.add(a[2] if a[1].op != 'self' else 'self.' + a[2])
        elif t.op == 'glob':
            out.add(a[0].split('.')[-1])
        for x in a:
            if isinstance(x, T):
                walk(x)
    for e in es:
        for t in event_terms(e):
            walk(t)
    return out


def nparams_of(f):
    a = f.node.args
    n = len(a.posonlyargs + a.args)
    if f.cls is not None and not f.is_static:
        n -= 1
    return n


def default_map(f):
    a = f.node.args
    ps = a.posonlyargs + a.args
    out = {}
    off = 1 if f.cls is not None and not f.is_static else 0
    for p, d in zip(range(len(ps) - len(a.defaults), len(ps)), a.defaults):
        out[p - off] = norm_default(d)
    return out


def norm_default(d):
    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('dict', 'list', 'set') and not d.args:
        return {'dict': '{}', 'list': '[]', 'set': 'set()'}[d.func.id]
    if isinstance(d, ast.Attribute) and d.attr in ('nan', 'inf'):
        return f"float('{d.attr}')"
    return ast.unparse(d)


def exclusive(gs):
    for i in range(len(gs)):
        for j in range(i + 1, len(gs)):
            if bsat(band(gs[i], gs[j])):
                return False
    return True


def under(e):
    """The event with values replaced by constants its condition equates them with."""
    m = {}
    for at in batoms(e.guard):
        if at.op in ('eq', 'isnone') and not bsat(band(e.guard, bnot(batom(at)))):
            if at.op == 'isnone':
                m[at.args[0]] = NONE
            elif is_constant(at.args[1]):
                m[at.args[0]] = at.args[1]
            elif is_constant(at.args[0]):
                m[at.args[1]] = at.args[0]
    if not m:
        return e
    return e.copy(args=tuple(subst(a, m) for a in e.args))


def brief(e):
    x = e.copy(guard=BT)
    return x.text()


def cond(e):
    return 'always' if e.guard is BT else show(e.guard)


INDEXED = ('store', 'del')


def conflict(s, t):
    """Does the order of two effects matter?"""
    r = s.res & t.res
    r = {x for x in r if x}
    if not r:
        return False
    if not bsat(band(s.guard, t.guard)):
        return False
    if s.kind == 'ret' or t.kind == 'ret' or 'flow' in r and s.kind != 'yield' and t.kind != 'yield':
        return False
    if s.kind == 'store' and t.kind == 'store':
        return s.head is t.head
    if s.kind in INDEXED and t.kind in INDEXED:
        hs, ht = s.head, t.head
        if hs.op == 'idx' and ht.op == 'idx':
            if hs.args[0] is ht.args[0] and hs.args[1] is not ht.args[1] and is_constant(hs.args[1]) and is_constant(ht.args[1]):
                return False
            if hs.args[0] is not ht.args[0]:
                return False
    if s.kind == 'raise' and t.kind == 'raise':
        return False
    if s.kind == 'mut' and t.kind == 'mut':
        if s.head.args[0] is not t.head.args[0]:
            return 'rng' in r or 'comm' in r or 'file' in r
        if s.head.args[1] == t.head.args[1] and s.head.args[1] in ('add', 'discard'):
            return False
    return True


def before(s, t):
    """Condition under which s is done before t."""
    r = BF
    for g, o in s.parts or [(s.guard, s.order)]:
        for h, p in t.parts or [(t.guard, t.order)]:
            if o < p:
                r = bor(r, band(g, h))
    return r


def code_consts(prog, mod, name):
    """Normal form of a module-level or class-level definition."""
    m = prog.modules.get('repast4py.' + mod)
    if m is None:
        return None
    if '.' in name:
        cn, a = name.split('.')
        c = m.classes.get(cn)
        return norm_node(c.consts[a]) if c is not None and a in c.consts else None
    if name in m.classes:
        c = m.classes[name]
        if c.is_enum:
            return tuple(sorted((k, norm_node(v)) for k, v in c.consts.items()))
        return tuple((f, norm_node(d) if d is not None else None) for f, d in c.fields)
    r = prog.lookup('repast4py.' + mod + '.' + name)
    if isinstance(r, tuple) and r[0] == 'const':
        it = Interp(prog)
        f = Func('<module>', ast.FunctionDef('<module>', ast.arguments([], [], None, [], [], None, []), [], []), r[1])
        from interp import Act
        it.acts.append(Act(f, None, NONE))
        try:
            return it.render(it.ev(r[1].consts[r[2]]))
        except Exception:
            return None
    return None


def norm_node(n):
    if isinstance(n, ast.Constant):
        return repr(n.value)
    return ast.unparse(n)


def check_consts(spec, code, tag=None):
    out, n = [], 0
    for mod, lst in R.CONSTS.items():
        for name, tags in lst:
            tags = tuple(tags.split())
            if tag is not None and tag not in tags:
                continue
            a, b = code_consts(spec, mod, name), code_consts(code, mod, name)
            if a is None or b is None:
                continue
            n += 1
            if a != b:
                if isinstance(b, T):
                    acc = set()
                    term_names(b, acc, set())
                    acc2 = set()
                    term_names(a, acc2, set())
                    if any(x[:2] == 'X:' or (x[:2] == 'G:' and x not in acc2) for x in acc - acc2):
                        continue
                f = code.modules['repast4py.' + mod].path
                sh = lambda x: show(x) if isinstance(x, T) else str(x)
                out.append(Finding(f'{mod}.{name}', 'definition', f'{name} is {sh(b)}; required: {sh(a)}', (f, 1), tags))
    return out, n


def mentions(node, names):
    return any(isinstance(n, ast.Attribute) and n.attr in names for n in ast.walk(node))


def mentions_collective(node):
    return any(isinstance(n, ast.Attribute) and (n.attr in C.COLLECTIVES or n.attr in C.PROTOCOL) for n in ast.walk(node))
