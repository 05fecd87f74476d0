"""Hash-consed terms, their normal forms, and guard formulas (reduced ordered decision diagrams).

A term is an interned node T(op, args); args are T or plain hashable python atoms (str, int, float,
bool, None, bytes).  Two terms are equal iff they are the same object.  `dig` is a structural digest,
stable between runs, used for ordering.
"""
import hashlib
from fractions import Fraction

_table = {}


class T:
    __slots__ = ('op', 'args', 'dig', '_ites', '_size', '_vars')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.dig < o.dig


def mk(op, *args):
    key = (op,) + tuple((id(a),) if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        h = hashlib.sha1(op.encode())
        for a in args:
            h.update(b'|' + (a.dig.encode() if isinstance(a, T) else (type(a).__name__ + repr(a)).encode()))
        t.dig = h.hexdigest()[:20]
        t._ites = None
        t._size = None
        t._vars = None
        _table[key] = t
    return t


def const(v):
    return mk('const', v)


NONE = const(None)
TRUE_C = const(True)
FALSE_C = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == 'const'


def is_num(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


# ------------------------------------------------------------------ decision diagrams
BT = mk('btrue')
BF = mk('bfalse')
_bcache = {}


def bnode(atom, hi, lo):
    if hi is lo:
        return hi
    return mk('bdd', atom, hi, lo)


def is_b(t):
    return t.op in ('btrue', 'bfalse', 'bdd')


def batom(a):
    return mk('bdd', a, BT, BF)


def bite(f, g, h):
    if f is BT:
        return g
    if f is BF:
        return h
    if g is h:
        return g
    if g is BT and h is BF:
        return f
    k = (f, g, h)
    r = _bcache.get(k)
    if r is not None:
        return r
    top = min(x.args[0].dig for x in (f, g, h) if x.op == 'bdd')
    at = next(x.args[0] for x in (f, g, h) if x.op == 'bdd' and x.args[0].dig == top)

    def co(x, v):
        if x.op == 'bdd' and x.args[0] is at:
            return x.args[1] if v else x.args[2]
        return x
    r = bnode(at, bite(co(f, 1), co(g, 1), co(h, 1)), bite(co(f, 0), co(g, 0), co(h, 0)))
    _bcache[k] = r
    return r


def band(*fs):
    r = BT
    for f in fs:
        r = bite(r, f, BF)
    return r


def bor(*fs):
    r = BF
    for f in fs:
        r = bite(r, BT, f)
    return r


def bnot(f):
    return bite(f, BF, BT)


def bimp(f, g):
    return bite(f, g, BT)


def bconstrain(f, c):
    """f under the assumption c (generalised cofactor); canonical in the functions f and c."""
    if c is BF:
        return BF
    if c is BT or f in (BT, BF):
        return f
    k = ('con', f, c)
    r = _bcache.get(k)
    if r is not None:
        return r
    tf, tc = f.args[0], c.args[0]
    at = tf if tf.dig <= tc.dig else tc

    def co(x, v):
        if x.op == 'bdd' and x.args[0] is at:
            return x.args[1] if v else x.args[2]
        return x
    c1, c0 = co(c, 1), co(c, 0)
    if c1 is BF:
        r = bconstrain(co(f, 0), c0)
    elif c0 is BF:
        r = bconstrain(co(f, 1), c1)
    elif tf is not at and not bdepends(f, at):
        # restrict: an atom only the care set mentions is eliminated from it
        r = bconstrain(f, bor(c1, c0))
    else:
        r = bnode(at, bconstrain(co(f, 1), c1), bconstrain(co(f, 0), c0))
    _bcache[k] = r
    return r


def bdepends(f, at):
    return at in batoms(f)


_acache = {}


def batoms(f):
    r = _acache.get(f)
    if r is None:
        if f.op != 'bdd':
            r = frozenset()
        else:
            r = batoms(f.args[1]) | batoms(f.args[2]) | {f.args[0]}
        _acache[f] = r
    return r


# ------------------------------------------------------------------ theory of atoms
def theory(atoms):
    """Axioms relating the atoms of one formula."""
    ax = BT
    atoms = sorted(atoms, key=lambda a: a.dig)
    byeq = {}
    for a in atoms:
        if a.op == 'eq':
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if is_constant(y) and not is_constant(x):
                    byeq.setdefault(x, []).append((a, y))
        if a.op == 'isnone':
            byeq.setdefault(a.args[0], []).append((a, NONE))
    for x, l in byeq.items():
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                if l[i][1] is not l[j][1]:
                    ax = band(ax, bnot(band(batom(l[i][0]), batom(l[j][0]))))
    polys = {}
    for a in atoms:
        if a.op in ('lt0', 'le0', 'eq0'):
            p, c = psplit(a.args[0])
            polys.setdefault(p, []).append((a, c))
        elif a.op == 'eq' and not (a.args[0].op == 'const' and a.args[1].op == 'const'):
            try:
                d = add(a.args[0], neg(a.args[1]))
            except Exception:
                continue
            if poly_lead_negative(d):
                d = neg(d)
            p, c = psplit(d)
            polys.setdefault(p, []).append((a, c))
    # x + c <0 etc.: position of -x relative to the thresholds c
    for p, l in polys.items():
        if len(l) < 2:
            continue
        for i in range(len(l)):
            for j in range(len(l)):
                if i == j:
                    continue
                (a, ca), (b, cb) = l[i], l[j]
                ka = {'lt0': 'lt', 'le0': 'le', 'eq0': 'eq', 'eq': 'eq'}[a.op]
                kb = {'lt0': 'lt', 'le0': 'le', 'eq0': 'eq', 'eq': 'eq'}[b.op]
                A, B = batom(a), batom(b)
                # a: p + ca R 0  i.e.  p R -ca
                ta, tb = -ca, -cb
                if ka == 'eq' and kb == 'eq' and ta != tb:
                    ax = band(ax, bnot(band(A, B)))
                elif ka == 'eq' and kb in ('lt', 'le'):
                    sat = (ta < tb) if kb == 'lt' else (ta <= tb)
                    ax = band(ax, bimp(A, B if sat else bnot(B)))
                elif ka in ('lt', 'le') and kb in ('lt', 'le'):
                    # p < ta implies p < tb ?
                    if ta < tb or (ta == tb and not (ka == 'le' and kb == 'lt')):
                        ax = band(ax, bimp(A, B))
                    if ta == tb and ka == 'le' and kb == 'lt':
                        for e, ce in l:
                            if e.op in ('eq', 'eq0') and ce == ca:
                                ax = band(ax, bimp(band(A, bnot(B)), batom(e)))
    return ax


def bcanon(f):
    """Canonical form of a guard modulo the theory of its atoms."""
    if f.op != 'bdd':
        return f
    k = ('canon', f)
    r = _bcache.get(k)
    if r is None:
        r = f
        for _ in range(4):
            th = theory(batoms(r))
            n = bconstrain(r, th) if th is not BT else r
            if n is r:
                break
            r = n
        _bcache[k] = r
    return r


def bsat(f):
    if f is BF:
        return False
    th = theory(batoms(f))
    return band(f, th) is not BF


def bequiv(f, g):
    """Are f and g the same modulo the theory of all their atoms?"""
    if f is g:
        return True
    d = bite(f, bnot(g), g)
    return not bsat(d)


# ------------------------------------------------------------------ values
def is_constant(t):
    return t.op in ('const', 'enum')


STRINGY = ('cat', 'str', 'fmt')


STR_TERMS = []          # parameters of the function analysed that are declared to be texts
STR_ATTRS = {'_delimiter', 'fpath', '_fpath', 'ds_name', 'field_name', 'delimiter'}


def is_stringy(t):
    if t.op == 'param':
        return t in STR_TERMS
    if t.op == 'attr' and t.args[1] in STR_ATTRS:
        return True
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'json.dumps':
        return True
    return (t.op == 'const' and isinstance(t.args[0], (str, bytes))) or t.op in STRINGY


SEQY = ('list', 'tuple', 'build', 'slice_', 'obj', 'listof', 'rep')


def is_seqy(t):
    return t.op in SEQY


# polynomials: ('poly', ((coef, (atom,...)),...))  coefs are Fraction/float rendered as python numbers
def _poly(t):
    """dict monomial(tuple of T sorted by dig)->coef"""
    if t.op == 'poly':
        return {tuple(m.args): c for c, m in zip(t.args[0::2], t.args[1::2])}
    if is_num(t):
        v = t.args[0]
        if v != v or v in (float('inf'), float('-inf')):
            return {(t,): 1}
        return {(): v} if v != 0 else {}
    if t.op == 'const' and isinstance(t.args[0], bool):
        return {(): int(t.args[0])} if t.args[0] else {}
    return {(t,): 1}


def _unpoly(d):
    d = {m: _num(c) for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = sorted(d.items(), key=lambda mc: (len(mc[0]), [a.dig for a in mc[0]]))
    args = []
    for m, c in items:
        args += [c, mk('mono', *m)]
    return mk('poly', *args)


def _num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    if isinstance(c, float) and c == int(c) and abs(c) < 1e15:
        return int(c)
    if isinstance(c, bool):
        return int(c)
    return c


def psplit(t):
    d = _poly(t)
    c = d.pop((), 0)
    return _unpoly(d), c


def poly_lead_negative(t):
    d = _poly(t)
    items = sorted(((m, c) for m, c in d.items() if m), key=lambda mc: (len(mc[0]), [a.dig for a in mc[0]]))
    return bool(items) and items[0][1] < 0


def add(a, b):
    d = dict(_poly(a))
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _unpoly(d)


def neg(a):
    return _unpoly({m: -c for m, c in _poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    d = {}
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > 64:
        return mk('mulop', *sorted((a, b), key=lambda t: t.dig))
    for m, c in pa.items():
        for n, e in pb.items():
            k = tuple(sorted(m + n, key=lambda t: t.dig))
            d[k] = d.get(k, 0) + c * e
    return _unpoly(d)


def ite(c, a, b):
    if c is BT:
        return a
    if c is BF:
        return b
    if a is b:
        return a
    if a.op == 'form' and b.op == 'form':
        return form(bite(c, a.args[0], b.args[0]))
    if a is TRUE_C and b is FALSE_C:
        return form(c)
    if a is FALSE_C and b is TRUE_C:
        return form(bnot(c))
    if a.op == 'form' and b in (TRUE_C, FALSE_C):
        return form(bite(c, a.args[0], BT if b is TRUE_C else BF))
    if b.op == 'form' and a in (TRUE_C, FALSE_C):
        return form(bite(c, BT if a is TRUE_C else BF, b.args[0]))
    # normalise on the top atom of c so that equal functions give equal terms
    if c.op == 'bdd':
        return ite_atom(c, a, b)
    return mk('ite', c, a, b)


def _restrict(t, at, v):
    """Value t when atom at has value v (t an ite tree)."""
    if t.op == 'ite':
        if t.args[0].args[0] is at:
            return t.args[1] if v else t.args[2]
        x, y = _restrict(t.args[1], at, v), _restrict(t.args[2], at, v)
        if x is t.args[1] and y is t.args[2]:
            return t
        return _mkite(t.args[0].args[0], x, y)
    return t


def _mkite(at, x, y):
    if x is y:
        return x
    if (x.op == 'form' or x is TRUE_C or x is FALSE_C) and (y.op == 'form' or y is TRUE_C or y is FALSE_C):
        return form(bite(batom(at), x.args[0] if x.op == 'form' else BT if x is TRUE_C else BF,
                         y.args[0] if y.op == 'form' else BT if y is TRUE_C else BF))
    if at.op == 'isnone':
        # (x is None ? None : x) is x
        if x is at.args[0]:
            x = NONE
        if x is NONE and y is at.args[0]:
            return y
        if x is y:
            return x
    return mk('ite', batom(at), x, y)


def _top(*ts):
    best = None
    for t in ts:
        a = None
        if t.op == 'ite':
            a = t.args[0].args[0]
        elif t.op == 'bdd':
            a = t.args[0]
        if a is not None and (best is None or a.dig < best.dig):
            best = a
    return best


def ite_atom(c, a, b):
    """Canonical (multi-terminal, ordered) form of if c then a else b."""
    if c is BT:
        return a
    if c is BF:
        return b
    at = _top(c, a, b)

    def co(x, v):
        if x.op == 'bdd' and x.args[0] is at:
            return x.args[1] if v else x.args[2]
        if x.op == 'ite' and x.args[0].args[0] is at:
            return x.args[1] if v else x.args[2]
        return x
    return _mkite(at, ite_atom(co(c, 1), co(a, 1), co(b, 1)), ite_atom(co(c, 0), co(a, 0), co(b, 0)))


def form(b):
    if b is BT:
        return TRUE_C
    if b is BF:
        return FALSE_C
    return mk('form', b)


# ------------------------------------------------------------------ rewriting
def subst(t, m, memo=None):
    """Replace sub-terms by the mapping m (T -> T), re-normalising arithmetic, ites and formulas."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        memo[t] = m[t]
        return m[t]
    if not t.args or not any(isinstance(a, T) for a in t.args):
        memo[t] = t
        return t
    r = rebuild(t, [subst(a, m, memo) if isinstance(a, T) else a for a in t.args])
    memo[t] = r
    return r


REBUILD = {}


def rebuild(t, na):
    if all(x is y for x, y in zip(na, t.args)):
        return t
    op = t.op
    if op == 'poly':
        r = ZERO
        for c, mo in zip(na[0::2], na[1::2]):
            x = const(c)
            for f in (mo.args if mo.op == 'mono' else (mo,)):
                x = mul(x, f)
            r = add(r, x)
        return r
    if op == 'mono':
        r = ONE
        return mk('mono', *na)
    if op == 'bdd':
        a = na[0]
        f = a if is_b(a) else (truthy_hook(a) if a.op not in ATOMS else atom_hook(a))
        return bite(f, na[1], na[2])
    if op == 'form':
        return form(na[0])
    if op == 'ite':
        return ite(na[0], na[1], na[2])
    fn = REBUILD.get(op)
    if fn is not None:
        return fn(na)
    return mk(op, *na)


ATOMS = ('eq', 'eq0', 'lt0', 'le0', 'isnone', 'in', 'truthy', 'isa', 'exists', 'caught', 'is')


def atom_hook(a):
    """Re-normalise an atom after substitution: returns a formula."""
    fn = ATOMFN.get(a.op)
    if fn is not None:
        return fn(*a.args)
    return batom(a)


ATOMFN = {}


def truthy_hook(a):
    return batom(a)


def contains(t, pred, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    memo[t] = False
    r = pred(t) or any(contains(a, pred, memo) for a in t.args if isinstance(a, T))
    memo[t] = r
    return r


def first_ite(t, memo=None):
    """First ite outside of binders."""
    if t._ites is not None:
        return t._ites or None
    r = None
    if t.op == 'ite':
        r = t
    elif t.op not in ('build', 'lambda', 'fold', 'bdd', 'exists', 'form', 'mu', 'first', 'ver'):
        for a in t.args:
            if isinstance(a, T):
                r = first_ite(a)
                if r is not None:
                    break
    t._ites = r if r is not None else False
    return r


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 40:
        return '…'
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == 'const':
        return repr(a[0])
    if op in ('param', 'glob', 'enum', 'var'):
        return str(a[0])
    if op == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if op == 'idx':
        return f'{s(a[0])}[{s(a[1])}]' + (ver(a[2]) if len(a) > 2 else '')
    if op == 'poly':
        out = []
        for c, m in zip(a[0::2], a[1::2]):
            f = '*'.join(s(x) for x in m.args)
            out.append(str(c) if not f else (f if c == 1 else '-' + f if c == -1 else f'{c}*{f}'))
        return '(' + ' + '.join(out) + ')'
    if op == 'btrue':
        return 'true'
    if op == 'bfalse':
        return 'false'
    if op == 'bdd':
        return showb(t, d)
    if op == 'form':
        return f'[{s(a[0])}]'
    if op == 'ite':
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    if op == 'elem':
        return f'each({s(a[0])}{"" if a[1] == 0 else "#" + str(a[1])})'
    if op == 'index':
        return f'indexof({s(a[0])})'
    if op == 'eq':
        return f'{s(a[0])} == {s(a[1])}'
    if op in ('lt0', 'le0', 'eq0'):
        return f'{s(a[0])} {dict(lt0="<", le0="<=", eq0="==")[op]} 0'
    if op == 'isnone':
        return f'{s(a[0])} is None'
    if op == 'in':
        return f'{s(a[0])} in {s(a[1])}' + (ver(a[2]) if len(a) > 2 else '')
    if op == 'truthy':
        return f'bool({s(a[0])})'
    if op == 'call':
        return f'{s(a[0])}({", ".join(s(x) for x in a[1:])})'
    if op == 'mcall':
        return f'{s(a[0])}.{a[1]}({", ".join(s(x) for x in a[2:] if not (isinstance(x, T) and x.op == "ver"))})' + ''.join(ver(x) for x in a[2:] if isinstance(x, T) and x.op == 'ver')
    if op == 'ver':
        return ver(t)
    if op == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if op == 'list':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if op == 'cat':
        return 'cat(' + ', '.join(s(x) for x in a) + ')'
    return f'{op}(' + ', '.join(s(x) for x in a) + ')'


def ver(v):
    return "'" * len(v.args) if v.args else ''


def showb(f, d=0):
    # sum of cubes
    cubes = []

    def walk(n, lits):
        if len(cubes) > 8:
            return
        if n is BT:
            cubes.append(list(lits))
            return
        if n is BF:
            return
        walk(n.args[1], lits + [(n.args[0], True)])
        walk(n.args[2], lits + [(n.args[0], False)])
    walk(f, [])
    out = []
    for c in cubes[:8]:
        out.append(' and '.join(('' if v else 'not ') + '(' + show(a, d + 1) + ')' for a, v in c) or 'true')
    return ' or '.join(out) + (' …' if len(cubes) > 8 else '')
