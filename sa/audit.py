"""Audit of the contracts (thorough tier).

Every function that carries the property is changed in memory, one edit at a time (a statement deleted, a comparison, a
connective, a constant or an operator altered, arguments exchanged), and compared with its contract again.  The result says how much of
the function the contract constrains; nothing in /repo is changed or run, and the audit never yields a violation.
"""
import ast
import copy
import multiprocessing as mp
import os
import random
import signal
import time
from program import Program, Module

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
REMOVABLE = (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.If, ast.For, ast.Raise, ast.Break, ast.Continue, ast.Return)


def edits(fn):
    """[(description, change)] of one function; change() edits the tree in place."""
    out = []

    def put(n, what, f):
        out.append((f'line {getattr(n, "lineno", "?")}: {what}'[:150], f))
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            put(n, f'{ast.unparse(n)} compares otherwise', lambda n=n: n.ops.__setitem__(0, SWAP[type(n.ops[0])]()))
        elif isinstance(n, ast.BoolOp):
            put(n, f'and/or exchanged in {ast.unparse(n)}', lambda n=n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for j in range(len(n.values)):
                put(n, f'operand {j} dropped from {ast.unparse(n)}', lambda n=n, j=j: n.values.pop(j))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, f'{n.value} becomes {not n.value}', lambda n=n: setattr(n, 'value', not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, f'{n.value} becomes {n.value + 1}', lambda n=n: setattr(n, 'value', n.value + 1))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, f'+/- exchanged in {ast.unparse(n)}', lambda n=n: setattr(n, 'op', ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
            put(n, f'arguments exchanged in {ast.unparse(n)}', lambda n=n: n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]]))
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for j, s in enumerate(b):
                if isinstance(s, REMOVABLE) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not \
                        (isinstance(s, ast.Return) and s.value is None):
                    put(s, f'without {ast.unparse(s).splitlines()[0]}', lambda b=b, j=j: b.__setitem__(j, ast.copy_location(ast.Pass(), b[j])))
    return out


STATE = {}


def find(tree, line, name):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name and n.lineno == line[0] and n.col_offset == line[1]:
            return n
    return None


def one(job):
    root, modname, path, k = job
    spec, code, make, native = STATE['spec'], STATE['code'], STATE['make'], STATE['native']

    def expired(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, expired)
    signal.alarm(60)
    try:
        m = code.modules[modname]
        tree = copy.deepcopy(m.tree)
        fn = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)][path]
        d, f = edits(fn)[k]
        before = ast.dump(fn)
        f()
        ast.fix_missing_locations(tree)
        if ast.dump(fn) == before:
            return job, d, 'same'
        p = Program('repast4py')
        for x, y in code.modules.items():
            if x != modname:
                p.modules[x] = y
        p.add(Module(modname, m.path if hasattr(m, 'path') else m.file, src='', tree=tree))
        c = make(spec, p)
        fs = c.check_root(root)
        und = bool(c.undecided)
        if (fs or und) and native:
            c2 = make(spec, p)
            if not c2.check_root(root, drop_soft=True) and not c2.undecided:
                fs, und = [], False
        return job, d, 'seen' if fs else 'undecided' if und else 'unseen'
    except TimeoutError:
        return job, '', 'undecided'
    except Exception:
        return job, '', 'undecided'
    finally:
        signal.alarm(0)


def run(spec, code, make, roots, native, budget, rep, key):
    """Audits the roots within budget seconds."""
    jobs = []
    seen = set()
    index = {}
    for modname, m in code.modules.items():
        for i, n in enumerate(x for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef)):
            index[id(n)] = (modname, i)
    c = make(spec, code)
    for r in roots:
        f = c.code_func(*r[:3])
        if f is None or id(f.node) not in index:
            continue
        modname, i = index[id(f.node)]
        if (modname, i) in seen:
            continue
        seen.add((modname, i))
        jobs += [(r, modname, i, k) for k in range(len(edits(f.node)))]
    total = len(jobs)
    random.Random(int(os.environ.get('VERIF_SEED', '1') or 1)).shuffle(jobs)
    STATE.update(spec=spec, code=code, make=make, native=native)
    t0 = time.time()
    tally = dict(seen=0, undecided=0, unseen=0, same=0)
    unseen = []
    if jobs:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=12) as pool:
            for job, d, what in pool.imap_unordered(one, jobs):
                tally[what] += 1
                if what == 'unseen':
                    unseen.append(f'{job[0][1] + "." if job[0][1] else ""}{job[0][2]}: {d}')
                if time.time() - t0 > budget:
                    pool.terminate()
                    break
    rep[f'audit {key}'] = dict(functions=len(seen), edits_possible=total, edits_analysed=sum(tally.values()), distinguished=tally['seen'],
                               undecided=tally['undecided'], not_distinguished=tally['unseen'], seconds=round(time.time() - t0, 1),
                               not_distinguished_list=sorted(unseen)[:60])
    return rep[f'audit {key}']
