"""Behaviour preserving edits of the Python sources; every check has to stay quiet on each of them.
usage: refac_py.py [NAME...]   (works on scratch copies, /repo is not touched)"""
import os, re, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/repast4py/'
R = []


def r(name, fn, *edits):
    R.append((name, [(S + fn, o, n) for o, n in zip(edits[::2], edits[1::2])]))


RUN = '''
import os, sys, check, compare as X
from roots import ROOTS
spec, code = X.load()
out = []
c = X.Comparator(spec, code)
props = sorted({t for rs in ROOTS.values() for n, tags in rs for t in tags.split() if t[:1] == 'P'})
for rt in c.roots():
    n0 = len(c.undecided)
    fs = c.check_root(rt)
    und = c.undecided[n0:]
    if fs or und:
        fs2 = check.retry(spec, code, rt)
        if fs2 is not None and not fs2[0] and not fs2[1]:
            fs, und = [], []
    out += ['VIOLATION %s: %s' % (f.root, f.text[:int(os.environ.get('W','900'))]) for f in fs] + ['UNDECIDED ' + str(u)[:300] for u in und]
for p in props:
    cf, nc = X.check_consts(spec, code, p)
    out += ['CONST ' + f.text for f in cf]
rep = {'undecided': []}
out += ['RULE ' + str(f) for f in check.collective_rule(spec, code, c, rep)]
import rules
bad, n = rules.randomness(code, X.CODE)
out += ['RANDOM ' + str(b) for b in bad]
seen = set()
for x in out:
    if x not in seen:
        seen.add(x); print(x)
'''


def find(s, old):
    """The edited text, blank lines apart."""
    ls = [x for x in old.split('\n')]
    body = [re.escape(x) for x in ls if x.strip()]
    return re.search(r'[ \t]*(?:#[^\n]*)?\n(?:[ \t]*(?:#[^\n]*)?\n)*'.join(body) + ('\n' if old.endswith('\n') else ''), s)


def one(args):
    name, edits, tmp = args
    d = os.path.join(tmp, name)
    shutil.copytree('/repo/src', d + '/src', symlinks=True, ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        m = find(s, old)
        if m is None:
            return name, 'EDIT DOES NOT APPLY ' + old.strip().split('\n')[0]
        open(p, 'w').write(s[:m.start()] + new + s[m.end():])
        try:
            compile(open(p).read(), p, 'exec')
        except SyntaxError as e:
            return name, 'SYNTAX %s' % e
    code = 'import sys; sys.path.insert(0, %r)\n' % os.path.join(V, 'sa') + RUN
    p = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, R4PY_REPO=d), capture_output=True, text=True)
    shutil.rmtree(d)
    return name, (p.stdout + p.stderr[-600:]).strip()


def main(names):
    tmp = tempfile.mkdtemp(prefix='refacpy')
    todo = [(n, e, tmp) for n, e in R if not names or n in names]
    with ThreadPoolExecutor(6) as ex:
        for name, res in ex.map(one, todo):
            print(name, 'ok' if not res else '\n  ' + res.replace('\n', '\n  '), flush=True)
    shutil.rmtree(tmp)


from refac_py_list import fill as fill1  # noqa: E402
from refac_py_list2 import fill as fill2  # noqa: E402
from refac_py_list3 import fill as fill3  # noqa: E402
from refac_py_list4 import fill as fill4  # noqa: E402


def fill(r):
    fill1(r)
    fill2(r)
    fill3(r)
    fill4(r)


if __name__ == '__main__':
    fill(r)
    main(sys.argv[1:])
