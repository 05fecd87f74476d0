"""Development aid: writes and confirms the planted changes described in tools/seeds_*.py.

  mkseed.py make [ID..]    write seeded/ID/{patch.diff,demo.sh,demo.py,meta.json}
  mkseed.py demo [ID..]    demo on /repo as it is, then with the patch (rebuilt if C++), undone afterwards
  mkseed.py test [ID..]    stable tests with the patch
  mkseed.py check [ID..]   which checks report it
"""
import glob
import importlib.util
import json
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
BASE = 'cdebb06'

DEMO_SH = '''#!/bin/bash
# exits 0 when the property holds on this scenario
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /tmp
exec timeout -k 5 %(timeout)d %(mpi)s/opt/venv/bin/python "$D/demo.py"
'''

DEMO_HEAD = '''import sys, traceback
sys.path.insert(0, '/repo/src')
from mpi4py import MPI
comm = MPI.COMM_WORLD
rank = comm.Get_rank()
'''

DEMO_RUN = '''

def run():
    try:
        main()
        bad = 0
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        if comm.size > 1:
            comm.Abort(3)
        bad = 1
    sys.stdout.flush()
    return bad


if __name__ == '__main__':
    b = run()
    if b:
        sys.exit(1)
'''


def seeds():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds_*.py'))):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.SEEDS
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(s):
    d = os.path.join(VERIF, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    diffs = ''
    with tempfile.TemporaryDirectory() as t:
        byfile = {}
        for f, old, new in s['edits']:
            byfile.setdefault(f, []).append((old, new))
        for f, eds in byfile.items():
            src = open(os.path.join(REPO, f)).read()
            bl = sh(f'git -C {REPO} blame -s {f}').stdout.splitlines()
            new = src
            for a, b in eds:
                assert src.count(a) == 1, (s['id'], f, src.count(a), a)
                new = new.replace(a, b)
            for p, txt in (('a', src), ('b', new)):
                os.makedirs(os.path.join(t, p, os.path.dirname(f)), exist_ok=True)
                open(os.path.join(t, p, f), 'w').write(txt)
            o = sh(f'diff -u a/{f} b/{f}', cwd=t).stdout
            # only original lines may go
            import re
            ln = 0
            for l in o.splitlines():
                m = re.match(r'@@ -(\d+)', l)
                if m:
                    ln = int(m.group(1))
                    continue
                if l.startswith('---') or l.startswith('+++'):
                    continue
                if l.startswith('-'):
                    if not bl[ln - 1].lstrip('^').startswith(BASE):
                        print('  WARNING', s['id'], 'changes a line of a fix commit:', l)
                    ln += 1
                elif not l.startswith('+'):
                    ln += 1
            ls = o.splitlines(keepends=True)
            ls[0] = f'--- a/{f}\n'
            ls[1] = f'+++ b/{f}\n'
            diffs += f'diff --git a/{f} b/{f}\n' + ''.join(ls)
    open(os.path.join(d, 'patch.diff'), 'w').write(diffs)
    n = s.get('ranks', 1)
    mpi = f'mpirun.openmpi -n {n} ' if n > 1 else ''
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % dict(timeout=s.get('timeout', 90), mpi=mpi))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(DEMO_HEAD + s['demo'].strip('\n') + '\n' + DEMO_RUN)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh(f'git -C {REPO} apply --check {d}/patch.diff')
    print('made', s['id'], 'applies' if r.returncode == 0 else r.stderr)


def clean():
    return sh(f'git -C {REPO} status --porcelain').stdout.strip() == ''


def patched(s, f):
    assert clean(), 'repo not clean'
    d = os.path.join(VERIF, 'seeded', s['id'])
    r = sh(f'git -C {REPO} apply {d}/patch.diff')
    assert r.returncode == 0, r.stderr
    try:
        return f(d)
    finally:
        sh(f'git -C {REPO} checkout -- .')


def cpp(s):
    return any(f.endswith(('.h', '.cpp')) for f, _, _ in s['edits'])


def build():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-3000:])
    return r.returncode == 0


def demo(s):
    d = os.path.join(VERIF, 'seeded', s['id'])
    r0 = sh(f'bash {d}/demo.sh')

    def f(d):
        if cpp(s) and not build():
            return None
        return sh(f'bash {d}/demo.sh')
    r1 = patched(s, f)
    if cpp(s):
        build()
    ok = r0.returncode == 0 and r1 is not None and r1.returncode != 0
    print('demo', s['id'], 'OK' if ok else 'BAD', r0.returncode, r1.returncode if r1 else 'nobuild')
    if r1 is not None:
        print('    ', '\n     '.join([l for l in r1.stderr.strip().splitlines() if 'Error' in l][:2]))
    if r0.returncode:
        print(r0.stderr[-1500:])


def test(s):
    def f(d):
        if cpp(s):
            build()
        r = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        return json.load(open('/tmp/seedtest.json'))
    res = patched(s, f)
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('tests') or base
    if cpp(s):
        build()
    passed = set(res.get('passed', [])) if isinstance(res.get('passed'), list) else {k for k, v in res.items() if v == 'pass'}
    want = names if isinstance(names, list) else list(names)
    bad = [n for n in want if n not in passed]
    print('test', s['id'], 'OK' if not bad else f'BREAKS {len(bad)}: {bad[:4]}')


def check(s):
    def f(d):
        out = []
        man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in man['checks']:
            r = sh(c['quick_cmd'], cwd=VERIF)
            if r.returncode:
                out.append((c['property'], r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')][:1]))
        return out
    out = patched(s, f)
    hit = [p for p, rc, v in out if rc == 1]
    err = [p for p, rc, v in out if rc not in (0, 1)]
    print('check', s['id'], s['property'], 'CAUGHT' if s['property'] in hit else 'missed', hit, ('errors', err) if err else '')


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    for s in seeds():
        if not ids or s['id'] in ids:
            {'make': make, 'demo': demo, 'test': test, 'check': check}[cmd](s)
