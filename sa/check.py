#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property from the source of /repo.

exit 0: every contract of the property is met by the code (or could not be decided: printed as UNDECIDED)
exit 1: VIOLATION line, details in the report file it names
exit 2: the analysis itself failed (a function a contract is about has vanished, or nothing was analysed)
"""
import argparse
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config as C
import compare as X
import rules
from roots import ROOTS
from terms import *

VERIF = os.path.dirname(X.HERE)
RNG_NAMES = {'default_rng', 'rng', 'shuffle', 'permutation', 'permuted', 'uniform', 'integers', 'rand', 'random', 'choice', 'seed',
             'G:torch.rand', 'init'}


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=Pxx key=<identification> | <what fails>
                body = line[len('finding:'):].strip()
                head, _, what = body.partition(' | ')
                pr, _, key = head.partition(' key=')
                out.append((pr.replace('property=', '').strip(), key.strip(), what.strip()))
    return out


def comm_event(e, own=()):
    return e is not None and rules.is_collective(e, own)


def own_collectives(mod, cn):
    """Methods of a class whose contract says that every rank takes part."""
    return {n.split('.')[1] for n, tags in ROOTS.get(mod, []) if 'P01' in tags.split() and '.' in n and
            n.lstrip('*?').split('.')[0] in (cn, (cn or '').replace('Directed', '').replace('Un', '').replace('directed', ''))} - {'__init__'}


def relevant(prop, f):
    if prop == 'P01':
        parts = f.root.split('.')
        own = own_collectives(parts[0], parts[1] if len(parts) > 2 else None)
        if f.spec is not None and f.code is not None and f.kind == 'effect':
            if not (comm_event(f.spec, own) or comm_event(f.code, own)):
                return False
            a, b = f.spec, f.code
            return a.head is not b.head or a.frames != b.frames or not bequiv(a.guard, b.guard) or \
                (a.head.op == 'meth' and a.head.args[1][:1].isupper())
        return comm_event(f.spec, own) or comm_event(f.code, own)
    if prop == 'P24' and not f.root.startswith(('random.', 'parameters.')):
        ns = set()
        for e in (f.spec, f.code):
            if e is not None:
                ns |= X.names_of([e])
        return bool(ns & RNG_NAMES) or any(e is not None and 'rng' in e.res for e in (f.spec, f.code))
    return True


def python_part(prop, tier, rep):
    spec, code = X.load()
    c = X.Comparator(spec, code)
    found = []
    roots = c.roots(prop)
    for r in roots:
        n0 = len(c.undecided)
        fs = c.check_root(r)
        und = c.undecided[n0:]
        if fs or und:
            fs2 = retry(spec, code, r)
            if fs2 is not None and not fs2[0] and not fs2[1]:
                fs, c.undecided[n0:] = [], []
        fs = [f for f in fs if relevant(prop, f)]
        found += [(f.ident(), f.where(), f.text) for f in fs]
    cf, nc = X.check_consts(spec, code, prop)
    found += [(f.ident(), f.where(), f.text) for f in cf]
    rep['python functions compared with their contract'] = c.stats['roots']
    rep['effects matched'] = c.stats['matched']
    rep['definitions compared'] = nc
    rep['functions'] = [f'{n} ({os.path.relpath(f, X.REPO)}:{l}): {s} effects demanded, {k} found' for n, s, k, f, l in c.analysed]
    rep['undecided'] = list(c.undecided)
    if prop == 'P01':
        found += collective_rule(spec, code, c, rep)
    if prop == 'P24':
        bad, n = rules.randomness(code, X.CODE)
        rep['references to sources of randomness and native files scanned'] = n
        for f, l, t in bad:
            found.append((f'random source: {os.path.basename(f)}: {t}', f'{os.path.relpath(f, X.REPO)}:{l}', t))
    if tier == 'thorough':
        import audit
        audit.run(spec, code, X.Comparator, roots, False, 300, rep, 'of the python contracts')
    return found, len(roots)


def retry(spec, code, r):
    """The same comparison with the optional contracts analysed in place instead of on their own."""
    if r[0] != 'value_layer':
        return None
    c2 = X.Comparator(spec, code)
    try:
        fs = c2.check_root(r, drop_soft=True)
    except X.MissingAnchor:
        return None
    return fs, c2.undecided


def collective_rule(spec, code, c, rep):
    """Collectives are reached under conditions every rank agrees on, in every function that has any."""
    found, n, nf = [], 0, 0
    opaque = c.opaque_sets()
    done = set()
    for m in code.modules.values():
        for holder in [None] + list(m.classes.values()):
            fns = m.funcs if holder is None else holder.methods
            for fn in fns.values():
                own = own_collectives(m.name.split('.')[-1], getattr(holder, 'name', None))
                if not X.mentions_collective(fn.node) and not X.mentions(fn.node, own):
                    continue
                cls = holder
                if (m.name, getattr(holder, 'name', None), fn.name) in done:
                    continue
                done.add((m.name, getattr(holder, 'name', None), fn.name))
                try:
                    ev, uns = c.summarise(code, fn, cls, opaque)
                except Exception:
                    continue
                k, bad = rules.uniformity(ev, own)
                if k:
                    nf += 1
                    n += k
                for e, x, why in bad:
                    t = f'collective {show(e.head)} {why} {show(x)}, which differs between ranks'
                    found.append((f'collective rule: {m.name}.{fn.name}: {e.head.args[1]}', f'{os.path.relpath(e.loc[0], X.REPO)}:{e.loc[1]}', t))
    rep['functions with collective operations'] = nf
    rep['collective operations checked for rank-uniform conditions'] = n
    if nf < 14 and not found:
        rep['undecided'].append(f'only {nf} functions with collective operations were found, 14 are expected')
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    rep = {}
    try:
        found, nroots = python_part(prop, a.tier, rep)
        try:
            import cppcheck
        except ImportError:
            cppcheck = None
        if cppcheck is not None:
            f2, n2 = cppcheck.run(prop, a.tier, rep)
            found += f2
            nroots += n2
    except X.MissingAnchor as x:
        print(f'ERROR: {x}: a function or construct the property is anchored in no longer exists; the contracts have to be revised')
        return 2
    if not nroots:
        print(f'ERROR: no contract carries {prop}')
        return 2
    kf = [(k, w) for p, k, w in known() if p == prop]
    viol, seen = [], set()
    for ident, where, text in found:
        if ident in seen:
            continue
        seen.add(ident)
        hit = [w for k, w in kf if k == ident]
        if hit:
            print(f'KNOWN-FINDING: property={prop} {hit[0]}')
        else:
            viol.append((ident, where, text))
    for n in rep.get('functions', []):
        print('analysed', n)
    for u in rep.get('undecided', []):
        print('UNDECIDED', u)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    report = os.path.join(ev, f'{prop}.report.txt')
    with open(report, 'w') as f:
        f.write(f'{prop}: {len(viol)} violation(s)\n')
        for ident, where, text in viol:
            f.write(f'\n{where}\n  {ident[:4000]}\n')
    data = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                level='other', wall_s=round(time.time() - t0, 2), violations=len(viol),
                coverage=dict(explanation='Source of /repo parsed and each function carrying the property reduced to a guarded effect '
                              'summary (value-numbered, helpers analysed in place, loops summarised); the summary is compared with the '
                              'contract in /verif/specs. Every effect demanded has to be there under the demanded condition, on the same '
                              'objects and in a compatible order, and no other effect on state the contracts speak of.', **rep),
                assumptions=['arguments documented as equal on all ranks are', 'third party libraries (mpi4py, networkx, numpy, torch) behave '
                             'as documented', 'no monkey patching of the library'])
    json.dump(data, open(os.path.join(ev, f'{prop}.json'), 'w'), indent=1)
    print(f'{prop}: {nroots} contracts, {len(viol)} violations, {len(rep.get("undecided", []))} undecided, {time.time() - t0:.1f} s')
    if viol:
        for ident, where, text in viol[:10]:
            print(f'  {where}: {ident[:600]}')
        print(f'VIOLATION property={prop} replay={report}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
