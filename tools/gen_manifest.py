"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'P33': 'Equality of floating point sums combined in different orders is a statement about numerical values; no source level rule '
           'decides it (and with MPI.SUM it is false for floats). The structural part - which values are reduced, once each - is P23.',
    'P34': 'Quantifies over arbitrary user models and compares whole histories of two runs; static analysis of the library cannot relate '
           'them. Its structural ingredients are P02, P07, P10 and P20.',
    'P35': 'Equality of two complete runs, including user code; beyond any static argument. What a checkpoint has to carry is P26 and P27.',
    'P36': 'Termination of user-driven runs is undecidable here; that collectives pair up is P01.',
}
CLAIMED_CPP = ['P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P28', 'P29']
TECH = 'static analysis: guarded effect summaries (value numbering, in-place helper analysis, loop summarisation) compared with contracts'
EXTRA = {
    'P01': '; rank-uniformity dataflow over the conditions of every collective',
    'P24': '; package-wide query for sources of randomness',
    'P29': '; ownership and argument-format lints over the clang AST',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
have_cpp = os.path.exists(os.path.join(V, 'sa', 'cppcheck.py'))
na = dict(NA)
for p in props:
    i = p['id']
    if i in NA:
        continue
    if i in ('P14', 'P18', 'P28', 'P29', 'P17', 'P15', 'P13') and not have_cpp:
        na[i] = 'not built yet'
        continue
    checks.append(dict(property=i, quick_cmd=f'python3 sa/check.py {i}', thorough_cmd=f'python3 sa/check.py {i} --tier thorough',
                       technique=TECH + EXTRA.get(i, ''), level='other',
                       level_note='Decides, for all inputs and histories, that each function carrying the property has exactly the effects '
                       'its contract in /verif/specs demands, under the same conditions. That the contracts together imply the property was '
                       'argued by review (DESIGN.md). Constructs outside the analysed fragment make a function undecided (reported in the '
                       'evidence), not a violation. Trusts the engine in /verif/sa and documented behaviour of the libraries used.'))
m = dict(version=1, setup_cmd='python3 -m compileall -q sa', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
         notes='No hooks: nothing in /repo is instrumented. All checks only read /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
