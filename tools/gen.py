#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development tool)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), na=None, note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                   anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], hook_needed=None)), na, note))


exec(open(V + '/tools/props.py').read())
TECH = 'static analysis: path-sensitive interprocedural effect/dataflow analysis over the compiler-resolved AST'
ids = {os.path.basename(f).split('_')[0].upper() for f in glob.glob(V + '/tvmlint/rules/c[0-9]*.py')}
with open(V + '/properties.jsonl', 'w') as f:
    for p, na, note in P:
        f.write(json.dumps(p) + '\n')
checks, nas = [], []
for p, na, note in P:
    if na or p['id'] not in ids:
        nas.append(dict(property=p['id'], reason=na or 'no check has been built for this property yet'))
    else:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                           technique=TECH, level='other',
                           level_note=(note + ' ' if note else '') + 'Every obligation of the rules is decided on every syntactic route of the analysed functions of the current tree; '
                           'trusts the clang front end, the extractor/engine and the rules themselves; robot/ and the concrete solver back-ends are not part of the analysed program.'))
m = dict(version=1, setup_cmd='bash extractor/build.sh', checks=checks, not_applicable=nas,
         notes='No hooks in /repo. Checks parse /repo\'s current sources with a libclang-based extractor built by setup_cmd (rebuilt on demand) and decide the rules of tvmlint/rules/.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(nas), 'n/a')
