#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md below the marker from the properties, the last evidence, the repairs and the planted changes."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/gen_design.py -->'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
fixed = json.load(open(V + '/known_findings.json'))['fixed']
seeds = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in glob.glob(V + '/seeded/*/meta.json')}
extra = {}
for f in glob.glob(V + '/tools/notes/*.md'):
    extra[os.path.basename(f)[:-3]] = open(f).read().strip()
o = [MARK, '', '# Properties', '']
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    if i in na:
        continue
    o += ['## %s %s' % (i, p['title']), '', 'Quantified over: %s.' % p['quantifier']['text'], '']
    e = V + '/evidence/%s.json' % i
    if os.path.exists(e):
        d = json.load(open(e))
        c = d['coverage']
        o += ['Decided by: ' + c['explanation'], '', 'Obligations (rule: what it demands, how many instances the current tree yields):', '']
        for r in c['rules']:
            o.append('* `%s` (%d): %s.' % (r['id'], r['instances'], r['rule'].rstrip('.')))
        o += ['', 'Bounds: none on values; %d functions, %d route summaries.' % (c['functions_analysed'], c['path_summaries']) + ' Assumes: ' + '; '.join(d['assumptions']) + '.', '']
    o += ['Why the tests cannot settle it: ' + p['why_tests_cant'], '']
    if i in extra:
        o += [extra[i], '']
    fx = [x for x in fixed if 'property=%s ' % i in (x if isinstance(x, str) else json.dumps(x))]
    if fx:
        o += ['Defects found and repaired:', ''] + ['* ' + (x if isinstance(x, str) else x.get('text', json.dumps(x))) for x in fx] + ['']
    s = sorted(k for k, m in seeds.items() if m['property'] == i)
    if s:
        o += ['Planted changes, all reported by this check:', '']
        o += ['* `%s`: %s (needs: %s).' % (k, seeds[k]['what_it_breaks'], seeds[k]['needs']) for k in s] + ['']
o += ['# Not applicable', '']
for p in props:
    if p['id'] in na:
        o.append('* %s *%s*: %s.' % (p['id'], p['title'], na[p['id']].rstrip('.')))
t = open(V + '/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n' + '\n'.join(o) + '\n'
open(V + '/DESIGN.md', 'w').write(t)
print(len(t.splitlines()), 'lines')
