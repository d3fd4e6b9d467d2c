#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from propdefs import P
root = os.path.dirname(here)
checks, na = [], []
with open(root + '/properties.jsonl', 'w') as f:
    for x in P:
        an = dict(files=x['files'],
                  mechanism=[dict(name=a, where=b) for a, b in x['mech']],
                  hook_needed=None)
        if x['observe']:
            an['observe_at'] = x['observe']
        if x['state']:
            an['state'] = x['state']
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(dict(
            id=x['id'], title=x['title'],
            statement=' '.join(x['statement'].split()),
            quantifier=x['quantifier'],
            why_tests_cant=x['why_tests_cant'], anchors=an)) + '\n')
        if x['na']:
            na.append(dict(property=x['id'], reason=x['na']))
        else:
            checks.append(dict(
                property=x['id'],
                quick_cmd='python3-vt check.py %s' % x['id'],
                thorough_cmd='python3-vt check.py %s --tier=thorough'
                % x['id'],
                evidence_file='evidence/%s.json' % x['id'],
                technique='symbolic execution of clang bitcode of the real '
                          'code, assertions decided by SMT (z3, cvc5)',
                level='model_checking',
                level_note=x['note'] or 'Every value within the bounds of '
                'DESIGN.md; bounds and assumptions are repeated in the '
                'evidence.'))
json.dump(dict(version=1,
               setup_cmd='python3-vt -c "import z3" && '
                         'clang++-18 --version >/dev/null',
               checks=checks, not_applicable=na,
               notes='No hooks: the checks compile /repo as it is.'),
          open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')

# DESIGN.md from its template
sys.path.insert(0, root)
import registry
t = open(here + '/DESIGN.in.md').read()
o = []
for x in P:
    if x['na']:
        o.append('### %s %s\n\nNot applicable: %s\n' % (
            x['id'], x['title'], x['na']))
        continue
    r = registry.PROPS[x['id']]
    ent = sorted({(j['h'], j['entry'], j.get('dom', 'ieee'))
                  for j in r['jobs']})
    o.append('### %s %s\n\n%s\n\n* harness: %s\n* bounds: %s\n* outside: %s\n'
             '* beyond the tests: %s\n' % (
                 x['id'], x['title'], ' '.join(x['statement'].split()),
                 ', '.join('`%s:%s` (%s)' % e for e in ent),
                 r['bounds'], r['outside'] or '-', x['why_tests_cant']))
s = ['| bug | property | needs | breaks | caught by |', '|-|-|-|-|-|']
caught = {}
if os.path.exists(root + '/seeded/caught.json'):
    caught = json.load(open(root + '/seeded/caught.json'))
for d in sorted(os.listdir(root + '/seeded')):
    m = root + '/seeded/%s/meta.json' % d
    if os.path.exists(m):
        m = json.load(open(m))
        s.append('| %s | %s | %s | %s | %s |' % (
            d, m['property'], m['needs'], m['what_it_breaks'],
            caught.get(d, '?')))
open(root + '/DESIGN.md', 'w').write(
    t.replace('@@PROPS@@', '\n'.join(o)).replace('@@SEEDS@@', '\n'.join(s)))
