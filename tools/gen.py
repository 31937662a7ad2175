#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props/*.json (one file per property)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(V, 'props', '*.json'))):
    d = json.load(open(f))
    chk = d.pop('check', None)
    nar = d.pop('not_applicable', None)
    assert len(d['title']) <= 80, (d['id'], len(d['title']))
    d['anchors'].setdefault('hook_needed', None)
    props.append(d)
    if nar:
        na.append({'property': d['id'], 'reason': nar})
    else:
        checks.append({'property': d['id'],
                       'quick_cmd': 'python3 engine/vp.py check %s --tier quick' % d['id'],
                       'thorough_cmd': 'python3 engine/vp.py check %s --tier thorough' % d['id'],
                       'technique': 'contract-based deductive verification of the real C functions: CBMC code contracts '
                                    '(goto-instrument --dfcc) enforced on /repo sources, discharged by SAT/SMT',
                       'level': chk.get('level', 'proof'), 'level_note': chk['note']})
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in props))
m = {'version': 1,
     'setup_cmd': 'cbmc --version && goto-cc --version && goto-instrument --version && python3 engine/vp.py list >/dev/null',
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks')

# ---------------------------------------------------------------- DESIGN.md
import sys, re
sys.path.insert(0, os.path.join(V, 'engine'))
import vp
out = [open(os.path.join(V, 'design', 'head.md')).read(), '## 2. Properties\n']
allunits = {}
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    c = [c for c in checks if c['property'] == i]
    if not c:
        out.append('Not applicable: ' + [n for n in na if n['property'] == i][0]['reason'] + '\n')
        continue
    out.append('Coverage: ' + c[0]['level_note'] + '.\n')
    us = vp.load_units(i)
    allunits[i] = us
    notes = os.path.join(V, 'design', i + '.md')
    if os.path.exists(notes):
        out.append(open(notes).read())
    out.append('| unit | contract enforced on | mode | callees by contract / stand-ins | assumptions |')
    out.append('|---|---|---|---|---|')
    for u in us:
        mode = 'bounded: ' + (u.bound or '') if u.level == 'bounded' else 'proof'
        if u.d.get('tier') == 'thorough':
            mode += ' (thorough tier)'
        st = list(u.replace) + [x.split(':')[0] for x in u.swap]
        out.append('| %s | %s | %s | %s | %s |' % (u.name, ', '.join((u.enforce or '').split()), mode.replace('|', '/'), ', '.join(st) or '-', '; '.join(u.assume).replace('|', '/') or '-'))
    out.append('')
out.append('## 3. Planted bugs\n')
out.append('| seed | property | what it breaks | needs | caught by |')
out.append('|---|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    cb = d.get('caught_by', 'the %s check' % d['property'])
    out.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'], d['needs'], cb))
out.append('')
out.append(open(os.path.join(V, 'design', 'tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
