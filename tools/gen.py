#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from meta.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import meta
import importlib
checks, na = [], []
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in meta.P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}) + '\n')
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        m = importlib.import_module('props.' + p['id'])
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'static analysis: ' + m.TECHNIQUE, 'level': 'other',
            'level_note': (getattr(m, 'NOTE', None) or ('Sound static decision for all values of the symbolic inputs within the modelled semantics; '
                           'constructs outside the analysed language are reported UNDECIDED, never assumed. ')) + (' Bounds: %s.' % p['note'] if p['note'] else '')
                          + ' Assumes: ' + '; '.join(m.ASSUME)})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read the source of /repo and execute none of it.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')

# planted bugs, section 4 of DESIGN.md
import glob
D = os.path.join(H, 'DESIGN.md')
t = open(D).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
if a in t and b in t:
    rows = []
    for q in glob.glob(os.path.join(H, 'seeded', '*', 'meta.json')):
        d = json.load(open(q))
        rows.append((d['property'], os.path.basename(os.path.dirname(q)), d['what_it_breaks'], d['needs']))
    x = ['| caught by | bug | breaks | needs |\n', '|---|---|---|---|\n'] + ['| %s | `%s` | %s | %s |\n' % r for r in sorted(rows)]
    open(D, 'w').write(t[:t.index(a) + len(a)] + ''.join(x) + t[t.index(b):])
