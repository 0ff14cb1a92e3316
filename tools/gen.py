#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from table.py (run by hand, not by the checks)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in table.PROPS:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'observe_at': p['observe']},
        }) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'bash tools/setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s' % p['id'],
        'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': p['note'],
    } for p in table.PROPS if not p['na']],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in table.PROPS if p['na']],
    'notes': 'Every check builds its harness (harness/*.cc) from /repo\'s working tree into the ignored build/ '
             'directory, runs it on VERIF_SEED, writes evidence/<id>.json, and on a violation leaves a shrunk '
             'reproduction in replays/ (python3 check.py <id> --replay <file>). No hooks in /repo are needed.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')

# The marked sections of DESIGN.md
import re, textwrap
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from design import NOTES
d = open(os.path.join(ROOT, 'DESIGN.md')).read()


def section(name, text):
    global d
    d = re.sub(r'(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)' % (name, name), lambda m: m.group(1) + text + m.group(2), d, flags=re.S)


t = ''
for p in table.PROPS:
    t += '### %s %s\n\n' % (p['id'], p['title'])
    if p['na']:
        t += 'Not applicable: %s\n\n' % p['na']
        continue
    h = table.CHECKS[p['id']]
    src = ', '.join(sorted({x[0] for x in h.get('harness', [])})) or 'tools/%s.py' % h['module']
    t += textwrap.fill('Technique: %s (%s). %s' % (p['technique'], src, NOTES[p['id']]), 118, break_on_hyphens=False) + '\n\n'
    t += textwrap.fill('Counted: %s Limits: %s' % (h['rule'], p['note']), 118, break_on_hyphens=False) + '\n\n'
section('properties', t)
rows = [l.rstrip('\n').split('\t') for l in open(os.path.join(ROOT, 'tools', 'seeded.tsv'))]
rows.sort(key=lambda r: (r[1], r[0]))
section('seeded', '| property | change | result | reported by |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % (r[1], r[0], r[2], r[3]) for r in rows))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(d)
