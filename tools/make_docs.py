"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from table import PROPS, NA

PYTHON = '/opt/venv/bin/python'


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'sim', 'props')) if f.startswith('c') and f.endswith('.py')}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NA:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'observe_at': p.get('observe', []), 'hook_needed': None},
            }, ensure_ascii=False) + '\n')
    checks, na = [], [{'property': p['id'], 'reason': p['reason']} for p in NA]
    for p in PROPS:
        if p['id'] not in built:
            na.append({'property': p['id'], 'reason': 'the check for it is not built yet'})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': '%s sim/run.py check %s' % (PYTHON, p['id']),
            'thorough_cmd': 'VERIF_TIER=thorough %s sim/run.py check %s' % (PYTHON, p['id']),
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'],
            'level': p.get('level', 'exploration'),
            'level_note': p['note'],
        })
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': '%s sim/run.py setup' % PYTHON,
            'checks': checks,
            'not_applicable': na,
            'notes': 'All checks run the deterministic simulator in sim/; no hooks were added to /repo. '
                     'Replay a recorded violation with: %s sim/run.py replay replays/FILE' % PYTHON,
        }, f, indent=1, ensure_ascii=False)
        f.write('\n')


def design():
    import glob
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    notes = json.load(open(os.path.join(V, 'tools', 'seeded_notes.json')))
    rows = []
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', ''))):
        i = os.path.basename(d[:-1])
        m = json.load(open(d + 'meta.json'))
        first, what = notes.get(i, ['yes', ''])[:2]
        caught = notes[i][2] if len(notes.get(i, [])) > 2 else 'yes'
        rows.append('| %s | %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), caught, first, what))
    s = open(os.path.join(V, 'tools', 'design.md.in')).read()
    s = s.replace('@N_FIXED@', str(sum(k['status'] == 'fixed' for k in kf))).replace('@TABLE@', '\n'.join(rows))
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write(s.rstrip() + '\n')


main()
design()
