"""tools/plant.py SPEC.py: write planted bugs. SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, runpy, subprocess, sys, tempfile, shutil
bugs = runpy.run_path(sys.argv[1])['BUGS']
for b in bugs:
    d = f'/verif/seeded/{b["id"]}'
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/var/tmp')
    patch = ''
    byfile = {}
    for f, old, new in b['edits']:
        s = byfile.get(f) or open(f'/repo/{f}').read()
        assert s.count(old) == 1, (b['id'], f, s.count(old))
        byfile[f] = s.replace(old, new)
    for f, s in byfile.items():
        for side, text in (('a', open(f'/repo/{f}').read()), ('b', s)):
            os.makedirs(os.path.dirname(f'{t}/{side}/{f}'), exist_ok=True)
            open(f'{t}/{side}/{f}', 'w').write(text)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', f'a/{f}', f'b/{f}'], cwd=t, capture_output=True, text=True)
        patch += r.stdout
    shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + b.get('env', '') + 'export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                                    'd=$(cd "$(dirname "$0")" && pwd)\n' + b.get('sh', '/opt/venv/bin/python -W ignore "$d/demo.py"\n'))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(b['id'], len(patch.splitlines()))
