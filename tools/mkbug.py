#!/usr/bin/env python3
"""mkbug.py SPEC.py...: make /verif/seeded/<id>/ from specs (ID, PROP, EDITS, DEMO, NEEDS, BREAKS) and confirm."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SEED = '/verif/seeded'


def make(s):
    d = os.path.join(SEED, s['ID'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkbug.')
    for k in ('a', 'b'):
        shutil.copytree('/repo/badidatetime', os.path.join(t, k, 'badidatetime'),
                        ignore=shutil.ignore_patterns('__pycache__', 'tests'))
    for f, old, new in s['EDITS']:
        p = os.path.join(t, 'b', 'badidatetime', f)
        src = open(p, encoding='utf-8').read()
        if src.count(old) != 1:       # whitespace-insensitive match
            ms = list(re.finditer(r'\s+'.join(map(re.escape, old.split())), src))
            if len(ms) != 1:
                return '%s: EDIT NOT FOUND (%d/%d)' % (s['ID'], src.count(old), len(ms))
            src = src[:ms[0].start()] + new.strip() + src[ms[0].end():]
        else:
            src = src.replace(old, new)
        open(p, 'w', encoding='utf-8').write(src)
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True)
    shutil.rmtree(t)
    diff = r.stdout.replace('--- a/', '--- a/').replace('diff --git a/', 'diff --git a/')
    open(os.path.join(d, 'patch.diff'), 'w', encoding='utf-8').write(diff)
    open(os.path.join(d, 'demo.py'), 'w', encoding='utf-8').write(
        'import os, sys\nsys.path.insert(0, os.getcwd())\n' + s['DEMO'].strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexport TZ=UTC PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1, ensure_ascii=False)
    r = subprocess.run(['bash', '/verif/tools/plant.sh', s['ID']], capture_output=True, text=True)
    return r.stdout.strip() + r.stderr.strip()


specs = []
for p in sys.argv[1:]:
    g = runpy.run_path(p)
    specs += g.get('BUGS') or [g]
with ThreadPoolExecutor(6) as ex:
    for o in ex.map(make, specs):
        print(o)
