import warnings
import json, os, subprocess, sys, shutil, textwrap
SEEDS = {}
def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = (prop, edits, textwrap.dedent(demo), needs, breaks)
exec(open('/tmp/seedwork/defs.py').read())
HEAD = '''import os, sys, tempfile, shutil
import numpy as np
sys.path.insert(0, os.getcwd())
import logging; logging.disable(logging.CRITICAL)
import bm25s
def close(a, b): return np.allclose(a, b, rtol=1e-4, atol=1e-5)
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu HF_HUB_OFFLINE=1 TQDM_DISABLE=1
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export NUMBA_CACHE_DIR=$T/numba DEMO_TMP=$T
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
$PY "$D/demo.py"
'''
only = sys.argv[1:]
for sid, (prop, edits, demo, needs, breaks) in SEEDS.items():
    if only and sid not in only: continue
    out = f'/verif/seeded/{sid}'
    wt = '/tmp/seedwork/wt'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    ok = True
    for f, old, new in edits:
        p = f'{wt}/{f}'; s = open(p).read()
        if s.count(old) != 1:
            print(sid, 'BAD EDIT', s.count(old), repr(old)); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
    os.makedirs(out, exist_ok=True)
    open(f'{out}/patch.diff', 'w').write(diff)
    open(f'{out}/demo.py', 'w').write(HEAD + demo)
    open(f'{out}/demo.sh', 'w').write(SH); os.chmod(f'{out}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{out}/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', f'{out}/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', f'{out}/demo.sh'], cwd=wt, capture_output=True, text=True)
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'tests/core', 'tests/numba', 'tests/stopwords', '--continue-on-collection-errors', '-p', 'no:cacheprovider', '-rf', '--timeout=300', '--junitxml=/tmp/seedwork/j.xml', '-o', 'junit_family=xunit2'], cwd=wt, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu'))
    import xml.etree.ElementTree as ET
    passed = {c.get('classname')+'::'+c.get('name') for c in ET.parse('/tmp/seedwork/j.xml').iter('testcase') if not list(c.iter('failure')) and not list(c.iter('error')) and not list(c.iter('skipped'))}
    missing = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in passed]
    print(sid, 'STABLE BROKEN ' + str(missing) if missing else '', 'clean', a.returncode, 'patched', b.returncode, 'tests', t.stdout.strip().splitlines()[-1:])
    if a.returncode: print(a.stdout[-500:], a.stderr[-1500:])
    if not b.returncode: print('   !!! demo passes with patch')
    shutil.rmtree(wt, ignore_errors=True)
