#!/usr/bin/env python3
"""mkseed.py <id> : builds seeded/<id> from tools/seeds.py and confirms it (in /repo, undone afterwards).
   --notests skips the test suite, --check also runs the property's check"""
import json, subprocess, sys, shutil, os
from pathlib import Path
V = Path(__file__).resolve().parent.parent; R = Path('/repo')
sys.path.insert(0, str(V / 'tools'))
import seeds
def sh(c, t=900): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
def build(): 
    r = sh('bash /opt/vp/build.sh'); return r.returncode == 0, r.stdout[-1500:]
def tests():
    r = sh('bash /opt/vp/test.sh /tmp/seed_out.json'); o = json.load(open('/tmp/seed_out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    want = b.get('passed') or b.get('stable') or b
    return [t for t in want if t not in o['passed']]
def make(i):
    s = seeds.SEEDS[i]; d = V / 'seeded' / i; d.mkdir(parents=True, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
    for f, old, new in s['edits']:
        p = R / f; t = p.read_text(); assert t.count(old) == 1, (i, f, t.count(old)); p.write_text(t.replace(old, new))
    try:
        diff = sh('git -C /repo diff').stdout
        (d / 'patch.diff').write_text(diff)
        (d / 'meta.json').write_text(json.dumps(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), indent=1) + '\n')
        for f in s.get('files', ['dax.py']):
            shutil.copy(V / 'tools' / f, d / f)
        if 'demo_py' in s:
            (d / 'demo.py').write_text('import struct, sys\nsys.dont_write_bytecode = True\nfrom dax import *\n' + s['demo_py'].lstrip('\n'))
            (d / 'demo.sh').write_text('#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        if 'demo_c' in s:
            (d / 'demo.c').write_text(s['demo_c'].lstrip('\n'))
            (d / 'demo.sh').write_text('#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\n' + s['demo_build'] + '\n')
        os.chmod(d / 'demo.sh', 0o755)
        ok, t = build()
        if not ok: return f'{i}: does not build {t}'
        r = sh(f'cd /repo && bash {d}/demo.sh'); bad = r.returncode
        out = [f'{i}: with the patch: demo exit {bad} {r.stdout[-200:]} {r.stderr[-300:]}']
        if '--notests' not in sys.argv:
            m = tests(); out.append(f'   tests failing: {m}')
        if '--check' in sys.argv:
            c = sh(f'cd {V} && python3 run.py {s["property"]}'); out.append('   check:\n' + c.stdout[-1500:])
    finally:
        sh('git -C /repo checkout -- .'); build()
    r = sh(f'cd /repo && bash {d}/demo.sh'); out.append(f'   unchanged: demo exit {r.returncode} {r.stdout[-300:]} {r.stderr[-600:] if r.returncode else ""}')
    shutil.rmtree(d / '__pycache__', ignore_errors=True)
    return '\n'.join(out)
for i in [a for a in sys.argv[1:] if not a.startswith('-')] or seeds.SEEDS: print(make(i), flush=True)
