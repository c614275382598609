#!/usr/bin/env python3
"""mkseed.py ID...: (re)builds seeded/<ID> from tools/seeds.py and confirms it: tests pass, demo fails with it and passes without.
--check: also runs the property's quick check on the patched tree."""
import os, sys, subprocess, json, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
from seeds import SEEDS
R = '/repo'
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf -- "$W"' EXIT
gcc -w -O1 -I include -I sljit/sljit_src %s -I . "$D/demo.c" %s -o "$W/demo" -lm -lpthread || exit 3
cd "$W"
DEMO_DIR="$D" timeout 120 ./demo
'''
def make(i):
    s = SEEDS[i]
    d = H + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C %s status --porcelain -uno' % R).stdout
    for f, old, new in s['edits']:
        t = open(R + '/' + f).read()
        k = s.get('count', 1)
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(R + '/' + f, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
    sh('git -C %s checkout -- .' % R)
    for n, w in s.get('wat', {}).items():
        open(d + '/' + n + '.wat', 'w').write(w)
        r = sh('wat2wasm --enable-all %s/%s.wat -o %s/%s.wasm' % (d, n, d, n))
        assert r.returncode == 0, r.stderr
    open(d + '/demo.c', 'w').write('#include "%s"\n' % 'h.h' + s['demo'])
    shutil.copy(H + '/tools/h.h', d + '/h.h')
    open(d + '/demo.sh', 'w').write(DEMO % (s.get('cflags', ''), s.get('srcs', 'pwart/pwart.c sljit/sljit_src/sljitLir.c -DSLJIT_CONFIG_AUTO=1')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def confirm(i, check):
    d = H + '/seeded/' + i
    s = SEEDS[i]
    a = sh('cd %s && bash %s/demo.sh' % (R, d))
    out = ['clean demo rc=%d %s' % (a.returncode, a.stderr[-200:])]
    try:
        assert sh('git -C %s apply %s/patch.diff' % (R, d)).returncode == 0
        b = sh('cd %s && bash %s/demo.sh' % (R, d))
        out.append('patched demo rc=%d %s' % (b.returncode, b.stderr[-200:]))
        if check != 'only':
            sh('bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/seed.json')
            j = json.load(open('/tmp/seed.json')); base = json.load(open('/opt/vp/BASELINE.json'))
            names = base if isinstance(base, list) else base["stable"]
            miss = [x for x in names if x not in j['passed']]
            out.append('tests missing: %d %s' % (len(miss), miss[:3]))
        if check:
            c = sh('cd %s && ./check.py %s' % (H, s['property']))
            out.append('check rc=%d %s' % (c.returncode, c.stdout[-700:]))
    finally:
        sh('git -C %s checkout -- .' % R)
    print(i, s['property'], '\n  ' + '\n  '.join(out), flush=True)
if __name__ == '__main__':
    a = sys.argv[1:]
    ck = '--check' in a and 'yes'
    if '--checkonly' in a: ck = 'only'
    ids = [x for x in a if not x.startswith('--')] or sorted(SEEDS)
    for i in ids:
        make(i); confirm(i, ck)
    sh('bash /opt/vp/build.sh')
