#!/usr/bin/env python3
"""plant.py ID PROPERTY NEEDS BREAKS DEMO.rs EDITS.py : records a planted bug after confirming it in a scratch copy.
EDITS.py is evaluated as a list of (file, old, new)."""
import sys, os, subprocess, json, shutil
ID, PROP, NEEDS, BREAKS, DEMO, EDITS = sys.argv[1:7]
SC = '/tmp/sc'
env = dict(os.environ)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if not os.path.isdir(SC): sh('cp -a /repo %s' % SC)
sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD' % (SC, SC, SC))
D = '/verif/seeded/' + ID
os.makedirs(D, exist_ok=True)
if os.path.abspath(DEMO) != D + '/demo.rs': shutil.copy(DEMO, D + '/demo.rs')
shutil.copy('/verif/tools/dev/demo.sh', D + '/demo.sh')
def demo(): 
    r = sh('bash %s/demo.sh' % D, cwd=SC); return r.returncode, r.stdout.decode()[-700:]
def fail(m):
    print('REFUSED', ID, m); shutil.move(D, '/tmp/refused_' + ID) if not os.path.exists('/tmp/refused_' + ID) else sh('cp -r %s/. /tmp/refused_%s/ && rm -rf %s' % (D, ID, D)); sh('git -C %s checkout -q -- .' % SC); sys.exit(1)
rc, o = demo()
if rc != 0: fail('demo fails on the unchanged tree: %s %s' % (rc, o))
for f, a, b in eval(open(EDITS).read()):
    p = SC + '/' + f; t = open(p).read()
    if t.count(a) != 1: fail('edit matches %d times in %s: %s' % (t.count(a), f, a[:60]))
    open(p, 'w').write(t.replace(a, b))
open(D + '/patch.diff', 'wb').write(sh('git -C %s diff' % SC).stdout)
rc, o = demo()
if rc == 0 or rc == 9: fail('demo does not fail with the change: %s %s' % (rc, o))
print('demo with the change: rc', rc, o[-300:])
r = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8' % SC, cwd=SC)
t = r.stdout.decode()
if r.returncode != 0: fail('tests fail:\n' + '\n'.join(l for l in t.splitlines() if 'FAILED' in l or 'panicked' in l or l.startswith('error'))[:1500])
json.dump({'property': PROP, 'needs': NEEDS, 'what_it_breaks': BREAKS}, open(D + '/meta.json', 'w'), indent=1)
sh('git -C %s checkout -q -- .' % SC)
print('KEPT', ID)
