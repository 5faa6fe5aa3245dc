#!/usr/bin/env python3
"""new_plant.py ID PROP FILE NEEDS BREAKS < stdin: OLD text, a line '=====', NEW text, a line '#####', demo body."""
import json, os, subprocess, sys
i, prop, file, needs, breaks = sys.argv[1:6]
src = sys.stdin.read()
edits, demo = src.split('\n#####\n')
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
import shutil
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
scratch = '/tmp/plant-' + i
shutil.rmtree(scratch, ignore_errors=True)
sh('git clone -q /repo %s' % scratch)
for e in edits.split('\n@@@@@\n'):
    old, new = e.split('\n=====\n')
    old = old.strip('\n'); new = new.strip('\n')
    p = os.path.join(scratch, file)
    if old.startswith('FILE '):
        h, old = old.split('\n', 1)
        p = os.path.join(scratch, h[5:].strip())
    t = open(p).read()
    assert t.count(old) == 1, (t.count(old), old)
    open(p, 'w').write(t.replace(old, new))
diff = sh('git -C %s diff' % scratch).stdout
open(d + '/patch.diff', 'w').write(diff)
# the removed lines have to be lines of the original repository
base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
blame = {}
for f in sh('git -C %s diff --name-only' % scratch).stdout.split():
    bl = sh('git -C /repo blame -s -l --root HEAD -- ' + f).stdout.split('\n')
    n = 0
    for l in sh('git -C %s diff -U0 -- %s' % (scratch, f)).stdout.split('\n'):
        if l.startswith('@@'):
            n = int(l.split()[1][1:].split(',')[0]) - 1
        elif l.startswith('-') and not l.startswith('---'):
            if base not in bl[n]:
                print('NOTE: changes a line added by a fix: ' + l)
            n += 1
pre = open('/verif/tools/demo_prelude.rs').read()
open(d + '/main.rs', 'w').write(pre + demo.strip('\n') + '\n')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
os.chmod(d + '/demo.sh', 0o755)
ok = []
sh('git -C %s checkout -q -- .' % scratch)
r = sh(d + '/demo.sh', cwd=scratch)
ok.append(r.returncode == 0)
if r.returncode:
    print('CLEAN DEMO FAILS', r.stdout[-300:], '\n'.join(x for x in r.stderr.split('\n') if x.startswith('error') or '--> src/main.rs' in x or 'panicked' in x)[:500])
sh('git -C %s apply %s/patch.diff' % (scratch, d))
r = sh(d + '/demo.sh', cwd=scratch)
ok.append(r.returncode != 0)
print('patched demo rc', r.returncode, (r.stdout + r.stderr)[-100:].strip())
sh('cp -r /opt/vp/work/Cargo.* .; rm tests/headers.rs', cwd=scratch)
r = sh('CARGO_TARGET_DIR=%s/tgt cargo test --offline 2>&1' % scratch, cwd=scratch)
t = [l for l in r.stdout.split('\n') if 'test result' in l]
good = len(t) >= 2 and all('0 failed' in l for l in t) and '93 passed' in t[0] and '4 passed' in t[1]
ok.append(good)
if not good:
    print('TESTS FAIL', '\n'.join(l for l in r.stdout.split('\n') if l.startswith('error') or 'FAILED' in l or 'panicked' in l)[:800])
sh('git -C %s checkout -q -- . && git -C %s apply %s/patch.diff' % (scratch, scratch, d))
os.makedirs(scratch + '/verif')
for x in ('driver', 'lib', 'checks', 'check.py', 'known-findings.txt'):
    (shutil.copytree if os.path.isdir('/verif/' + x) else shutil.copy)('/verif/' + x, scratch + '/verif/' + x)
env = dict(os.environ, VERIF_REPO=scratch)
env.pop('VERIF_DUMP', None)
sh('python3 driver/extract.py', cwd=scratch + '/verif', env=env)
env['VERIF_DUMP'] = scratch + '/verif/.work/dump.json'
shutil.copy(env['VERIF_DUMP'], '/tmp/plant-%s.json' % i)
for q in prop.split(',') + os.environ.get('ALSO', '').split():
    if not os.path.exists('/verif/checks/%s.py' % q.lower()):
        print('no check', q)
        continue
    r = sh('python3 check.py ' + q, cwd=scratch + '/verif', env=env)
    print(i, q, 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, '' if all(ok) else '*** INVALID %s' % ok)
    print('\n'.join(l[:300] for l in r.stdout.split('\n')[1:9]))
shutil.rmtree(scratch, ignore_errors=True)
