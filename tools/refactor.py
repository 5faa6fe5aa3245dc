#!/usr/bin/env python3
"""Runs every check on behaviour-preserving edits (tools/refactor/*.diff) in scratch copies; all must stay quiet: refactor.py [name...]"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.path.join(V, 'tools', 'refactor')
names = sys.argv[1:] or sorted(x[:-5] for x in os.listdir(R) if x.endswith('.diff'))
only = os.environ.get('ONLY')
checks = sorted('C' + x[1:-3] for x in os.listdir(os.path.join(V, 'checks')) if x.startswith('c') and x[1:-3].isdigit())
if only:
    checks = only.split(',')
out = '/tmp/refactor-out'
os.makedirs(out, exist_ok=True)


def one(i):
    d = '/tmp/rf-%s' % i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'apply', os.path.join(R, i + '.diff')], check=True)
    os.makedirs(d + '/verif')
    for x in ('driver', 'lib', 'checks', 'check.py', 'known-findings.txt'):
        (shutil.copytree if os.path.isdir(os.path.join(V, x)) else shutil.copy)(os.path.join(V, x), d + '/verif/' + x)
    env = dict(os.environ, VERIF_REPO=d + '/repo')
    env.pop('VERIF_DUMP', None)
    subprocess.run(['python3', 'driver/extract.py'], cwd=d + '/verif', env=env, stdout=subprocess.DEVNULL)
    env['VERIF_DUMP'] = d + '/verif/.work/dump.json'
    bad, und = [], []
    for c in checks:
        r = subprocess.run(['python3', 'check.py', c], cwd=d + '/verif', env=env, capture_output=True, text=True)
        open('%s/%s.%s' % (out, i, c), 'w').write(r.stdout + r.stderr)
        if r.returncode:
            bad.append(c)
        if 'UNDECIDED' in r.stdout:
            und.append(c)
    shutil.rmtree(d, ignore_errors=True)
    return i, bad, und


with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
    for i, bad, und in ex.map(one, names):
        print('%-24s %s%s' % (i, 'ALARM ' + ' '.join(bad) if bad else 'quiet', '  undecided ' + ' '.join(und) if und else ''), flush=True)
