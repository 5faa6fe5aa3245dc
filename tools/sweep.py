#!/usr/bin/env python3
"""Runs the check of its property and those that reported it before (ALL=1: every check) against every planted change (in scratch
copies) and records which report it: sweep.py [id...]"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'driver'))
rp = os.path.join(V, 'tools', 'seeded_results.json')
res = json.load(open(rp)) if os.path.exists(rp) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
checks = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]


def one(i):
    d = '/tmp/sweep-%s' % i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'apply', os.path.join(V, 'seeded', i, 'patch.diff')], check=True)
    os.makedirs(d + '/verif')
    for x in ('driver', 'lib', 'checks', 'check.py', 'known-findings.txt'):
        (shutil.copytree if os.path.isdir(os.path.join(V, x)) else shutil.copy)(os.path.join(V, x), d + '/verif/' + x)
    env = dict(os.environ, VERIF_REPO=d + '/repo')
    env.pop('VERIF_DUMP', None)
    subprocess.run(['python3', 'driver/extract.py'], cwd=d + '/verif', env=env, stdout=subprocess.DEVNULL)
    env['VERIF_DUMP'] = d + '/verif/.work/dump.json'
    hits = []
    own = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))['property']
    for c in checks:
        if not os.environ.get('ALL') and c != own and c not in res.get(i, ()):
            continue
        r = subprocess.run(['python3', 'check.py', c], cwd=d + '/verif', env=env, capture_output=True, text=True)
        if r.returncode:
            hits.append(c)
    shutil.rmtree(d, ignore_errors=True)
    return i, hits


with ThreadPoolExecutor(6) as ex:
    for i, hits in ex.map(one, ids):
        p = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))['property']
        print('%-28s %s %s %s' % (i, p, 'caught' if p in hits else 'MISSED', hits), flush=True)
        res[i] = hits
res = {k: v for k, v in sorted(res.items()) if os.path.isdir(os.path.join(V, 'seeded', k))}
json.dump(res, open(rp, 'w'), indent=1)
