#!/usr/bin/env python3
"""seedval.py [--notest] [--nocheck] [-j N] ID... : validate planted bugs in private copies of /repo and /verif
(bind-mounted in their own mount namespace)."""
import sys, os, subprocess, json, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; J = 2; test = check = True; ids = []; seeds = '1'
while a:
    x = a.pop(0)
    if x == '--notest': test = False
    elif x == '--nocheck': check = False
    elif x == '-j': J = int(a.pop(0))
    elif x == '--seed': seeds = a.pop(0)
    else: ids.append(x)
if not ids: ids = sorted(os.listdir(V + '/seeded'))
def one(i):
    d = V + '/seeded/' + i; m = json.load(open(d + '/meta.json')); w = '/tmp/sv-' + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.check_call(['cp', '-a', '--reflink=auto', '/repo', w + '/repo'])
    if check: subprocess.check_call(['cp', '-a', '--reflink=auto', '/verif', w + '/verif'])
    shutil.copytree(d, w + '/seed')
    sh = 'mount --bind %s/repo /repo; ' % w + ('mount --bind %s/verif /verif; ' % w if check else '')
    sh += 'cd /repo; bash %s/seed/demo.sh > %s/demo0.log 2>&1; echo DEMO0 $?; git apply %s/seed/patch.diff || { echo NOAPPLY; exit; }; ' % (w, w, w)
    sh += 'bash /opt/vp/build.sh > %s/build.log 2>&1; echo BUILD $?; cd /repo; bash %s/seed/demo.sh > %s/demo1.log 2>&1; echo DEMO1 $?; ' % (w, w, w)
    if check: sh += 'cd /verif; VERIF_SEED=%s timeout 900 python3 harness/check.py %s > %s/check.log 2>&1; echo CHECK $?; ' % (seeds, m['property'], w)
    if test: sh += 'bash /opt/vp/test.sh %s/t.json > %s/test.log 2>&1; echo TEST $?; ' % (w, w)
    r = subprocess.run(['unshare', '-m', 'bash', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True).stdout
    out = ' '.join(r.split())
    miss = ''
    if test:
        try:
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t = set(json.load(open(w + '/t.json'))['passed']); miss = ' stable-tests-failing=%d %s' % (len(st - t), sorted(st - t)[:4])
        except Exception as e: miss = ' tests?? %s' % e
    ck = ''
    if check:
        L = open(w + '/check.log').read().split('\n'); ck = ' | ' + ' '.join(l.strip()[:160] for l in L if l.startswith('  [') or 'quick seed' in l)[:500]
    good = 'DEMO0 0' in out and 'BUILD 0' in out and 'DEMO1 0' not in out and 'DEMO1' in out and (not test or 'failing=0' in miss)
    dl = ''
    if 'DEMO0 0' not in out: dl = open(w + '/demo0.log').read()[-600:]
    shutil.rmtree(w, ignore_errors=True)
    line = '%s [%s] %s %s : %s%s%s%s' % (i, m['property'], 'VALID' if good else 'INVALID', ('CAUGHT' if 'CHECK 1' in out else 'MISSED') if check else '', out, miss, ck, dl)
    print(line, flush=True)
with ThreadPoolExecutor(J) as ex: list(ex.map(one, ids))
