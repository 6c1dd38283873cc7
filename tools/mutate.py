#!/usr/bin/env python3
"""mutate.py WORK SEED COUNT [FILE...] : random source mutations of lib/ and include/, each judged by the drivers of the
properties anchored in the mutated file.  Runs in the private copies WORK/repo and WORK/verif (made on first use from
/repo and /verif); prints one line per mutant, survivors with their change.  A development aid: no check uses it."""
import sys, os, re, random, subprocess, json, time
W, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); only = sys.argv[4:]
SRC = os.environ.get('MUT_SRC', '/verif'); RP = os.environ.get('MUT_REPO', '/repo')
if not os.path.isdir(W):
    os.makedirs(W); subprocess.check_call(['git', 'clone', '-q', RP, W + '/repo']); subprocess.check_call(['cp', '-a', SRC, W + '/verif'])
R, V = W + '/repo', W + '/verif'; env = dict(os.environ, GYOTO_REPO=R, GYOTO_VERIF_SCRATCH=W + '/scr'); os.makedirs(W + '/scr', exist_ok=True)
checks = json.load(open(V + '/harness/checks.json')); props = [json.loads(l) for l in open(V + '/properties.jsonl')]
own = {}
for p in props:
    for f in re.findall(r'(?:lib|include)/Gyoto?\w+\.(?:C|h)|lib/\w+\.C', json.dumps(p)): own.setdefault(f, []).append(p['id'])
SLOW = {'C01', 'X01', 'X02'}
rng = random.Random(seed)
def sites(f):
    out = []; L = open(R + '/' + f).read().split('\n'); depth = 0; com = False; indebug = False
    for i, l in enumerate(L):
        s = l.split('//')[0]
        if '/*' in s: com = True
        if com:
            if '*/' in s: com = False
            continue
        if re.match(r'\s*#\s*if.*DEBUG', l) or 'GYOTO_IF_DEBUG' in l: indebug = True
        if indebug:
            if re.match(r'\s*#\s*endif', l) or 'GYOTO_ENDIF_DEBUG' in l: indebug = False
            continue
        if re.search(r'GYOTO_|#|cout|cerr|throw|Error|delete|ss *<<|assert|"', s): continue
        if len(s) > 0 and s[0] not in ' \t': continue
        if re.search(r'\bfor\b|\bwhile\b|\breturn;|\bdefault\b|new ', s): continue
        if len(s.strip()) < 6: continue
        out.append(i)
    return L, out
OPS = [(r'(?<=[\w\)\]]) ?\+ ?(?=[\w\(])', '-'), (r'(?<=[\w\)\]]) ?- ?(?=[\w\(])', '+'), (r'(?<=[\w\)\]])\*(?=[\w\(])', '/'), (r'(?<=[\w\)\]])/(?=[\w\(])', '*'),
       (r'\bsin\(', 'cos('), (r'\bcos\(', 'sin('), (r'\b2\.', '3.'), (r'\b0\.5\b', '1.'), (r'\b3\.', '2.'), (r'\b1\.(?!\d)', '2.'), (r'\[1\]', '[2]'), (r'\[2\]', '[1]'), (r'\[3\]', '[2]'), (r'\[0\]', '[1]'),
       (r'&&', '||'), (r'\|\|', '&&'), (r' < ', ' > '), (r' > ', ' < '), (r'==', '!='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bsqrt\(', 'fabs('), (r'if \((?!!)', 'if (!'), ('DEL', '')]
def mutate():
    f = rng.choice(files); L, S = cache[f]
    if not S: return None
    i = rng.choice(S); l = L[i]; ops = []
    for pat, rep in OPS:
        if pat == 'DEL':
            if re.match(r'^\s*[\w\[\]\.\->]+\s*[\+\-\*/]?=[^=].*;\s*$', l) and not re.match(r'^\s*(double|int|size_t|bool|const|float|char)\b', l): ops.append(re.sub(r'\S.*', ';', l, 1))
        else:
            ms = list(re.finditer(pat, l.split('//')[0]))
            if ms: m = rng.choice(ms); ops.append(l[:m.start()] + (m.expand(rep)) + l[m.end():])
    ops = [o for o in ops if o != l]
    if not ops: return None
    return f, i, l, rng.choice(ops)
files = [f for f in own if os.path.exists(R + '/' + f) and f.startswith('lib/')] if not only else only
cache = {f: sites(f) for f in files}
weights = {}; n = 0
pool = [f for f in files for _ in range(1 + min(6, len(cache[f][1])//60))]; files = pool
seen = set()
while n < count:
    m = mutate()
    if not m or m[:2] + (m[3],) in seen: continue
    seen.add(m[:2] + (m[3],)); f, i, old, new = m; L = list(cache[f][0]); L[i] = new; open(R + '/' + f, 'w').write('\n'.join(L))
    t0 = time.time(); res = 'SURVIVED'; by = ''; tried = []
    for p in own.get(f, []):
        if p in SLOW or p not in checks: continue
        for d, var in checks[p]['drivers']:
            b = subprocess.run(['python3', V + '/harness/build.py', d] + (['--asan'] if var == 'asan' else []), env=env, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode: res = 'NOBUILD'; break
            tried.append(p); o = W + '/o.json'
            try: r = subprocess.run(['bash', '-c', 'ulimit -v %s; exec %s/.build/%s/%s --seed 1 --scale 1 --tier quick --out %s' % ('unlimited' if var == 'asan' else 12000000, V, var, d, o)], env=dict(env, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0'), cwd=V, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240).returncode
            except subprocess.TimeoutExpired: r = 'timeout'
            if r != 0: res = 'killed'; by = '%s(%s)' % (p, r); break
        if res != 'SURVIVED': break
    open(R + '/' + f, 'w').write('\n'.join(cache[f][0]))
    subprocess.run('cd %s/.build && find . -name "*.o" -mmin -%d -newer %s/scr -delete 2>/dev/null; true' % (V, 1, W), shell=True) if 0 else None
    if res == 'NOBUILD': continue
    n += 1
    print('%s %s:%d %s [%s] %.0fs%s' % (res, f, i + 1, by, ','.join(tried), time.time() - t0, '\n   - %s\n   + %s' % (old.strip(), new.strip()) if res == 'SURVIVED' else ''), flush=True)
