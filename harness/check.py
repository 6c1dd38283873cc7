#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] : build Gyoto and the property's
drivers from /repo's working tree, run the generated-input search, write
/verif/evidence/<PROPERTY>.json, and report.

exit 0: property held on everything explored (known findings are printed)
exit 1: a line "VIOLATION property=<id> replay=<path>"
exit 2: no answer (the tree does not build, or a driver could not run)
"""
import json, os, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

# property -> list of (driver, variant), plus whether the CLI is needed
CHECKS = json.load(open(os.path.join(HERE, 'checks.json')))


def findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                sig, text = rest.split(' ', 1)
                assert sig.startswith('sig=')
                out.append((sig[4:], text))
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scale = '1'
    only = None
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--seed': seed = int(a[i + 1]); i += 2
        elif a[i] == '--scale': scale = a[i + 1]; i += 2
        elif a[i] == '--replay': only = a[i + 1]; i += 2
        else: sys.exit('bad argument ' + a[i])
    cfg = CHECKS[pid]
    t0 = time.time()
    runs = cfg['drivers']
    dirs = {}
    try:
        for variant in sorted(set(v for _, v in runs)):
            dirs[variant] = B.build([d for d, v in runs if v == variant], variant, cfg.get('cli', False))
    except B.BuildError as e:
        print('BUILD FAILED (no answer)\n%s' % e)
        return 2
    tb = time.time() - t0
    known = findings(pid)
    rdir = os.path.join(VERIF, 'replays', pid)
    scratch = os.path.join(VERIF, '.build', 'run-%s-%d' % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    supf = os.path.join(scratch, 'suppress')
    with open(supf, 'w') as f:
        f.write(''.join(s + '\n' for s, _ in known))
    env = dict(os.environ)
    env.update(LC_ALL='C', OMP_NUM_THREADS='1', GYOTO_VERIF_SCRATCH=scratch,
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')
    if only:  # replay one file: header line "driver variant"
        L = open(only).read().split('\n')
        d, v = L[0].split()
        rf = os.path.join(scratch, 'replay'); open(rf, 'w').write('\n'.join(L[1:3]) + '\n')
        r = subprocess.run([os.path.join(dirs[v], d), '--replay', rf, '--suppress', supf], env=env, cwd=scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        return 1 if r.returncode else 0
    total = dict(evaluations=0, distinct_nontrivial=0, discarded=0)
    rules, samples, subs, fails, unstable, seen = [], [], {}, [], [], {}
    for d, v in runs:
        out = os.path.join(scratch, d + '.json')
        cmd = [os.path.join(dirs[v], d), '--seed', str(seed), '--tier', tier, '--out', out,
               '--suppress', supf, '--scale', scale]
        for attempt in (1, 2):
            log = open(os.path.join(scratch, d + '.log'), 'w')
            p = subprocess.run(cmd, env=env, cwd=scratch, stdout=log, stderr=subprocess.STDOUT)
            log.close()
            if os.path.exists(out): break
        if not os.path.exists(out):
            print('DRIVER %s DID NOT RUN (status %d)' % (d, p.returncode))
            print(open(os.path.join(scratch, d + '.log')).read()[-3000:])
            shutil.rmtree(scratch, ignore_errors=True)
            return 2
        js = json.load(open(out), strict=False)
        for n, s in js['subs'].items():
            key = n if len(runs) == 1 else d + ':' + n
            total['evaluations'] += s['evaluations']; total['distinct_nontrivial'] += s['distinct_nontrivial']
            total['discarded'] += s['discarded']
            rules.append('%s: %s' % (key, s['rule']))
            samples += ['%s: %s' % (key, t.strip()) for t in s['samples'][:2]]
            subs[key] = {k: s[k] for k in ('evaluations', 'discarded', 'distinct_nontrivial', 'labels')}
        for f in js['failures']: f['driver'] = d; f['variant'] = v; fails.append(f)
        for f in js['unstable']: f['driver'] = d; unstable.append(f)
        for s, k in js['known'].items(): seen[s] = seen.get(s, 0) + k['count']
    rc = 0
    for s, text in known:
        print('KNOWN-FINDING: property=%s %s [%s; met %d times in this run]' % (pid, text, s, seen.get(s, 0)))
    if fails:
        rc = 1
        os.makedirs(rdir, exist_ok=True)
        for n, f in enumerate(fails):
            path = os.path.join(rdir, '%s-%s-%d.replay' % (f['sub'], tier, n))
            with open(path, 'w') as o:
                o.write('%s %s\n%s\n%s\n# signature: %s\n# %s\n# case: %s\n# replay with: python3 /verif/harness/check.py %s --replay %s\n' % (
                    f['driver'], f['variant'], f['sub'], f['choices'], f['sig'],
                    f['msg'].replace('\n', ' '), f['note'].replace('\n', ' '), pid, path))
            print('  [%s] %s\n  case: %s' % (f['sig'], f['msg'][:600], f['note'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
    for f in unstable:
        print('UNSTABLE (not reported as a violation: did not reproduce 3 times out of 3): [%s] %s' % (f['sig'], f['msg'][:300]))
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get('level', 'exploration'),
              coverage=dict(evaluations=total['evaluations'], distinct_nontrivial=total['distinct_nontrivial'],
                            discarded=total['discarded'], rule=' | '.join(rules), samples=samples, subchecks=subs,
                            unstable=len(unstable), known_findings_met=seen),
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %d violation(s); build %.0fs total %.0fs' % (
        pid, tier, seed, total['evaluations'], total['distinct_nontrivial'], total['discarded'], len(fails), tb, time.time() - t0))
    shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
