#!/usr/bin/env python3
'''seed.py save ID PROP DEMO.py NEEDS BREAKS   keep /repo's uncommitted change as a planted bug
   seed.py test ID...                         confirm it: demo passes without, fails with; builds; stable tests pass
   seed.py check ID...                        which of the checks catch it (its own property's, or all with -a)
   seed.py sync                               refresh the harness copies beside the demos'''
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def harness(d):
    h = os.path.join(d, 'h')
    shutil.rmtree(h, ignore_errors=True)
    shutil.copytree(os.path.join(V, 'harness'), h, ignore=shutil.ignore_patterns('__pycache__', '*.class', '*.pyc', 'drivers.txt'))
    shutil.copy(os.path.join(V, 'tools', 'demolib.py'), h)
DEMO = '''#!/bin/bash
# exit 0: the property holds; 1: it is broken.  Run with cwd at the repository.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
VERIF_REPO=$PWD VERIF_SCRATCH=$S bash "$D/h/jy.sh" "$D/demo.py"
rc=$?
rm -rf "$S"
exit $rc
'''
def clean():
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
def main():
    cmd = sys.argv[1]
    if cmd == 'save':
        sid, prop, demo, needs, breaks = sys.argv[2:7]
        d = os.path.join(V, 'seeded', sid)
        os.makedirs(d, exist_ok=True)
        diff = sh('git -C /repo diff').stdout
        assert diff.strip()
        open(d + '/patch.diff', 'w').write(diff)
        if os.path.abspath(demo) != d + '/demo.py':
            shutil.copy(demo, d + '/demo.py')
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        harness(d)
        sh('git -C /repo checkout -- .')
    elif cmd == 'sync':
        for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
            harness(os.path.join(V, 'seeded', s))
    elif cmd in ('test', 'check'):
        ids = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(V, 'seeded')))
        for s in ids:
            d = os.path.join(V, 'seeded', s)
            prop = json.load(open(d + '/meta.json'))['property']
            T = tempfile.mkdtemp(prefix='seed-')
            C = T + '/repo'
            try:
                sh('cp -a %s %s; git -C %s checkout -q -- .' % (R, C, C))
                # a private view in which the copy is /repo
                box = 'unshare -Urm bash -c "mount --bind %s /repo && mkdir -p %s/rep && mount --bind %s/rep /opt/vp/reports && cd /repo && %%s"' % (C, T, T)
                if cmd == 'test':
                    p = sh(box % ('bash %s/demo.sh' % d)); print(s, 'demo clean rc', p.returncode, p.stdout[-1500:] if p.returncode else '')
                p = sh('git -C %s apply %s/patch.diff' % (C, d)); assert p.returncode == 0, p.stdout
                if cmd == 'test':
                    p = sh(box % ('bash %s/demo.sh' % d)); print(s, 'demo bug   rc', p.returncode, p.stdout[-300:])
                    p = sh(box % 'bash /opt/vp/build.sh'); print(s, 'build rc', p.returncode, p.stdout[-500:] if p.returncode else '')
                    sh(box % ('bash /opt/vp/test.sh %s/out.json' % T))
                    o = json.load(open(T + '/out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
                    st = stable(b); ok = set(o.get('passed', []))
                    print(s, 'stable tests missing:', sorted(st - ok)[:5])
                if cmd == 'check' or '-c' in sys.argv:
                    t = time.time()
                    p = sh('VERIF_REPO=%s VERIF_TIER=quick VERIF_OUT=%s python3 bin/check.py %s' % (C, T, prop), cwd=V)
                    v = [l for l in p.stdout.splitlines() if 'VIOLATION' in l or 'disagreement' in l or 'MACHINERY' in l]
                    print(s, prop, 'CAUGHT' if p.returncode == 1 else 'MISSED rc %s' % p.returncode, '%.0fs' % (time.time() - t), v[:4])
                    if p.returncode not in (0, 1): print(p.stdout[-1500:])
            finally:
                shutil.rmtree(T, ignore_errors=True)
            sys.stdout.flush()
def stable(b):
    for k in ('stable', 'passed', 'tests', 'stable_tests', 'stable_pass'):
        if k in b:
            return set(b[k])
    raise SystemExit(list(b))
main()
