#!/usr/bin/env python3
"""Development aid: confirm planted bugs in a scratch copy bind-mounted over /repo in a private mount namespace.
usage: seedtest.py [--nocheck] [--notest] ID...   (run as root; re-executes itself under unshare -m)"""
import os, subprocess, sys, json, shutil, time
S = '/tmp/sr'
if os.environ.get('SEEDNS') != '1':
    subprocess.run(['rsync', '-a', '--delete', '/repo/', S + '/'], check=True) if shutil.which('rsync') else subprocess.run('mkdir -p %s && cp -au /repo/. %s/' % (S, S), shell=True, check=True)
    os.environ['SEEDNS'] = '1'
    os.execvp('unshare', ['unshare', '-m', sys.executable] + sys.argv)
subprocess.run(['mount', '--bind', S, '/repo'], check=True)
args = [a for a in sys.argv[1:] if not a.startswith('--')]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
sh('git -C /repo update-index -q --refresh')
assert not sh('git -C /repo status --short').stdout.strip()
r = sh('bash /opt/vp/build.sh')
if r.returncode: print('base build failed', r.stderr[-2000:]); sys.exit(2)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in args:
    d = '/verif/seeded/' + i
    out = [i]
    tmpd = '/tmp/demo-' + i
    shutil.rmtree(tmpd, ignore_errors=True); shutil.copytree(d, tmpd)
    r = sh('cd /repo && bash %s/demo.sh' % tmpd)
    out.append('demo base %d' % r.returncode)
    if r.returncode: print(r.stdout[-800:], r.stderr[-1500:])
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stderr); continue
    r = sh('bash /opt/vp/build.sh')
    out.append('build %d' % r.returncode)
    if r.returncode: print(r.stdout[-1500:])
    if '--notest' not in sys.argv:
        sh('bash /opt/vp/test.sh /tmp/seed-out.json')
        t = json.load(open('/tmp/seed-out.json'))
        miss = (base or set()) - set(t['passed'])
        out.append('tests %d passed, missing %d %s' % (len(t['passed']), len(miss), sorted(miss)[:3]))
    r = sh('cd /repo && bash %s/demo.sh' % tmpd)
    out.append('demo patched %d' % r.returncode)
    print(r.stdout[-300:].strip())
    if '--nocheck' not in sys.argv:
        p = json.load(open(d + '/meta.json'))['property']
        t0 = time.time()
        r = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py ' + p)
        out.append('check %s exit %d %ds' % (p, r.returncode, time.time() - t0))
        print('\n'.join(l[:220] for l in r.stdout.split('\n') if l.startswith(('VIOL', 'FAILED', 'FAILING', 'C', 'OUT', 'UNDEC', 'NOTE', 'ERR')))[:1800])
    sh('git -C /repo apply -R %s/patch.diff; git -C /repo update-index -q --refresh' % d)
    shutil.rmtree(tmpd, ignore_errors=True)
    print('== ' + '; '.join(out), flush=True)
