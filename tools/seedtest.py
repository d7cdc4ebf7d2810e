#!/usr/bin/env python3
"""seedtest.py [--check] [--tier T] id...: confirms a planted bug in a scratch copy of /repo:
applies, builds, passes the stable tests, the demo passes without and fails with it;
with --check, also runs the property's check against the patched copy."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=e)
    return p.returncode, p.stdout


def scripts(copy, to):
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read()
        t = re.sub(r'(?<![\w/])/repo\b', copy, t).replace('/opt/vp/build.sh', to + '/build.sh')
        open(to + '/' + n, 'w').write(t)


def one(sid, check, tier):
    d = V + '/seeded/' + sid
    meta = json.load(open(d + '/meta.json'))
    copy, aux = '/tmp/st-%s' % sid, '/tmp/st-%s-aux' % sid
    for x in (copy, aux):
        shutil.rmtree(x, ignore_errors=True)
    os.makedirs(aux)
    shutil.copytree('/repo', copy, symlinks=True, ignore=shutil.ignore_patterns('_build'))
    res = {}
    demo = aux + '/demo'
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    scripts(copy, aux)
    rc, out = sh('bash %s/build.sh' % aux)
    if rc: print(out[-1500:])
    rc, out = sh('bash %s/demo.sh' % demo, cwd=copy, timeout=300)
    res['demo_clean'] = rc
    if rc: print(out[-1500:])
    rc, out = sh('git apply %s/patch.diff' % d, cwd=copy)
    if rc:
        print(sid, 'patch does not apply', out); return
    rc, out = sh('bash %s/test.sh %s/out.json' % (aux, aux))
    o = json.load(open(aux + '/out.json'))
    res['tests'] = 'pass' if STABLE <= set(o['passed']) else 'FAIL %s' % sorted(STABLE - set(o['passed']))
    if res['tests'] != 'pass': print(out[-1500:])
    rc, out = sh('bash %s/demo.sh' % demo, cwd=copy, timeout=300)
    res['demo_bug'] = rc
    res['demo_says'] = out.strip().splitlines()[-1:]
    if check:
        shutil.rmtree(copy + '/_build', ignore_errors=True)
        rc, out = sh('python3 %s/check.py %s %s' % (V, meta['property'], tier), timeout=1000,
                     env={'VERIF_REPO': copy, 'VERIF_BUILD': aux + '/vb', 'VERIF_EVIDENCE': aux + '/ev', 'VERIF_SEED': '1', 'VERIF_TIER': tier})
        res['check'] = rc
        res['viol'] = [l[:200] for l in out.splitlines() if 'VIOLATION' in l or re.match(r'(replay|trace|sys|\w+)/', l)][:3]
        if rc not in (0, 1): print(out[-2000:])
        res['time'] = out.strip().splitlines()[-1][-40:]
    good = res['demo_clean'] == 0 and res['tests'] == 'pass' and res['demo_bug'] != 0 and (not check or res['check'] == 1)
    print('OK ' if good else 'BAD', sid, meta['property'], json.dumps(res), flush=True)
    for x in (copy, aux):
        shutil.rmtree(x, ignore_errors=True)


a = sys.argv[1:]
check = '--check' in a
tier = 'quick'
if '--tier' in a:
    tier = a[a.index('--tier') + 1]; a.remove('--tier'); a.remove(tier)
ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(V + '/seeded'))
for s in ids:
    one(s, check, tier)
