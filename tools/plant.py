#!/usr/bin/env python3
"""plant.py new <id> <edits.py>   : make seeded/<id> from edits (dict EDITS: file -> [(old,new)], DEMO text, META)
plant.py try <id>... [--notest]   : build, test, demo and check a planted bug in a scratch copy (/tmp/plant)"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('PLANT', '/tmp/plant')

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def scratch():
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if not os.path.isdir(W):
        r = sh('git clone -q /repo %s && cp -a /repo/asio/. %s/asio/ 2>/dev/null' % (W, W))
        for s in ('build', 'test'):
            t = open('/opt/vp/%s.sh' % s).read().replace('/repo', W).replace('/opt/vp/build.sh', W + '.build.sh')
            open('%s.%s.sh' % (W, s), 'w').write(t)
    sh('git -C %s fetch -q && git -C %s checkout -q -f %s && git -C %s clean -qfd' % (W, W, head, W))

def apply(id):
    scratch()
    r = sh('git -C %s apply %s/seeded/%s/patch.diff' % (W, V, id))
    if r.returncode:
        print('PATCH FAILS', r.stdout); return False
    return True

def new(id, path):
    ns = {}
    exec(open(path).read(), ns)
    scratch()
    for f, subs in ns['EDITS'].items():
        p = os.path.join(W, f)
        t = open(p).read()
        for o, n in subs:
            assert t.count(o) == 1, (f, t.count(o), o)
            t = t.replace(o, n)
        open(p, 'w').write(t)
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % W).stdout)
    open(d + '/demo.cxx', 'w').write(ns['DEMO'].lstrip())
    shutil.copy(V + '/tools/demo/demo.sh', d); os.chmod(d + '/demo.sh', 0o755)
    if 'DEMOSH' in ns:
        open(d + '/demo.sh', 'w').write(ns['DEMOSH'].lstrip())
    if '"rig.hxx"' in ns['DEMO']:
        shutil.copy(V + '/tools/demo/rig.hxx', d)
    json.dump(ns['META'], open(d + '/meta.json', 'w'), indent=1)
    sh('git -C %s checkout -q -f' % W)

def tryone(id, test=True):
    d = V + '/seeded/' + id
    meta = json.load(open(d + '/meta.json'))
    res = {}
    r = sh('cd /repo && bash %s/demo.sh' % d); res['demo_clean'] = r.returncode
    if r.returncode: print(r.stdout[-1500:])
    if not apply(id): return
    r = sh('bash %s.build.sh' % W); res['build'] = r.returncode
    if r.returncode: print(r.stdout[-3000:]); return
    r = sh('cd %s && bash %s/demo.sh' % (W, d)); res['demo_bug'] = r.returncode
    if r.returncode in (0, 98): print(r.stdout[-1500:])
    res['demo_msg'] = r.stdout.strip().split('\n')[-1][:100]
    if test:
        sh('bash %s.test.sh /tmp/plant.out.json' % W)
        o = json.load(open('/tmp/plant.out.json')); res['failed_tests'] = o['failed']; res['passed'] = len(o['passed'])
    r = sh('cd %s && VERIF_REPO=%s python3 check.py %s' % (V, W, meta['property'])); res['check'] = r.returncode
    print(id, res)
    for l in r.stdout.strip().split('\n')[:6]: print('     ', l[:300])
    sh('git -C %s checkout -q -f' % W)

if __name__ == '__main__':
    if sys.argv[1] == 'new': new(sys.argv[2], sys.argv[3])
    else:
        for a in sys.argv[2:]:
            if not a.startswith('-'): tryone(a, '--notest' not in sys.argv)
