#!/usr/bin/env python3
"""Confirms planted bugs: python3 tools/plant.py ID...  (for each /verif/seeded/ID: the patch applies
to /repo, builds, keeps the stable tests passing, demo.sh exits 0 before and non-zero after).
With --check, also runs the property's quick check on the patched tree (in a clone) and says if it is caught.
Works on a copy of /repo bind-free: build.sh names /repo, so patches are applied there and undone."""
import subprocess, sys, json, os, shutil, tempfile
V='/verif'; R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def demo(d):
    t=tempfile.mkdtemp(prefix='demo'); 
    for f in os.listdir(d):
        if not f.endswith('.diff') and f!='meta.json': shutil.copy(os.path.join(d,f),t)
    r=sh(f'timeout 300 bash {t}/demo.sh',cwd=R); shutil.rmtree(t); return r
args=[a for a in sys.argv[1:] if not a.startswith('--')]
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
assert not sh('git -C /repo status --porcelain').stdout.strip()
r=sh('bash /opt/vp/build.sh'); assert r.returncode==0,r.stdout[-2000:]
for i in args:
    d=f'{V}/seeded/{i}'; m=json.load(open(d+'/meta.json')); ok=[]
    b=demo(d); ok.append(b.returncode==0)
    if b.returncode: print(i,'demo fails on unchanged tree:',b.stdout[-800:])
    a=sh(f'git -C {R} apply {d}/patch.diff')
    if a.returncode: print(i,'does not apply',a.stdout); continue
    try:
        r=sh('bash /opt/vp/test.sh /tmp/plant.json')
        o=json.load(open('/tmp/plant.json')); miss=[x for x in stable if x not in set(o['passed'])]
        ok.append(not miss)
        if miss: print(i,'tests:',miss, r.stdout[-500:] if len(miss)>70 else '')
        b=demo(d); ok.append(b.returncode!=0 and b.returncode!=124)
        print(i,'demo with patch:',b.returncode,b.stdout.strip()[-200:])
        if '--check' in sys.argv:
            c=sh(f'python3 {V}/run.py {m["property"]} --tier quick --seed 1',cwd=V)
            print(i,'check',m['property'],'exit',c.returncode,[l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'cases' in l])
            ok.append(c.returncode==1)
    finally:
        sh(f'git -C {R} checkout -- .')
    print(i,'CONFIRMED' if all(ok) else 'NOT OK',ok,flush=True)
sh('bash /opt/vp/build.sh')
