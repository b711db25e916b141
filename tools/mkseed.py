#!/usr/bin/env python3
"""mkseed.py SPECFILE...: each spec is a python file defining id, prop, pkg, needs, breaks, edits=[(file, old, new)], demo (Go test source).
Creates /verif/seeded/<id>, validates it against /repo (demo clean 0, tests pass, demo patched !=0) and runs the check."""
import sys, os, subprocess, json, shutil
V='/verif'; SRC='/repo'; R=f'/tmp/seedrepo{__import__("os").getpid()}'  # a scratch clone of /repo's HEAD
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['tests'] if 'tests' in json.load(open('/opt/vp/BASELINE.json')) else json.load(open('/opt/vp/BASELINE.json')))
def main(f, nocheck):
    s={}; exec(open(f).read(), s)
    sh(f'rm -rf {R} {R}.t; git clone -q {SRC} {R}')
    d=f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    open(d+'/demo.sh','w').write(open(V+'/tools/demo_template.sh').read().replace('@PKG@', s['pkg'])); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(s['demo'])
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(d+'/meta.json','w'), indent=1)
    r=sh(f'bash {d}/demo.sh', cwd=R)
    if r.returncode: print(s['id'],'DEMO FAILS CLEAN', r.stdout[-1500:], r.stderr[-1500:]); return
    try:
        for fn,a,b in s['edits']:
            p=f'{R}/{fn}'; t=open(p).read()
            assert t.count(a)==1, (fn,a,t.count(a))
            open(p,'w').write(t.replace(a,b))
        open(d+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
        r=sh('. /opt/vp/env.sh; go build ./...', cwd=R)
        if r.returncode: print(s['id'],'BUILD FAIL', r.stdout[-800:], r.stderr[-800:]); return
        r=sh(f'. /opt/vp/env.sh; mkdir -p {R}.t; go test -json -vet=off -count=1 -timeout 10m -skip "^(TestLoadOctaveBin|ExampleLoadMnist|ExampleBaseMultilayerPerceptron32_Fit_mnist|ExampleMLPClassifier_Fit_mnist|ExampleMLPClassifier_Predict_mnist)$" ./... > {R}.t/main.json; python3 /opt/vp/results.py {R}.t/out.json "gojson:{R}.t/main.json"', cwd=R)
        t=json.load(open(f'{R}.t/out.json'))
        bl=json.load(open('/opt/vp/BASELINE.json'))
        st=set(bl['stable'] if 'stable' in bl else bl.get('passed',bl.get('tests',[])))
        failed=set(x for x in st if x not in set(t.get('passed',[])))
        if failed: print(s['id'],'TESTS FAIL', list(failed)[:5]); return
        r=sh(f'bash {d}/demo.sh', cwd=R)
        if r.returncode==0: print(s['id'],'DEMO PASSES WITH PATCH'); return
        if nocheck: print(s['id'],'valid'); return
        r=sh(f"./check.sh {s['prop']} quick -repo {R}", cwd=V)
        ok=r.returncode==1 and 'VIOLATION property='+s['prop'] in r.stdout
        rf=V+'/tools/seed_results.json'; res=json.load(open(rf)) if os.path.exists(rf) else {}
        res[s['id']]='caught' if ok else 'missed'; json.dump(res,open(rf,'w'),indent=1,sort_keys=True)
        print(s['id'], s['prop'], 'rc', r.returncode, 'CAUGHT' if r.returncode==1 and 'VIOLATION property='+s['prop'] in r.stdout else 'MISSED', [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:3])
    finally:
        sh(f'rm -rf {R} {R}.t')
nocheck='-n' in sys.argv
for f in sys.argv[1:]:
    if f!='-n': main(f, nocheck)
