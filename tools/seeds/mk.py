#!/usr/bin/env python3
"""mk.py SPEC.py [name...]: makes /verif/seeded/<name> from the specs and verifies each."""
import sys, os, subprocess, json, shutil, importlib.util, time, re
REPO='/repo'
spec=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=sys.argv[2:]
DEMO='''#!/bin/bash
# Exit 0 when the guarantee holds, not 0 when it is broken. Run in the repository's directory.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
here=$(cd "$(dirname "$0")" && pwd) && d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp go.mod go.sum "$d"/
printf '{"Replace": {"%s": "%s"}}' "$PWD/@DIR@/zz_demo_test.go" "$here/demo_test.go.txt" >"$d/overlay.json"
go test @RACE@-vet=off -count=1 -timeout 200s -overlay "$d/overlay.json" -modfile "$d/go.mod" -run '^TestDemo$' ./@DIR@
'''
JSDEMO='''#!/bin/bash
# Exit 0 when the guarantee holds, not 0 when it is broken. Run in the repository's directory.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
exec node "$here/demo.js" index.html
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def reset(): sh('git -C /repo checkout -- . && git -C /repo clean -fdq')
res={}
for s in m.SPECS:
    n=s['name']
    if only and n not in only: continue
    reset()
    d='/verif/seeded/'+n
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    ok=True
    for f,old,new in s['edits']:
        p=os.path.join(REPO,f); t=open(p).read()
        if t.count(old)!=1: print(n,'EDIT MATCHES',t.count(old),f,old[:80]); ok=False; break
        open(p,'w').write(t.replace(old,new))
    if not ok: reset(); shutil.rmtree(d); continue
    sh('cd /repo && PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root gofmt -w '+' '.join(f for f,_,_ in s['edits'])) if s.get('fmt') else None
    diff=sh('git -C /repo diff').stdout
    open(d+'/patch.diff','w').write(diff)
    # removed lines must be original
    removed=0
    for f in {e[0] for e in s['edits']}:
        bl=sh(f'git -C /repo blame -s HEAD -- {f}').stdout.split('\n')
        cur=None
        for line in sh(f'git -C /repo diff -U0 -- {f}').stdout.split('\n'):
            h=re.match(r'@@ -(\d+)(?:,(\d+))? ',line)
            if h:
                a=int(h[1]); k=int(h[2]) if h[2] is not None else 1
                for i in range(a,a+k):
                    removed+=1
                    if 'eb13cf6' not in bl[i-1][:10]: print(n,'NOT ORIGINAL',bl[i-1][:120])
    if removed==0: print(n,'NO ORIGINAL LINE CHANGED')
    pkg=s.get('pkg','main'); dirn={'main':'.'}.get(pkg, 'exp' if pkg=='exp' else 'internal/'+pkg)
    demo=DEMO.replace('@DIR@',dirn).replace('@RACE@','-race ' if s.get('race') else '')
    if 'js' in s:
        demo=JSDEMO
        open(d+'/demo.js','w').write(s['js'].lstrip('\n'))
    else:
        open(d+'/demo_test.go.txt','w').write(s['demo'].lstrip('\n'))
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    b=sh('bash /opt/vp/build.sh')
    if b.returncode: print(n,'BUILD',b.stderr[:500]); reset(); continue
    sh('bash /opt/vp/test.sh /tmp/seeds/out.json')
    o=json.load(open('/tmp/seeds/out.json'))
    passed=set(o['passed'])
    missing=stable-passed
    if missing: print(n,'TESTS FAIL',sorted(missing)[:3])
    r1=sh('bash '+d+'/demo.sh',cwd=REPO)
    if r1.returncode==0: print(n,'DEMO DOES NOT FAIL')
    elif 'build failed' in r1.stdout+r1.stderr or 'setup failed' in r1.stdout+r1.stderr: print(n,'DEMO BUILD',(r1.stdout+r1.stderr)[:800])
    c=sh(f"/verif/check.sh {s['prop']} quick")
    line=[l for l in c.stdout.split('\n') if 'VIOLATION' in l or l.startswith(s['prop'])]
    others=[]
    for q in s.get('also',[]):
        e=sh(f"/verif/check.sh {q} quick"); others.append(f'{q}:{e.returncode}')
    reset()
    r0=sh('bash '+d+'/demo.sh',cwd=REPO)
    if r0.returncode!=0: print(n,'DEMO FAILS UNCHANGED',(r0.stdout+r0.stderr)[-800:])
    print(n,s['prop'],'CAUGHT' if c.returncode==1 else f'MISSED rc={c.returncode} {c.stderr[-300:]}',(line[0][:160] if line else ''),others,flush=True)
reset()
