#!/usr/bin/env python3
"""run.py NAME REPOFILE frac seed [props...]: mutation campaign; appends to /tmp/mut/res/NAME.jsonl"""
import sys,os,subprocess,json,random,shutil,glob,re
from concurrent.futures import ThreadPoolExecutor
import threading
name,rf,frac,seed=sys.argv[1],sys.argv[2],float(sys.argv[3]),int(sys.argv[4]); props=sys.argv[5:]
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOCACHE='/root/.cache/go-build',GOMODCACHE='/root/go/pkg/mod',VERIF_SEED='1')
ids=sorted(os.path.basename(p)[:-3] for p in glob.glob(f'/tmp/mut/m/{name}/*.go'))
random.seed(seed); ids=sorted(random.sample(ids,int(len(ids)*frac)))
os.makedirs('/tmp/mut/res',exist_ok=True)
out=f'/tmp/mut/res/{name}.jsonl'
done={json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
lock=threading.Lock()
Q={}
for f in glob.glob('/verif/harness/c_*.go'):
    for a,b in re.findall(r'id: "(C\d\d)", quick: (\d+)',open(f).read()): Q[a]=int(b)
def sh(cmd,t,**k):
    try:
        r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,env=k.pop('env',env),errors='replace',start_new_session=True,**k); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: 
        return 124,'timeout'
def one(i_slot):
    k,i=i_slot
    if i in done: return
    cpus=f'{(k%4)*2},{(k%4)*2+1}'
    w=f'/tmp/mut/w/{name}-{i}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    desc=open(f'/tmp/mut/m/{name}/{i}.txt').read().strip()
    r={'id':i,'desc':desc}
    ov=w+'/ov.json'; json.dump({'Replace':{'/repo/'+rf:f'/tmp/mut/m/{name}/{i}.go'}},open(ov,'w'))
    shutil.copytree('/tmp/mut/h',w+'/h')
    rc,o=sh(['taskset','-c',cpus,'go','build','-tags','vss exp','-overlay',ov,'-o',w+'/vh','.'],300,cwd=w+'/h')
    if rc: r['res']='nobuild'
    else:
        shutil.copy('/repo/go.mod',w+'/go.mod'); shutil.copy('/repo/go.sum',w+'/go.sum')
        pkgs='./internal/...' if not rf.startswith('exp') else './exp/...'
        import sttest
        rc=0 if rf.startswith('exp') or '/' not in rf else (0 if sttest.run(ov,w+'/go.mod',['./internal/...'],env,cpus) else 1)
        if rc: r['res']='tests'
        else:
            r['res']='SURVIVED'
            v=w+'/v'; os.makedirs(v); shutil.copy('/verif/known_findings.txt',v)
            for p in props:
                e=dict(env)
                if p in('C32','C36','C37'):
                    shutil.copy('/verif/web/webdemo_verif_test.go',w+'/wt.go')
                    json.dump({'Replace':{'/repo/'+rf:f'/tmp/mut/m/{name}/{i}.go','/repo/webdemo_verif_test.go':w+'/wt.go'}},open(w+'/ov2.json','w'))
                    rc,o=sh(['go','test','-c',*(['-race'] if p=='C32' else []),'-vet=off','-overlay',w+'/ov2.json','-modfile',w+'/go.mod','-o',w+'/web.test','.'],300,cwd='/repo')
                    e['VERIF_WEBBIN']=w+'/web.test'; e['VERIF_DIR']='/verif'
                rc,o=sh(['taskset','-c',cpus,w+'/vh','-verif',v,'-seed','1']+(['-cases',str(Q[p]//10)] if Q.get(p,0)>=2000 else [])+[p],900,env=e,cwd=w)
                if rc:
                    r['res']='killed'; r['by']=p; r['rc']=rc
                    l=[x for x in o.split('\n') if p+' case' in x]; r['why']=(l or o[-200:].split('\n'))[0][:200]
                    break
    shutil.rmtree(w,ignore_errors=True)
    with lock:
        open(out,'a').write(json.dumps(r)+'\n')
import itertools,queue
q=queue.Queue()
for s in range(4): q.put(s)
def task(i):
    s=q.get()
    try: one((s,i))
    except Exception as e: print(i,e)
    finally: q.put(s)
with ThreadPoolExecutor(4) as ex: list(ex.map(task,ids))
