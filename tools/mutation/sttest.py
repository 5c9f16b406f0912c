import subprocess,json,os
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(ov,mod,pkgs,env,cpus):
    """True if all stable tests pass"""
    try: r=subprocess.run(['taskset','-c',cpus,'timeout','60','go','test','-json','-vet=off','-count=1','-overlay',ov,'-modfile',mod]+pkgs,cwd='/repo',env=env,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=90,errors='replace')
    except subprocess.TimeoutExpired: return False
    ok=set()
    for l in r.stdout.split('\n'):
        try: d=json.loads(l)
        except Exception: continue
        if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
    return stable<=ok
