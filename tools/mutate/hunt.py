#!/usr/bin/env python3
# usage: hunt.py OUT HARNESS PROPS RUNS JOBS [only survivors of previous hunt: file]
# Runs every mutant that a property's runs reach; prints the survivors.
import sys,os,subprocess,json,concurrent.futures as cf,time
out,har,props,runs,jobs=sys.argv[1],sys.argv[2],sys.argv[3].split(','),sys.argv[4],int(sys.argv[5])
muts={int(m[0]):m for m in json.load(open(out+'/mutants.json'))}
if len(sys.argv)>6: keep={int(l.split('\t')[1]) for l in open(sys.argv[6]) if l.strip()}; muts={i:m for i,m in muts.items() if i in keep}
exe=f'{out}/verif/target/{har}/release/{har}'
def env(**k):
    e=dict(os.environ,VERIF_ROOT=out+'/vr',VERIF_SEED='1',SIM_RUNS=runs,SIM_WORKERS='1',SIM_NOMIN='1',SIM_HANG_SECS='20',**k); e.pop('RUST_BACKTRACE',None); return e
os.makedirs(out+'/vr',exist_ok=True)
def cov(p):
    f=f'{out}/cov.{p}'
    if os.path.exists(f): os.remove(f)
    r=subprocess.run([exe,'search',p,'quick'],env=env(MUTANT_COV=f),capture_output=True,text=True)
    if r.returncode: print('coverage run',p,r.returncode,r.stdout[-300:],r.stderr[-300:])
    return p,{int(x) for x in open(f)}
t0=time.time()
with cf.ThreadPoolExecutor(jobs) as ex: reach=dict(ex.map(cov,props))
print('reached',len(set().union(*reach.values())&set(muts)),'of',len(muts),'in',int(time.time()-t0),'s',flush=True)
def run(i):
    err=''
    for p in props:
        if i not in reach[p]: continue
        try: r=subprocess.run(['timeout','-s','KILL','150',exe,'search',p,'quick'],env=env(MUTANT=str(i)),capture_output=True,text=True,errors='replace')
        except Exception as e: return i,'error '+str(e)
        if r.returncode==2 or r.returncode==3: err+=f'{p}:harness-error({r.stderr.strip()[-200:]}) '; continue
        if r.returncode!=0: return i,'killed '+p
    return i,('ERR '+err if err else ('survived' if any(i in reach[p] for p in props) else 'unreached'))
res={}
with cf.ThreadPoolExecutor(jobs) as ex:
    for n,(i,v) in enumerate(ex.map(run,sorted(muts))):
        res[i]=v
with open(out+f'/survivors.{har}','w') as f:
    for i,v in sorted(res.items()):
        if not v.startswith('killed'): f.write('\t'.join([v,str(i)]+[x.replace('/repo/crates/','') for x in muts[i][1:]])+'\n')
from collections import Counter
print(Counter(v.split(' ')[0] for v in res.values()),int(time.time()-t0),'s')
print(Counter(v for v in res.values() if v.startswith('killed')))
