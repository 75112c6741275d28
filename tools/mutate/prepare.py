#!/usr/bin/env python3
# usage: prepare.py OUT HARNESS CRATE_SRC_DIR[,..] : builds HARNESS of /verif
# against a copy of /repo whose crates carry all their mutants.
import sys,os,subprocess,json,shutil,re
out,har,dirs=sys.argv[1],sys.argv[2],sys.argv[3].split(',')
tool='/tmp/mut/tool/release/mutate'
os.makedirs(out,exist_ok=True)
R,V=out+'/repo',out+'/verif'
if not os.path.exists(R):
    subprocess.run(f"mkdir -p {R} {V}; cd /repo && git archive HEAD | tar x -C {R}; cd /verif && git archive HEAD | tar x -C {V}; cp -r /verif/simkit/src {V}/simkit/; cp -r /verif/{har}/src {V}/{har}/",shell=True,check=True)
    for root,_,fs in os.walk(V):
        for f in fs:
            if f.endswith('.toml') or f.endswith('.rs'):
                p=os.path.join(root,f); s=open(p).read()
                t=re.sub(r'"/repo/','"'+R+'/',s)
                if t!=s: open(p,'w').write(t)
dropf=out+'/dropped.txt'; open(dropf,'a').close()
files=[]
for d in dirs:
    for root,_,fs in os.walk('/repo/'+d):
        for f in sorted(fs):
            p=os.path.join(root,f)
            if f.endswith('.rs') and 'test' not in f and '/tests' not in p and 'fixtures' not in p and 'mock' not in f and 'bench' not in p: files.append(p)
files.sort()
def gen():
    n=0; muts=[]
    for p in files:
        r=subprocess.run([tool,p,str(n),dropf],capture_output=True,text=True)
        if r.returncode: print('skip',p,r.stderr[-200:]); continue
        ls=[l.split('\t') for l in r.stderr.splitlines() if l]
        muts+=ls
        # ids advance past dropped ones as well
        n+= 0
        ids=[int(l[0]) for l in ls]
        n=max([n]+[i+1 for i in ids])+200 if ids else n
        q=p.replace('/repo/',R+'/',1)
        t=r.stdout
        if p.endswith('/lib.rs'):
            # after inner attributes and docs
            lines=t.split('\n'); k=0
            while k<len(lines) and (lines[k].startswith('//!') or lines[k].startswith('#![') or lines[k].strip()==''): k+=1
            lines.insert(k,'#[allow(warnings)] #[doc(hidden)] pub mod __mu;'); t='\n'.join(lines)
            shutil.copy('/verif/tools/mutate/__mu.rs',os.path.dirname(q)+'/__mu.rs')
            t=re.sub(r'#!\[(deny|forbid)\([^\]]*\)\]','',t)
        if not os.path.exists(q) or open(q).read()!=t: open(q,'w').write(t)
    return muts
while True:
    muts=gen()
    byid={int(m[0]):m for m in muts}
    r=subprocess.run(['cargo','build','--release','--offline','--message-format=json']+os.environ.get('CARGO_EXTRA','').split(),cwd=f'{V}/{har}',capture_output=True,text=True,env=dict(os.environ,RUSTFLAGS='-C link-args=-rdynamic --cap-lints allow'))
    bad=set(); errs=[]
    for l in r.stdout.splitlines():
        try: d=json.loads(l)
        except: continue
        m=d.get('message')
        if not m or m.get('level')!='error': continue
        errs.append(m.get('rendered','')[:600])
        for s in m.get('spans',[]):
            for t in s.get('text',[]):
                a,b=t['highlight_start']-1,t['highlight_end']-1
                hit=[int(x) for x in re.findall(r'__mu::\w+\((\d+)',t['text'])]
                # only those near the highlight if it names any
                h2=[int(x) for x in re.findall(r'__mu::\w+\((\d+)',t['text'][a:b])]
                bad.update(h2 or hit)
            if not s.get('text'): pass
    if r.returncode==0: break
    bad&=set(byid)
    print('build failed:',len(errs),'errors, dropping',len(bad),flush=True)
    if not bad:
        names={s['file_name'] for l in r.stdout.splitlines() if '"level":"error"' in l for s in json.loads(l)['message']['spans']}
        bad={i for i,m in byid.items() if m[4]=='none' and any(m[1].endswith(n.split('/repo/')[-1]) for n in names)}
        print('dropping none-mutants of',names,len(bad))
    if not bad:
        print(r.stderr[-3000:]); print('\n'.join(errs[:5])); sys.exit(1)
    with open(dropf,'a') as f:
        for i in bad: f.write(f"{byid[i][1]}\t{byid[i][2]}\t{byid[i][3]}\t{byid[i][4]}\n")
json.dump(muts,open(out+'/mutants.json','w'))
print(len(muts),'mutants in',len(files),'files')
