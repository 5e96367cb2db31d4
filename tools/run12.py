#!/usr/bin/env python3
"""P12: build the sanitizer workloads from /repo's working tree, run them, merge what they observed."""
import json, os, subprocess, sys, time, re, shutil
from concurrent.futures import ThreadPoolExecutor
D=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1'))
TGT='x86_64-unknown-linux-gnu'
warm=len(sys.argv)>1 and sys.argv[1]=='warm'
t0=time.time()
EV=os.path.join(D,'evidence'); os.makedirs(os.path.join(EV,'replay'),exist_ok=True)
H=os.path.join(D,'harness')

def env(**k):
    e=dict(os.environ); e.update(CARGO_NET_OFFLINE='true'); e.update(k); return e

def build(kind):
    td=os.path.join(D,'target-'+kind)
    if kind=='asan':
        cmd=['cargo','+nightly','build','--target',TGT,'--offline','--features','cat','--bin','p12']; fl='-Zsanitizer=address --cfg vasan'
    elif kind=='msan':
        cmd=['cargo','+nightly','build','-Zbuild-std','--target',TGT,'--offline','--features','cat','--bin','p12']; fl='-Zsanitizer=memory --cfg vmsan'
    elif kind=='tsan':
        cmd=['cargo','+nightly','build','-Zbuild-std','--target',TGT,'--offline','--features','cat']+[x for b in TS for x in ('--bin',b)]; fl='-Zsanitizer=thread'
    else:
        cmd=['cargo','+nightly','miri','run','--offline','--bin','p12m']; fl=''
    p=subprocess.run(cmd,cwd=H,env=env(CARGO_TARGET_DIR=td,RUSTFLAGS=fl,P12_BUILD_ONLY='1',MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return kind,p.returncode,p.stdout

TS=['p07','p09','p10','p16','p12t']
SAN=re.compile(r'(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|WARNING: MemorySanitizer|ERROR: MemorySanitizer|error: Undefined Behavior|SEGV|unsafe precondition|abnormal termination|non-unwinding panic)')

def run(name,cmd,cwd=H,timeout=700,**k):
    vd=os.path.join(EV,'p12',name); shutil.rmtree(vd,ignore_errors=True); os.makedirs(vd)
    e=env(VERIF_DIR=vd,VERIF_ID='P12',VERIF_TIER=tier,**k)
    e.pop('VERIF_SCALE',None) if 'VERIF_SCALE' not in k else None
    try:
        p=subprocess.run(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=timeout)
        rc,out=p.returncode,p.stdout
    except subprocess.TimeoutExpired as x:
        rc,out=124,(x.stdout or b'').decode(errors='replace') if isinstance(x.stdout,bytes) else (x.stdout or '')
    ev=None
    f=os.path.join(vd,'evidence','P12.json')
    if os.path.exists(f):
        try: ev=json.load(open(f))
        except Exception: ev=None
    return dict(name=name,rc=rc,out=out,ev=ev,cmd=' '.join(cmd),env=k)

def main():
    kinds=['asan','msan','tsan','miri']
    with ThreadPoolExecutor(4) as ex: res=list(ex.map(build,kinds))
    bad=[]
    for k,rc,out in res:
        if rc!=0:
            # The miri "build" is a run that stops at once.
            print(f'P12: build of {k} failed',file=sys.stderr); print(out[-3000:],file=sys.stderr); bad.append(k)
    if warm: return 0
    if bad: return 3
    b=lambda kind,x: os.path.join(D,'target-'+kind,TGT,'debug',x)
    jobs=[]
    A='detect_leaks=0:abort_on_error=0:exitcode=99'
    jobs.append(('asan',lambda: run('asan',[b('asan','p12')],ASAN_OPTIONS=A)))
    jobs.append(('msan',lambda: run('msan',[b('msan','p12')],MSAN_OPTIONS='exitcode=99')))
    for x in TS:
        s='clones,threads,shared_threads,snoop_threads,ring_threads,ids'
        jobs.append((x,lambda x=x: run('tsan-'+x,[b('tsan',x)],VERIF_STREAMS=s,TSAN_OPTIONS='exitcode=66 halt_on_error=0',VERIF_SCALE='1' if tier=='quick' else '0.3')))
    jobs.append(('race',lambda: run('tsan-selftest',[b('tsan','p12t')],P12_RACE='1',TSAN_OPTIONS='exitcode=66')))
    M='-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows'
    for i in range(3 if tier=='quick' else 12):
        jobs.append((f'miri{i}',lambda i=i: run(f'miri-{i}',['cargo','+nightly','miri','run','--offline','--quiet','--bin','p12m'],CARGO_TARGET_DIR=os.path.join(D,'target-miri'),VERIF_HANG='650',VERIF_SEED=str(seed*100+i),MIRIFLAGS=M+f' -Zmiri-seed={seed*100+i}')))
    jobs.append(('alias',lambda: run('miri-alias',['cargo','+nightly','miri','run','--offline','--quiet','--features','alias','--bin','p12alias'],CARGO_TARGET_DIR=os.path.join(D,'target-miri'),MIRIFLAGS=M)))
    with ThreadPoolExecutor(4) as ex: rs=list(ex.map(lambda j:j[1](),jobs))
    viol=[]; incon=[]
    evals=distinct=0; streams={}; obs={}; samples=[]
    for r in rs:
        if r['name']=='tsan-selftest':
            if 'WARNING: ThreadSanitizer: data race' not in r['out']: incon.append('ThreadSanitizer misses a planted race')
            continue
        if r['name']=='miri-alias':
            # Rejected by the borrow checker: the guarantee holds statically, nothing to interpret.
            if 'Undefined Behavior' in r['out']: viol.append((r,'safe code gets two mutable views of one channel'))
            obs['alias probe '+('interpreted' if r['rc']==0 or 'Undefined' in r['out'] else 'rejected by the compiler')]=1
            continue
        m=SAN.search(r['out'])
        if m: viol.append((r,r['out'][max(0,m.start()-50):m.start()+1500]))
        elif r['rc']==1 and 'uninitialised' in r['out']: viol.append((r,r['out'][-1500:]))
        elif r['rc']==1: obs['functional failures left to other properties']=obs.get('functional failures left to other properties',0)+1
        elif r['rc']<0 or r['rc'] in (134,139,99,66): viol.append((r,f"killed or aborted, rc {r['rc']}: "+r['out'][-1500:]))
        elif r['rc']!=0: incon.append(f"{r['name']} rc {r['rc']}: {r['out'][-300:]}")
        if r['ev']:
            c=r['ev']['coverage']; evals+=c['evaluations']; distinct+=c['distinct_nontrivial']
            for k,v in c.get('streams',{}).items(): streams[r['name']+':'+k]=v
            for k,v in c.get('observed',{}).items(): obs[r['name'].split('-')[0]+': '+k]=obs.get(r['name'].split('-')[0]+': '+k,0)+v
            samples+=[r['name']+' '+s for s in c.get('samples',[])[:2]]
    ev={"property":"P12","tier":tier,"seed":seed,"level":"exploration","coverage":{"evaluations":max(evals,1),"distinct_nontrivial":distinct,
        "rule":"sum over AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri runs of distinct workloads that rendered or exchanged data; each sanitizer proves itself on a planted defect first",
        "samples":samples[:20],"streams":streams,"observed":obs},
        "assumptions":["sanitizers see executed paths only","Miri runs leave out units that render through uninitialised inline buffers, whose results MemorySanitizer tracks instead"],
        "wall_s":round(time.time()-t0,2),"violations":len(viol)}
    json.dump(ev,open(os.path.join(EV,'P12.json'),'w'),indent=1)
    for i,(r,w) in enumerate(viol[:5]):
        p=os.path.join(EV,'replay',f'P12-{i}.txt')
        open(p,'w').write(f"property: P12\nstage: {r['name']}\ncommand: {r['cmd']}\nenvironment: {r['env']}\n\n{w}\n\n{r['out'][-6000:]}\n")
        print(f'VIOLATION property=P12 replay={p}')
        for l in w.strip().splitlines()[:8]: print('    '+l[:300])
    print(f'P12: {evals} evaluations, {distinct} distinct nontrivial, {len(viol)} violations, {time.time()-t0:.1f} s')
    if viol: return 1
    if incon:
        print('INCONCLUSIVE property=P12: '+'; '.join(incon)); return 3
    return 0
sys.exit(main())
