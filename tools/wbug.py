#!/usr/bin/env python3
"""Try planted changes in private copies: wbug.py SPEC.py [ids...] [--full] [--workers N] [--checks P01,P02]
Each worker has a copy of /repo and /verif bind-mounted over the real ones in its own user+mount namespace,
so nothing here touches the real trees. SPEC defines BUGS as in bug.py (main only needed with --full).
Without --full only the property's quick check is run."""
import json, os, subprocess, sys, threading, queue
args=sys.argv[1:]; spec={}; exec(open(args[0]).read(),spec)
full='--full' in args; n=int(args[args.index('--workers')+1]) if '--workers' in args else 3
over=args[args.index('--checks')+1].split(',') if '--checks' in args else None
ids=[a for i,a in enumerate(args[1:],1) if not a.startswith('--') and args[i-1] not in('--workers','--checks')]
from edits import edit
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def ns(w,c): return subprocess.run(['unshare','-Urm','bash','-c',f'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /repo && {c}'],capture_output=True,text=True)
bugs=queue.Queue()
for b in spec['BUGS']:
    if not ids or b['id'] in ids: bugs.put(b)
lock=threading.Lock()
def work(i):
    w=f'/tmp/w{i}'; os.makedirs(w,exist_ok=True)
    sh(f'rsync -a --delete --exclude target /repo/ {w}/repo/ || (mkdir -p {w}/repo && cp -a /repo/. {w}/repo/)')
    if not os.path.exists(f'{w}/verif/target'): sh(f'mkdir -p {w}/verif; cp -a /verif/target* {w}/verif/')
    for d in ('harness','tools'): sh(f'mkdir -p {w}/verif/{d}; cp -a /verif/{d}/. {w}/verif/{d}/')
    sh(f'cp -a /verif/run.sh /verif/known_findings.txt {w}/verif/; mkdir -p {w}/verif/evidence')
    while True:
        try: b=bugs.get_nowait()
        except queue.Empty: return
        sh(f'git -C {w}/repo checkout -- .')
        try:
            for e in b['edits']:
                edit(f'{w}/repo/',e)
        except Exception as ex:
            with lock: print(b['id'],'SPEC',ex,flush=True)
            continue
        out=''
        for pr in (over or [b['property']]):
            c=ns(w,f'bash /verif/run.sh {pr} quick')
            ls=[l for l in c.stdout.splitlines() if 'VIOLATION' in l or l.startswith('    ')][:2]
            out+=f' {pr} rc={c.returncode} {[l[:220] for l in ls]}'
            if c.returncode not in (0,1): out+=c.stderr[-700:]
        t=ns(w,f'bash /opt/vp/test.sh /tmp/bugout{i}.json') if '--tests' in args else None
        if t is not None:
            try: o=json.load(open(f'/tmp/bugout{i}.json')); out+=f" tests failed={o['failed'][:4] if isinstance(o['failed'],list) else o['failed']}"
            except Exception as ex: out+=' tests '+str(ex)
        with lock: print(b['id'],out,flush=True)
        sh(f'git -C {w}/repo checkout -- .')
ts=[threading.Thread(target=work,args=(i,)) for i in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
