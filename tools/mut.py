#!/usr/bin/env python3
"""mut.py FILE... [-k SUBSTR] [-p PROP[,PROP]] [-j N]: try mutants on scratch copies of /repo.

Each FILE is a Python file that calls M(id, "PROP[,PROP]", path, old, new[, path, old, new ...]) per mutant
(or R(...) for an edit that keeps the behaviour: every named check must stay quiet).
A mutant is built, tested with the repository's stable tests, and checked with the analyser in bin/."""
import sys,os,subprocess,json,threading,queue,shutil,re,time
args=sys.argv[1:]; files=[]; k=None; props=None; J=5
while args:
    a=args.pop(0)
    if a=='-k': k=args.pop(0)
    elif a=='-p': props=args.pop(0)
    elif a=='-j': J=int(args.pop(0))
    else: files.append(a)
muts=[]
def M(id,prop,*eds): muts.append((id,prop,eds,True))
def R(id,prop,*eds): muts.append((id,prop,eds,False))
for f in files: exec(compile(open(f).read(),f,'exec'),{'M':M,'R':R})
base=json.load(open('/opt/vp/BASELINE.json'))
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GO111MODULE='on',GOWORK='off',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
ROOT='/tmp/mut'; os.makedirs(ROOT,exist_ok=True)
lock=threading.Lock()
ALL=[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
def sh(cmd,cwd,e=env,t=400):
    try: return subprocess.run(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    except subprocess.TimeoutExpired as x: return subprocess.CompletedProcess(cmd,124,'timeout')
def worker(i,q):
    w=f'{ROOT}/w{i}'; v=f'{ROOT}/v{i}'
    shutil.rmtree(w,ignore_errors=True); shutil.rmtree(v,ignore_errors=True)
    shutil.copytree('/repo',w,symlinks=True); os.makedirs(v+'/evidence')
    os.symlink('/verif/known-findings.json',v+'/known-findings.json')
    while True:
        try: id,prop,eds,bug=q.get_nowait()
        except queue.Empty: return
        sh('git checkout -q -- . && git clean -fdq',w)
        out=''
        try:
            rest=list(eds); p=None
            while rest:
                if rest[0].endswith('.go') and '\n' not in rest[0]: p=rest.pop(0)
                old,new=rest.pop(0),rest.pop(0)
                s=open(f'{w}/{p}').read()
                if s.count(old)!=1: raise Exception(f'{p}: {s.count(old)} matches of {old!r}')
                open(f'{w}/{p}','w').write(s.replace(old,new))
            r=sh('go build ./... ',w)
            if r.returncode: raise Exception('BUILD '+r.stdout[:600])
            r=sh('go test -vet=off ./... 2>&1 | grep -E "^(---|FAIL)"',w)
            if '--- FAIL' in r.stdout or 'FAIL\t' in r.stdout: raise Exception('TESTS '+r.stdout[:300])
            ps=(props or prop).split(',')
            if ps==['*']: ps=ALL
            e=dict(env,OCT_REPO=w,OCT_VERIF=v,**({'OCT_FAST':'1'} if bug else {}))
            for p in ps:
                t=time.time(); r=sh(f'/verif/bin/octcheck check {p}',v,e,900); dt=time.time()-t
                viol='VIOLATION' in r.stdout
                if bug: verdict='caught' if r.returncode==1 and viol else 'MISSED rc=%d'%r.returncode
                else: verdict='quiet' if r.returncode==0 and not viol else 'ALARM rc=%d'%r.returncode
                why=''
                if verdict[0] in 'A' or viol or r.returncode>1:
                    lines=[l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
                    why=' '.join(lines)[:160] if verdict[0]=='c' else '\n    '.join(x[:400] for x in lines[-6:])
                out+=f'{id:28} {p} {verdict} {dt:.0f}s {why}\n'
        except Exception as x: out=f'{id:28} INVALID {x}\n'
        with lock: print(out,end='',flush=True)
q=queue.Queue()
for m in muts:
    if k is None or k in m[0]: q.put(m)
ts=[threading.Thread(target=worker,args=(i,q)) for i in range(min(J,q.qsize()))]
[t.start() for t in ts]; [t.join() for t in ts]
for i in range(J): shutil.rmtree(f'{ROOT}/w{i}',ignore_errors=True)
