#!/usr/bin/env python3
"""Tries many small changes of /repo's code and lists those that neither the
repository's tests nor the checks notice.

run.py OUT.jsonl N SEED FILE...   N changes of each file (0: all), drawn with SEED
Works on scratch copies under /tmp/mut only."""
import sys,os,json,subprocess,random,threading,queue,time,shutil
out,N,seed,files=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4:]
P=int(os.environ.get('P','3')); FRAC=float(os.environ.get('FRAC','0.3'))
CORE='C06 C04 C05 C02 C03 C01 C07 C10 C11 C09 C08 C12 C31'
ORDER={'compress.go':'C06 C05 C04 C12 C07 C10 C11 C08 C31','compress_other.go':'C06 C05 C04 C12 C07 C10 C11 C08 C31',
'compress_wasm_js.go':'C31','imageres.go':'C01 C05 C10 C11 C07 C08 C31','layer.go':'C02 C03 C04 C07 C10 C11 C09 C08 C12 C31',
'picker.go':'C04 C05 C10 C31','psd.go':'C01 C05 C07 C09 C10 C11 C08 C12 C31','util.go':CORE,'colormode.go':'C01 C05','blendmode.go':'C02',
'color/color.go':'C13 C14','psdexporter/main.go':'C29'}
def order(f):
    if f in ORDER: return ORDER[f].split()
    if f.startswith('blend/'): return 'C15 C16 C17 C18 C19 C20'.split()
    return 'C21 C24 C22 C25 C27 C28 C26 C23'.split()
def pkg(c):
    n=int(c[1:])
    return 'core' if n<=12 or n>=30 else 'colorp' if n<=14 else 'blendp' if n<=20 else 'comp' if n<=28 else 'exporter'
QUICK={}
import re
for l in subprocess.run("grep -rhoE 'ID: +\"C[0-9]+\", Quick: [0-9]+|ID: +\"C[0-9]+\",|Quick: +[0-9]+' /verif/harness/cmd",shell=True,capture_output=True,text=True).stdout.splitlines():
    m=re.match(r'ID: +"(C\d+)"',l)
    if m: cur=m.group(1)
    m=re.search(r'Quick: +(\d+)',l)
    if m: QUICK[cur]=int(m.group(1))
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV=dict(subprocess.run(['bash','-c','. /verif/env.sh; env -0'],capture_output=True,text=True).stdout.strip('\0').split('\0')[i].split('=',1) for i in range(len(subprocess.run(['bash','-c','. /verif/env.sh; env -0'],capture_output=True,text=True).stdout.strip('\0').split('\0'))))
ENV['VERIF_FAST']='1'
def sh(c,to=300,cwd=None,env=None):
    e=dict(ENV); e.update(env or {})
    p=subprocess.Popen(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',cwd=cwd,env=e,start_new_session=True)
    try:
        o,_=p.communicate(timeout=to); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return -9,'timeout'
rng=random.Random(seed)
q=queue.Queue(); total=0
done=set()
if os.path.exists(out):
    for l in open(out):
        m=json.loads(l); done.add((m['file'],m['start'],m['end'],m['new']))
for f in files:
    ms=[json.loads(l) for l in subprocess.run(['/tmp/mutate',f],cwd='/repo',capture_output=True,text=True).stdout.splitlines()]
    rng.shuffle(ms)
    for m in (ms[:N] if N else ms):
        if (m['file'],m['start'],m['end'],m['new']) not in done: q.put(m); total+=1
print(total,'mutants',flush=True)
lock=threading.Lock(); res={}
def classify(d,m):
    f=m['file']; r=d+'/repo'; src=open(r+'/'+f,'rb').read()
    new=src[:m['start']]+m['new'].encode()+src[m['end']:]
    open(r+'/'+f,'wb').write(new)
    try:
        h=d+'/harness'
        comp=f.startswith('composite/')
        if f!='compress_wasm_js.go' and not comp:
            rc,o=sh('go build ./ ./blend ./color ./psdexporter',cwd=r)
            if rc: return 'nobuild',''
            os.makedirs(r+'/output',exist_ok=True)
            rc,o=sh('timeout 100 go test -vet=off -json ./ ./blend ./color ./psdexporter',to=120,cwd=r)
            passed=set()
            for l in o.splitlines():
                try: e=json.loads(l)
                except Exception: continue
                if e.get('Action')=='pass' and 'Test' in e: passed.add(e['Package']+'/'+e['Test'])
            if not stable<=passed: return 'tests',''
        built=set()
        for c in order(f):
            p=pkg(c)
            if p not in built:
                rc,o=sh('go build -o %s/bin-%s ./cmd/%s'%(d,p,p),cwd=h)
                if rc: return 'nobuild',o[-200:]
                built.add(p)
            if c=='C29':
                rc,o=sh('go build -o %s/psdexporter github.com/oov/psd/psdexporter'%d,cwd=h)
                if rc: return 'nobuild',''
            if c=='C31':
                rc,o=sh('GOARCH=386 go build -o %s/peer386 ./cmd/peer && GOOS=js GOARCH=wasm go build -o %s/peer.wasm ./cmd/peer'%(d,d),cwd=h)
                if rc: return 'nobuild',''
            cases=max(50,int(QUICK[c]*FRAC))
            rc,o=sh('%s/bin-%s -prop %s -dir %s -replays %s/rep -tier quick -seed 1 -cases %d -evidence %s/ev.json'%(d,p,c,d,d,cases,d),to=400,cwd=d,
              env={'VERIF_WORK':d,'VERIF_HARNESS':h,'VERIF_WASM_EXEC':ENV['GOROOTX']+'/lib/wasm/wasm_exec_node.js'})
            if rc==1: return c,''
            if rc!=0: return c+'?',o[-300:]
        return 'SURVIVED',''
    finally:
        open(r+'/'+f,'wb').write(src)
ENV['GOROOTX']=subprocess.run(['bash','-c','. /verif/env.sh; go env GOROOT'],capture_output=True,text=True).stdout.strip()
def work(i):
    d='/tmp/mut/p%d-%d'%(os.getpid(),i)
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    sh('cp -a /repo %s/repo && cp -a /verif/harness %s/harness && sed -i "s#=> /repo#=> %s/repo#" %s/harness/go.mod'%(d,d,d,d))
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        t0=time.time()
        try: v,info=classify(d,m)
        except Exception as e: v,info='ERROR',repr(e)
        m['verdict'],m['info'],m['secs']=v,info,round(time.time()-t0,1)
        with lock:
            res[v]=res.get(v,0)+1
            open(out,'a').write(json.dumps(m)+'\n')
            n=sum(res.values())
            if n%25==0: print(n,'/',total,res,flush=True)
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(P)]
[t.start() for t in ts]; [t.join() for t in ts]
print('done',res)
