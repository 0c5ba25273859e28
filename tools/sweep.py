#!/usr/bin/env python3
"""sweep.py MUTANTS.jsonl OUT.jsonl [workers]: applies each small change to a scratch copy of /repo and, if it
builds and passes the stable tests, runs the checks anchored at its file on it (plain engine, a part of the
runs). What no check reports is printed as SURVIVED. Development aid: no check uses it."""
import json,os,subprocess,sys,threading,shutil,queue,time
muts=[json.loads(l) for l in open(sys.argv[1])]
out=open(sys.argv[2],'a')
nw=int(sys.argv[3]) if len(sys.argv)>3 else 8
base='/tmp/mut/sw'; os.makedirs(base,exist_ok=True)
env=dict(os.environ)
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],capture_output=True,text=True).stdout.splitlines():
    if '=' in l:
        k,v=l.split('=',1); env[k]=v
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
byfile={}
for p in props:
    if p['id'] in ('C20','C21','C22'): continue
    for f in p['anchors']['files']: byfile.setdefault(f,[]).append(p['id'])
extra={'spn/':['C08','C03','C24','C16','C10','C09','C17'],'spn/serial.go':['C10','C11','C08'],'spn/print.go':['C24','C08'],'spn/utils.go':['C08','C16','C17','C02','C09'],
 'utils/cluster/':['C23','C03','C17'],'utils/indep/':['C25','C03'],'utils/unionfind.go':['C25','C23'],'utils/stats.go':['C26','C03','C17'],'spn/multinom.go':['C26','C08','C03','C16'],'spn/gaussian.go':['C26','C08','C03','C16'],'spn/indicator.go':['C26','C08'],'utils/log.go':['C08'],
 'io/output.go':['C24','C05'],'io/ppm.go':['C24'],'io/pbm.go':['C18','C24'],'io/pgm.go':['C04','C18','C24','C05'],'io/images.go':['C24','C05'],'common/':['C24','C08','C23','C09'],
 'learn/derive.go':['C08','C09'],'learn/variable.go':['C25','C23','C03','C17','C15'],'sys/rand.go':['C06'],'score/score.go':['C02','C18'],'sys/gc.go':['C05'],'data/manipulate.go':['C15','C02'],'sys/':['C19','C06'],'app/':['C05']}
def checks(f):
    if f in extra: return extra[f]
    for k,v in extra.items():
        if k.endswith('/') and f.startswith(k): return v
    return byfile.get(f,[])
q=queue.Queue()
for m in muts: q.put(m)
lk=threading.Lock()
def sh(cmd,cwd,t,e):
    try:
        r=subprocess.run(cmd,cwd=cwd,timeout=t,capture_output=True,text=True,env=e,start_new_session=True)
        return r.returncode,r.stdout+r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout',''
def worker(k):
    d=f'{base}/w{k}'
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True)
    e=dict(env,VSIM_REPO=d,VSIM_VERIF='/tmp/mut/verif',VSIM_RACE='0',VSIM_PART=os.environ.get('PART','4'))
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=f"{d}/{m['File']}"; src=open(p,'rb').read()
        new=src[:m['From']]+m['New'].encode()+src[m['To']:]
        open(p,'wb').write(new)
        res='';det=''
        try:
            c,o=sh(['go','build','./...'],d,300,e)
            if c!=0: res='nobuild'
            else:
                c,o=sh(['taskset','-c',str(k%8),'go','test','-vet=off','-timeout','60s','-skip','^TestParseArff$','./...'],d,300,e)
                if c!=0: res='tests'
                else:
                    ids=checks(m['File'])
                    ids=os.environ.get('ONLY','').split() or ids
                    res='SURVIVED'
                    for i in ids:
                        c,o=sh(['taskset','-c',str(k%8),'bash','/tmp/mut/verif/run.sh','check',i,'quick'],d,900,e)
                        if c==1: res='caught '+i; det=o.strip().splitlines()[-2][:200] if len(o.strip().splitlines())>1 else ''; break
                        if c!=0: det+=f' {i}:rc={c} '+o[-300:]
        finally:
            open(p,'wb').write(src)
        m['Result']=res; m['Detail']=det
        with lk:
            out.write(json.dumps(m)+'\n'); out.flush()
            if res=='SURVIVED': print(f"{m['File']}:{m['Line']} {m['Func']}: {m['What']} {det}",flush=True)
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=worker,args=(k,)) for k in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
