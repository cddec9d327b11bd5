#!/usr/bin/env python3
"""Runs the checks against small mutants of /repo, without touching it (overlays).
run.py OUT.jsonl [files...]; survivors are looked at by hand."""
import json,os,subprocess,sys,shutil,tempfile,time,hashlib
from concurrent.futures import ThreadPoolExecutor,as_completed
import queue
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',VERIF_SEED='1',VERIF_TIER='quick')
H='/verif/harness'
ORDER={
 'net':['C13','C01','C12','C11','C09','C22','C06','C05','C10','C14'],
 'root':['C06','C07','C23','C21','C02','C03','C04','C09','C01','C15','C08','C22','C05','C14','C10'],
 'sdp':['C19','C18','C20','C16','C17','C21','C05'],
}
FIRST={'authenticator.go':['C08'],'h264rtpparser.go':['C02','C05'],'hevcrtpparser.go':['C03','C05'],'markrtpparser.go':['C04'],'rtpparser.go':['C02','C03','C04'],
 'rtpstreamprotocol.go':['C01','C23'],'websocketconn.go':['C22'],'rtsprequest.go':['C07','C08','C06'],'rtspparser.go':['C23','C08','C07','C05'],'sdpparser.go':['C21','C04','C06','C05'],'simplertpparser.go':['C04'],
 'rtspclient.go':['C06','C07','C04','C09','C08','C15','C05','C14','C10'],'tcpnetwork.go':['C13','C12','C11','C01','C09']}
SLOW={'C05','C10','C14'}
PASS=int(os.environ.get('PASS','1'))
def order(f):
    l=order1(f)
    return [c for c in l if c not in SLOW] if PASS==1 else [c for c in l if c in SLOW]
def order1(f): return FIRST.get(f.split('/')[-1]) or ORDER[kind(f)]
CONC={'C10','C11','C12','C24','C27'}
def kind(f): return 'net' if 'tcpnetwork' in f else 'sdp' if '/sdp/' in f else 'root'
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
slots=queue.Queue()
NS=int(os.environ.get('SLOTS','8'))
for i in range(NS): slots.put(i)
def sh(cmd,t=600,env=ENV,cwd=None):
    try:
        r=subprocess.run(cmd,env=env,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=t)
        return r.returncode,r.stdout
    except subprocess.TimeoutExpired as e: return 124,'timeout'
def one(m):
    cpu=slots.get(); d=tempfile.mkdtemp(prefix='mut-',dir='/tmp')
    try:
        raw=open(m['file'],'rb').read()
        new=raw[:m['off']]+m['new'].encode()+raw[m['end']:]
        mf=os.path.join(d,'src','m.go'); os.makedirs(d+'/src'); open(mf,'wb').write(new)
        ov=d+'/overlay.json'; json.dump({'Replace':{m['file']:mf}},open(ov,'w'))
        ts=['taskset','-c',str(cpu)] if PASS==1 else []
        rc,o=sh(ts+['go','build','-overlay',ov,'./...'],cwd='/repo')
        if rc: return dict(m,res='nobuild')
        rc,o=sh(ts+['go','test','-vet=off','-overlay',ov,'-json','./...'],t=60,cwd='/repo')
        ok=set()
        for l in o.split('\n'):
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Package']+'/'+e['Test'])
        if STABLE-ok: return dict(m,res='tests')
        rc,o=sh(ts+['go','test','-c','-vet=off','-overlay',ov,'-o',d+'/seq.test','./seq'],cwd=H)
        if rc: return dict(m,res='harness nobuild',out=o[-300:])
        conc=None; log={}
        os.makedirs(d+'/root/evidence')
        shutil.copy('/verif/known_findings.json',d+'/root/')
        for c in m.get('checks') or order(m['file']):
            b=d+'/seq.test'
            if c in CONC:
                if conc is None:
                    # mcgen works on directories
                    for pk in ['','/tcpnetwork']:
                        os.makedirs(d+'/gsrc'+pk,exist_ok=True)
                    g=d+'/gen'; os.makedirs(g)
                    shutil.copytree('/repo',d+'/rc',ignore=shutil.ignore_patterns('.git'))
                    open(m['file'].replace('/repo',d+'/rc'),'wb').write(new)
                    rc,o=sh(ts+['go','run','./mcgen','-out',g,d+'/rc',d+'/rc/tcpnetwork'],cwd=H)
                    if rc==0:
                        t=open(g+'/overlay.json').read().replace(d+'/rc','/repo'); open(g+'/overlay.json','w').write(t)
                        rc,o=sh(ts+['go','test','-c','-vet=off','-overlay',g+'/overlay.json','-o',d+'/conc.test','./conc'],cwd=H)
                    conc = rc==0
                    if not conc: log['conc']=o[-300:]
                if not conc: continue
                b=d+'/conc.test'
            t0=time.time()
            rc,o=sh(ts+[b],t=400,env=dict(ENV,VH_PROP=c,VERIF_ROOT=d+'/root',VERIF_BUDGET_S=os.environ.get('BUD','50'),TMPDIR=d))
            log[c]=[rc,round(time.time()-t0)]
            if rc==1 and 'VIOLATION property=%s'%c in o: return dict(m,res='killed '+c,log=log)
        return dict(m,res='SURVIVED',log=log)
    except Exception as e:
        return dict(m,res='error %r'%e)
    finally:
        shutil.rmtree(d,ignore_errors=True); slots.put(cpu)
def main():
    out=sys.argv[1]
    files=sys.argv[2:]
    done=set()
    key=lambda m:(m['file'],m['off'],m['end'],m['new'])
    if os.path.exists(out):
        for l in open(out): done.add(key(json.loads(l)))
    ms=[]
    for f in files:
        for l in sh(['/tmp/mutate',f])[1].split('\n'):
            if l:
                m=json.loads(l)
                if key(m) not in done: done.add(key(m)); ms.append(m)
    if PASS==2: # the survivors of the first, with all processors each
        ms=[json.loads(l) for l in open(os.environ['FROM'])]
        ms=[m for m in ms if m['res']=='SURVIVED' and key(m) not in done and order(m['file']) and (not files or m['file'] in files)]
        for m in ms: m.pop('res'); m.pop('log')
    print(len(ms),'mutants',flush=True)
    with open(out,'a') as fo, ThreadPoolExecutor(NS) as ex:
        for r in as_completed([ex.submit(one,m) for m in ms]):
            r=r.result(); fo.write(json.dumps(r)+'\n'); fo.flush()
if __name__=='__main__': main()
