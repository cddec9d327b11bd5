#!/usr/bin/env python3
"""Runs the checks of given properties against edits of /repo (overlays, nothing is touched).
probe.py FILE.py [name...] : FILE.py calls P(name, props, [(file, old, new)...])."""
import sys,os,json,shutil,tempfile,time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import run
from run import sh,ENV,H,STABLE
CONC=run.CONC
PR=[]
def P(name,props,edits): PR.append((name,props.split(),edits))
exec(open(sys.argv[1]).read())
want=set(sys.argv[2:])
for name,props,edits in PR:
    if want and name not in want: continue
    d=tempfile.mkdtemp(prefix='mut-',dir='/tmp'); res=[]
    try:
        rc=d+'/rc'; shutil.copytree('/repo',rc,ignore=shutil.ignore_patterns('.git'))
        rep={}
        bad=None
        for f,old,new in edits:
            p=os.path.join(rc,f); s=open(p,'rb').read().decode()
            crlf='\r\n' in s
            s=s.replace('\r\n','\n')
            if s.count(old)<1: bad='no match in %s: %r'%(f,old[:60]); break
            if s.count(old)>1: bad='%d matches in %s: %r'%(s.count(old),f,old[:60]); break
            s=s.replace(old,new)
            if crlf: s=s.replace('\n','\r\n')
            open(p,'wb').write(s.encode()); rep['/repo/'+f]=p
        if bad: print(name,'BAD',bad,flush=True); continue
        ov=d+'/overlay.json'; json.dump({'Replace':rep},open(ov,'w'))
        r,o=sh(['go','build','-overlay',ov,'./...'],cwd='/repo')
        if r: print(name,'NOBUILD',o[-400:],flush=True); continue
        r,o=sh(['go','test','-vet=off','-overlay',ov,'-json','./...'],t=60,cwd='/repo')
        ok=set()
        for l in o.split('\n'):
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Package']+'/'+e['Test'])
        if STABLE-ok: print(name,'TESTS FAIL',sorted(STABLE-ok)[:3],flush=True); continue
        os.makedirs(d+'/root/evidence'); shutil.copy('/verif/known_findings.json',d+'/root/')
        for c in props:
            b=d+'/%s.test'%('conc' if c in CONC else 'seq')
            if not os.path.exists(b):
                if c in CONC:
                    g=d+'/gen'; os.makedirs(g)
                    r,o=sh(['go','run','./mcgen','-out',g,rc,rc+'/tcpnetwork'],cwd=H)
                    if r==0:
                        t=open(g+'/overlay.json').read().replace(rc,'/repo'); open(g+'/overlay.json','w').write(t)
                        r,o=sh(['go','test','-c','-vet=off','-overlay',g+'/overlay.json','-o',b,'./conc'],cwd=H)
                    if r: print(name,c,'NOINSTR',o[-200:],flush=True); continue
                else:
                    r,o=sh(['go','test','-c','-vet=off','-overlay',ov,'-o',b,'./seq'],cwd=H)
                    if r: print(name,c,'HARNESS NOBUILD',o[-200:],flush=True); continue
            t0=time.time()
            r,o=sh([b],t=900,env=dict(ENV,VH_PROP=c,VERIF_ROOT=d+'/root',TMPDIR=d))
            hit=r==1 and 'VIOLATION property=%s'%c in o
            res.append('%s %s (%ds)'%(c,'CAUGHT' if hit else 'MISSED rc=%d'%r,time.time()-t0))
        print(name,' '.join(res),flush=True)
    finally: shutil.rmtree(d,ignore_errors=True)
