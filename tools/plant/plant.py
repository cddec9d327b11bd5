#!/usr/bin/env python3
"""Writes /verif/seeded from the descriptions in bugs*.py (patches are made
against /repo's HEAD in a scratch copy) and validates what it wrote.

  plant.py write [ids]      write patch.diff, demo.sh, meta.json
  plant.py valid [ids]      patch applies, builds, stable tests pass, demo 0/!=0
  plant.py catch [ids]      run the property's quick check with the patch in /repo
"""
import json,os,subprocess,sys,glob,shutil,tempfile,re
HERE=os.path.dirname(os.path.abspath(__file__))
SEED='/verif/seeded'
BUGS={}
def B(id,prop,edits,needs,breaks,pkg,body,imports=()):
    assert id not in BUGS,id
    BUGS[id]=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,pkg=pkg,body=body,imports=imports)
for f in sorted(glob.glob(HERE+'/bugs*.py')): exec(open(f).read())
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
PK={'root':('.','rtspclient_test'),'net':('./tcpnetwork','tcpnetwork_test'),'sdp':('./sdp','sdp_test')}
DEMO='''#!/bin/bash
# exit 0 when the property holds for the history this demonstration plays
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
printf '{"Replace":{"%%s":"%%s","%%s":"%%s"}}' "$PWD/%(dir)szz_demo_test.go" "$D/demo_test.go.txt" "$PWD/%(dir)szz_demo_helper_test.go" "$D/helper_test.go.txt" >"$T/overlay.json"
timeout 200 go test -vet=off -count=1 -timeout 180s -overlay "$T/overlay.json" -run '^TestDemo$' %(pkg)s >"$T/out" 2>&1
rc=$?
tail -c 3000 "$T/out"
exit $rc
'''
def sh(cmd,cwd=None,t=900):
    return subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
def copy():
    d=tempfile.mkdtemp(prefix='plant-',dir='/tmp'); sh('cp -a /repo/. %s/'%d); return d
def write(ids):
    d=copy()
    try:
        for i in ids:
            b=BUGS[i]
            for f,old,new in b['edits']:
                p=os.path.join(d,f); raw=open(p,'rb').read().decode()
                crlf='\r\n' in raw
                txt=raw.replace('\r\n','\n')
                old=old.strip('\n'); new=new.strip('\n')
                assert txt.count(old)==1,(i,f,txt.count(old),old)
                txt=txt.replace(old+'\n',new+'\n' if new else '') if not new else txt.replace(old,new)
                if crlf: txt=txt.replace('\n','\r\n')
                open(p,'wb').write(txt.encode())
            out=os.path.join(SEED,i); os.makedirs(out,exist_ok=True)
            diff=subprocess.run(['git','diff'],cwd=d,stdout=subprocess.PIPE).stdout
            open(out+'/patch.diff','wb').write(diff)
            # does it change original lines?
            sh('git checkout -- .',d)
            touched=False
            for f in set(e[0] for e in b['edits']):
                bl=subprocess.run(['git','blame','-s',f],cwd=d,stdout=subprocess.PIPE,text=True).stdout.split('\n')
                ln=0
                cur=None
                for l in diff.decode().split('\n'):
                    if l.startswith('--- a/'): cur=l[6:].strip()
                    m=re.match(r'@@ -(\d+)',l)
                    if m: ln=int(m.group(1)); continue
                    if cur==f and ln:
                        if l.startswith('-'):
                            if 'd5b5e68' in bl[ln-1][:9]: touched=True
                            ln+=1
                        elif l.startswith(' '): ln+=1
            if not touched: print('WARNING',i,'removes no original line')
            dirp,pk=PK[b['pkg']]
            open(out+'/helper_test.go.txt','w').write(open(HERE+'/%s_helper.txt'%b['pkg']).read())
            imp=''.join('\t"%s"\n'%x for x in sorted(set(('testing',)+tuple(b['imports']))))
            open(out+'/demo_test.go.txt','w').write('package %s\n\nimport (\n%s)\n\n%s\n'%(pk,imp,b['body'].strip('\n')))
            open(out+'/demo.sh','w').write(DEMO%dict(pkg=dirp,dir='' if dirp=='.' else dirp[2:]+'/'))
            os.chmod(out+'/demo.sh',0o755)
            json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(out+'/meta.json','w'),indent=1)
    finally: shutil.rmtree(d)
def stable(d):
    r=sh('go test -json ./...',d)
    ok=set()
    for l in r.stdout.split('\n'):
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Package']+'/'+e['Test'])
    want=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(want-ok)
def valid(ids):
    from concurrent.futures import ThreadPoolExecutor
    def one(i):
        d=copy(); s=os.path.join(SEED,i); msg=[]
        try:
            r=sh('git apply --check %s/patch.diff'%s,d)
            if r.returncode: return i,['does not apply: '+r.stdout]
            base=sh('bash %s/demo.sh'%s,d)
            if base.returncode: msg.append('demo fails unpatched: '+base.stdout[-1200:])
            sh('git apply %s/patch.diff'%s,d)
            r=sh('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...',d)
            if r.returncode: msg.append('build: '+r.stdout[-600:])
            m=stable(d)
            if m: msg.append('stable tests fail: %s'%m[:4])
            p=sh('bash %s/demo.sh'%s,d)
            if p.returncode==0: msg.append('demo passes patched')
            elif '[build failed]' in p.stdout: msg.append('demo does not build: '+p.stdout[-800:])
            return i,msg
        finally: shutil.rmtree(d)
    with ThreadPoolExecutor(4) as ex:
        for i,m in ex.map(one,ids): print(i,'OK' if not m else 'BAD '+' | '.join(m),flush=True)
def catch(ids):
    # the patched copy is mounted over /repo, for the check alone
    import time
    for i in ids:
        prop=BUGS[i]['prop']; s=os.path.join(SEED,i); d=copy()
        try:
            r=sh('git apply %s/patch.diff'%s,d); assert r.returncode==0,r.stdout
            t0=time.time()
            r=sh("unshare -m bash -c 'mount --bind %s /repo && cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash check.sh %s'"%(d,prop),'/verif',1200)
            v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION property=%s '%prop)]
            print(i,prop,'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode,'%.0fs'%(time.time()-t0),flush=True)
        finally: shutil.rmtree(d)
if __name__=='__main__':
    ids=sys.argv[2:] or sorted(BUGS)
    ids=[i for x in ids for i in sorted(BUGS) if i==x or (x.endswith('*') and i.startswith(x[:-1]))]
    dict(write=write,valid=valid,catch=catch)[sys.argv[1]](ids)
