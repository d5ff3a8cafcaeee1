#!/usr/bin/env python3
# make.py [-j N] [id...]: writes seeded/<id>/ from defs.py and confirms everything in scratch copies;
# also runs the check of the property (from a scratch copy of /verif bind-mounted over /verif).
import os,sys,subprocess,shutil,json,concurrent.futures,threading,queue,re
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from defs import BUGS
import defs3,defs4,defs5,defs6,defs7,defs8,defs9
HERE=os.path.dirname(os.path.abspath(__file__)); SEED='/verif/seeded'
args=sys.argv[1:]; J=3
if '-j' in args: i=args.index('-j'); J=int(args[i+1]); del args[i:i+2]
nocheck='--nocheck' in args; onlycheck='--onlycheck' in args
args=[a for a in args if not a.startswith('--')]
todo=[b for b in BUGS if not args or b['id'] in args or b['prop'] in args]
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
free=queue.Queue()
for i in range(J): free.put('m%d'%i)
base=sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
def orig(repo,rel,old):
    "lines of the original repository among the lines replaced"
    src=open(repo+'/'+rel).read(); a=src[:src.index(old)].count('\n'); n=old.count('\n')+1
    bl=sh('git -C %s blame -s --root %s'%(repo,rel)).stdout.splitlines()
    return sum(1 for l in bl[a:a+n] if l.startswith(base[:6]) or l.startswith('^'+base[:5])),n
def one(b):
    k=free.get()
    try: return b['id'],work(b,k)
    finally: free.put(k)
def work(b,k):
    d='/tmp/ws/'+k; repo=d+'/repo'
    r=sh('/tmp/ws/setup.sh '+k)
    if r.returncode: return 'setup '+r.stdout
    sh('git -C %s checkout -q -f . && git -C %s clean -qfd'%(repo,repo))
    out=SEED+'/'+b['id']
    if not onlycheck:
        os.makedirs(out,exist_ok=True)
        for f in os.listdir(out): os.remove(out+'/'+f)
        os_=0
        for rel,old,new in b['edits']:
            p=repo+'/'+rel; s=open(p).read()
            if s.count(old)<1: return 'edit not found: %r'%old
            s=s.replace(old,new,1); open(p,'w').write(s)
        diff=subprocess.run('git -C %s diff'%repo,shell=True,stdout=subprocess.PIPE,text=True).stdout
        # lines removed or changed that are original
        sh('git -C %s checkout -q -f .'%repo)
        removed=0; original=0; added_next=0
        cur=None; ln=0
        for l in diff.splitlines():
            m=re.match(r'--- a/(.*)',l)
            if m: cur=m.group(1); bl=sh('git -C %s blame -s --root %s'%(repo,cur)).stdout.splitlines(); continue
            m=re.match(r'@@ -(\d+)',l)
            if m: ln=int(m.group(1)); continue
            if l.startswith('+++'): continue
            if l.startswith('-'):
                removed+=1; original+= bl[ln-1].split()[0].lstrip('^')[:6]==base[:6]; ln+=1
            elif l.startswith(' '): ln+=1
        open(out+'/patch.diff','w').write(diff)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['what']),open(out+'/meta.json','w'),indent=1)
        for f in ('lib.py','rd.py','shim.c'): shutil.copy(HERE+'/'+f,out)
        shutil.copy(HERE+'/'+({'threads':'threads.rs','threads2':'threads2.rs','threads3':'threads3.rs'}.get(b['demo'],'driver.rs')),out+'/driver.rs')
        if b['demo']=='c': shutil.copy(HERE+'/clib.py',out); shutil.copy(HERE+'/democ.sh',out+'/demo.sh'); os.remove(out+'/driver.rs')
        else: shutil.copy(HERE+'/demo.sh',out)
        if b.get('release'): open(out+'/release','w').write('')
        if b['sync']: shutil.copy(HERE+'/recv.py',out)
        open(out+'/check.py','w').write(b['check'].lstrip())
        lay=d+'/lay'; shutil.rmtree(lay,ignore_errors=True); shutil.copytree(out,lay,ignore=shutil.ignore_patterns('*.diff','meta.json'))
        r=sh('/tmp/ws/in.sh %s bash -c "cd /repo && bash %s/demo.sh"'%(k,lay))
        if r.returncode: return 'DEMO FAILS ON CLEAN rc=%d %s'%(r.returncode,r.stdout[-800:])
    r=sh('git -C %s apply %s/patch.diff'%(repo,out))
    if r.returncode: return 'PATCH '+r.stdout
    try:
        note=''
        if not onlycheck:
            note='orig %d of %d removed; '%(original,removed)
            r=sh('/tmp/ws/in.sh %s bash /opt/vp/build.sh'%k)
            if r.returncode: return 'BUILD '+r.stdout[-2500:]
            r=sh('/tmp/ws/in.sh %s bash /opt/vp/test.sh %s/t.json'%(k,d))
            t=json.load(open(d+'/t.json')); base_=json.load(open('/opt/vp/BASELINE.json'))
            want=base_.get('stable') or base_.get('passed') or base_
            passed=set(t.get('passed',[]))
            miss=[x for x in want if x not in passed] if isinstance(want,list) else ['?']
            if miss: return 'TESTS FAIL %s'%miss
            r=sh('/tmp/ws/in.sh %s bash -c "cd /repo && bash %s/demo.sh"'%(k,lay))
            note+='demo rc=%d %s; '%(r.returncode,r.stdout.strip()[-160:].replace('\n',' '))
            if r.returncode!=1: return 'DEMO PASSES OR BREAKS WITH THE BUG '+note+r.stdout[-600:]
        if nocheck: return note
        r=sh('/tmp/ws/in.sh %s ./check.sh %s --quick --no-evidence'%(k,b['prop']))
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION property='+b['prop'])]
        return note+('CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode)+' '+' | '.join(r.stdout.splitlines()[-4:-1])[:300]
    finally:
        sh('git -C %s checkout -q -f .'%repo)
os.makedirs(SEED,exist_ok=True)
with concurrent.futures.ThreadPoolExecutor(J) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one,b) for b in todo]):
        i,m=f.result(); print('%-20s %s'%(i,m),flush=True)
