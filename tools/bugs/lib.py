import os,subprocess,sys,struct
from rd import *
HERE=os.path.dirname(os.path.abspath(__file__))
BIN=os.environ.get('BIN'); WORK=os.environ.get('WORK')
def mix(i):
    K=(1<<64)-1
    z=((i+1)*0x9e3779b97f4a7c15)&K
    z=((z^(z>>30))*0xbf58476d1ce4e5b9)&K; z=((z^(z>>27))*0x94d049bb133111eb)&K
    return z^(z>>31)
def sg(x,b): x&=(1<<b)-1; return x-(1<<b) if x>>(b-1) else x
def gen(kind,t):
    return {'ilin':lambda:sg(t,32),'llin':lambda:t,'flin':lambda:float(t),'imix':lambda:sg(mix(t),32),
            'lmix':lambda:sg(mix(t),64),'fmix':lambda:float(mix(t)>>40),'iconst':lambda:7}[kind]()
def seq(kind,t0,step,n): return [(t0+step*i,gen(kind,t0+step*i)) for i in range(n)]
n_run=0
def run(cmds,shim=None,timeout=200,out=None,**env):
    global n_run
    n_run+=1
    ans=os.path.join(WORK,'answers%d'%n_run)
    e=dict(os.environ,ANSWERS=ans,**env)
    if shim:
        so=os.path.join(WORK,'shim.so')
        if not os.path.exists(so): subprocess.check_call(['gcc','-shared','-fPIC','-O1','-o',so,os.path.join(HERE,'shim.c'),'-ldl'])
        e.update(LD_PRELOAD=so,SHIM=shim)
    text='\n'.join(cmds if isinstance(cmds,list) else cmds.strip().splitlines())+'\n'
    p=subprocess.run([BIN],input=text.encode(),env=e,cwd=os.path.join(WORK,'t'),timeout=timeout,stdout=out or subprocess.DEVNULL,stderr=out or subprocess.DEVNULL)
    a=open(ans).read().splitlines() if os.path.exists(ans) else []
    if p.returncode!=0: a.append('exit %d'%p.returncode)
    return a
def path(n): return os.path.join(WORK,'t',n)
def read(n):
    with open(path(n),'rb') as f: return f.read()
def check(c,what):
    if not c: print('FAILED:',what); sys.exit(1)
def allok(a,what='call'):
    for i,x in enumerate(a): check(x=='ok','%s: line %d answered %r'%(what,i+1,x))
