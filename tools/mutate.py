#!/usr/bin/env python3
# mutate.py [-j N] [--only SUBSTR] [--list] : mechanical mutants of the non-test code, each run
# against the checks at reduced size; prints the ones nothing notices (they still pass the stable
# tests). Needs the scratch workspaces of /tmp/ws (setup.sh, in.sh).
import re,sys,subprocess,os,json,queue,concurrent.futures,hashlib
R='/repo/'
SRC=['tsfile-writer/src/writer/%s.rs'%f for f in 'chunk_writer compression group_writer murmur128 schema statistics ts_file_config tsfile_io_writer tsfile_writer utils encoding/mod encoding/plain encoding/time_encoder mod'.split()]+\
 ['tsfile-writer/src/sync/mlog.rs','tsfile-writer/src/sync/sync_sender.rs','tsfile-writer-c/src/lib.rs']
OPS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),
 (r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' / ',' * '),(r' % ',' / '),(r' && ',' || '),(r' \|\| ',' && '),
 (r' \+= ',' -= '),(r' << ',' >> '),(r' >> ',' << '),(r' \| ',' & '),(r' & ',' | '),(r' \^ ',' | '),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\.max\(','.min('),(r'\.min\(','.max('),(r'\bif !','if '),(r'\bif (?!let|!)','if !'),
 (r'\?;',';'),(r' as i64',' as i32 as i64'),(r' as u64',' as u32 as u64'),(r' as i32',' as i16 as i32'),(r' as u32',' as u16 as u32'),
 (r'\bi64\b','i32'),(r'to_be_bytes','to_le_bytes'),(r'is_empty\(\)','len() == 1'),(r'Some\(([a-z_.]+)\)','None'),(r'continue;',';'),(r'break;',';'),(r'return ([^;]*);',';')]
def mutants():
    for f in SRC:
        src=open(R+f).read().split('\n'); skip=0
        for i,l in enumerate(src):
            t=l.strip()
            if '#[cfg(test)]' in l: break
            if '#[cfg(tsfile_sim)]' in l: skip=4
            if skip:
                skip-=1; continue
            if not t or t.startswith(('const ','//','#[','use ','pub use','log::','println','mod ','pub mod','fn ','pub fn','impl','assert','debug_assert')): continue
            code=l.split('//')[0]
            for pat,rep in OPS:
                for m in re.finditer(pat,code):
                    n=code[:m.start()]+re.sub(pat,rep,m.group(0))+code[m.end():]
                    if n!=code: yield f,i,l,n
            for m in re.finditer(r'(?<![\w.#])(\d+)(?![\w.])',code):
                for d in (1,-1):
                    v=int(m.group(1))+d
                    if v>=0: yield f,i,l,code[:m.start()]+str(v)+code[m.end():]
            if t.endswith(';') and not t.startswith(('let ','return','use ','type ','const ','pub ','}','break','continue','.',')',']')) and (i==0 or src[i-1].strip().endswith(('{','}',';',',')) or src[i-1].strip()==''): yield f,i,l,''
N=dict(C01=1500,C02=1500,C03=200,C04=1500,C05=1500,C06=500,C07=400,C08=1000,C09=300,C10=300,C11=3000,C12=1500,C13=3000,C14=3000,C15=1500,C16=3000)
W=['C01','C03','C04','C02','C10','C07','C05','C06','C11','C08','C09','C12']; S=['C14','C15','C16','C13']
def sh(c,t=900):
    try: return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c,124,'timeout')
J=3; args=sys.argv[1:]
if '-j' in args: i=args.index('-j'); J=int(args[i+1]); del args[i:i+2]
only=None
if '--only' in args: i=args.index('--only'); only=args[i+1]; del args[i:i+2]
M=[m for m in mutants() if not only or only in m[0]]
if '--list' in args: print(len(M)); [print(m[0],m[1]+1,m[3].strip()) for m in M]; sys.exit()
step=1
if '--every' in args: i=args.index('--every'); step=int(args[i+1])
import random; random.Random(5).shuffle(M); M=M[::step]
if '--not' in args: M=[m for m in M if args[args.index('--not')+1] not in m[0]]
if '--skip' in args: M=M[int(args[args.index('--skip')+1]):]
free=queue.Queue(); [free.put('u%d'%i) for i in range(J)]
for i in range(J): sh('/tmp/ws/setup.sh u%d'%i); sh('git -C /tmp/ws/u%d/repo checkout -q -f .'%i)
want=json.load(open('/opt/vp/BASELINE.json')); want=want.get('stable') or want.get('passed') or want
def one(x):
    k=free.get()
    try: return x,work(x,k)
    finally: free.put(k)
def work(x,k):
    f,i,l,n=x; repo='/tmp/ws/%s/repo'%k
    s=open(R+f).read().split('\n'); s[i]=n; open(repo+'/'+f,'w').write('\n'.join(s))
    try:
        r=sh('/tmp/ws/in.sh %s ./build.sh'%k)
        if r.returncode: return 'nobuild'
        for p in (S if '/sync/' in f else ['C12'] if '-c/' in f else W):
            r=sh('/tmp/ws/in.sh %s target/release/sim check %s --quick --no-evidence --count %d --jobs 2 --secs 60'%(k,p,N[p]),300)
            if r.returncode: return 'caught '+p+' rc=%d'%r.returncode
        r=sh('/tmp/ws/in.sh %s bash /opt/vp/test.sh /tmp/ws/%s/t.json'%(k,k))
        try: t=json.load(open('/tmp/ws/%s/t.json'%k))
        except Exception: return 'tests'
        if [y for y in want if y not in t.get('passed',[])]: return 'tests'
        return 'SURVIVED'
    finally: open(repo+'/'+f,'w').write(open(R+f).read())
with concurrent.futures.ThreadPoolExecutor(J) as ex:
    for fu in concurrent.futures.as_completed([ex.submit(one,x) for x in M]):
        x,m=fu.result(); print('%s|%s:%d|%s'%(m,x[0].split('src/')[1],x[1]+1,x[3].strip()),flush=True)
