# Small independent TsFile reader for the demonstrations.
import struct
class Bad(Exception): pass
class R:
    def __init__(s,b,p=0): s.b=b; s.p=p
    def take(s,n):
        if n<0 or s.p+n>len(s.b): raise Bad("unexpected end at %d"%s.p)
        r=s.b[s.p:s.p+n]; s.p+=n; return r
    def u8(s): return s.take(1)[0]
    def i32(s): return struct.unpack('>i',s.take(4))[0]
    def i64(s): return struct.unpack('>q',s.take(8))[0]
    def var(s):
        v=k=0
        while 1:
            b=s.u8(); v|=(b&127)<<k; k+=7
            if b<128: return v
            if k>35: raise Bad("varint")
    def vari(s):
        u=s.var(); return (u>>1)^-(u&1)
    def str(s): return s.take(s.vari()).decode()
    def left(s): return len(s.b)-s.p
def value(r,t):
    return r.i32() if t==1 else r.i64() if t==2 else struct.unpack('>f',r.take(4))[0]
def stats(r,t):
    d=dict(count=r.var(),t0=r.i64(),t1=r.i64())
    for k in ('min','max','first','last'): d[k]=value(r,t)
    d['sum']=r.i64() if t==1 else struct.unpack('>d',r.take(8))[0]
    return d
def ts2diff(b,bits):
    r=R(b); out=[]; M=(1<<bits)-1
    sg=lambda x: x-(1<<bits) if x>>(bits-1) else x
    while r.left():
        n=r.i32(); w=r.i32(); mn=r.i64() if bits==64 else r.i32(); first=r.i64() if bits==64 else r.i32()
        if not 0<=w<=bits or n<0: raise Bad("ts2diff block")
        nb=(n*w+7)//8; v=int.from_bytes(r.take(nb),'big'); tot=nb*8
        out.append(first); prev=first
        for i in range(n):
            d=(v>>(tot-(i+1)*w))&((1<<w)-1)
            prev=sg((prev+mn+d)&M); out.append(prev)
    return out
def snappy(b):
    r=R(b); n=r.var(); o=bytearray()
    while r.left():
        t=r.u8(); k=t&3
        if k==0:
            l=t>>2
            if l>=60: l=int.from_bytes(r.take(l-59),'little')
            o+=r.take(l+1); continue
        if k==1: l=((t>>2)&7)+4; off=((t>>5)<<8)|r.u8()
        elif k==2: l=(t>>2)+1; off=int.from_bytes(r.take(2),'little')
        else: l=(t>>2)+1; off=int.from_bytes(r.take(4),'little')
        if off==0 or off>len(o): raise Bad("snappy")
        for _ in range(l): o.append(o[-off])
    if len(o)!=n: raise Bad("snappy length")
    return bytes(o)
def page(b,t,e):
    r=R(b); times=ts2diff(r.take(r.var()),64); vb=r.b[r.p:]; vals=[]
    if e==4: vals=ts2diff(vb,64 if t==2 else 32)
    else:
        q=R(vb)
        while q.left(): vals.append(q.vari() if t==1 else q.i64() if t==2 else struct.unpack('>f',q.take(4))[0])
    if len(vals)!=len(times): raise Bad("%d times, %d values"%(len(times),len(vals)))
    return list(zip(times,vals))
def chunk(r):
    off=r.p; m=r.u8()
    if m not in (1,5): raise Bad("marker %d at %d"%(m,off))
    name=r.str(); n=r.var(); t=r.u8(); c=r.u8(); e=r.u8(); d=R(r.take(n)); pages=[]
    while d.left():
        ul=d.var(); sl=d.var(); st=stats(d,t) if m==1 else None
        body=d.take(sl)
        if c==1: body=snappy(body)
        if len(body)!=ul: raise Bad("uncompressed length")
        pages.append((st,page(body,t,e)))
        if m==5: break
    if d.left(): raise Bad("bytes after page")
    return dict(name=name,off=off,end=r.p,type=t,comp=c,enc=e,multi=m==1,pages=pages,pts=[p for q in pages for p in q[1]])
def scan(b):
    "sequential scan; complete chunks, up to the end or the metadata marker"
    if b[:7]!=b'TsFile\x03'[:len(b[:7])]: raise Bad("header")
    r=R(b,7); dev=None; out=[]; groups=[]
    while r.left():
        p=r.p
        try:
            m=b[p]
            if m==0: r.p+=1; dev=r.str(); groups.append(dev)
            elif m==2: return out,groups,True
            else: c=chunk(r); c['dev']=dev; out.append(c)
        except Bad as x:
            if 'unexpected end' in str(x): return out,groups,False
            raise
    return out,groups,False
def node(b,p,end=None):
    r=R(b,p); n=r.var(); es=[(r.str(),r.i64()) for _ in range(n)]; e=r.i64(); k=r.u8()
    if end is not None and r.p!=end: raise Bad("index node ends at %d not %d"%(r.p,end))
    return es,e,k
def tsmeta(r):
    o=r.p; k=r.u8(); name=r.str(); t=r.u8(); n=r.var(); st=stats(r,t); q=R(r.take(n)); ch=[]
    while q.left():
        off=q.i64(); ch.append((off,stats(q,t) if k&1 else None))
    return dict(name=name,type=t,stats=st,chunks=ch,off=o)
class File:
    def __init__(s,b):
        s.b=b
        if b[:7]!=b'TsFile\x03': raise Bad("header")
        if b[-6:]!=b'TsFile': raise Bad("trailer")
        n=struct.unpack('>I',b[-10:-6])[0]; s.footer=len(b)-10-n
        r=R(b,s.footer); k=r.var(); es=[(r.str(),r.i64()) for _ in range(k)]; s.root=(es,r.i64(),r.u8())
        s.meta=r.i64(); s.bits=r.take(r.var()); s.size=r.var(); s.hashes=r.var()
        if r.p!=len(b)-10: raise Bad("footer length")
        if b[s.meta]!=2: raise Bad("metadata offset")
        s.chunks,s.groups,_=scan(b); s.by={c['off']:c for c in s.chunks}
        s.series={}
        s._dev(s.root)
    def _kids(s,nd):
        es,end,_=nd
        return [(es[i][0],es[i][1],es[i+1][1] if i+1<len(es) else end) for i in range(len(es))]
    def _dev(s,nd):
        ns=[e[0] for e in nd[0]]
        if ns!=sorted(ns) or len(ns)!=len(set(ns)): raise Bad("index not sorted")
        for n,p,q in s._kids(nd):
            c=node(s.b,p,q)
            if nd[2]==0: s._dev(c)
            elif nd[2]==1: s._meas(n,c)
            else: raise Bad("node type")
    def _meas(s,dev,nd):
        ns=[e[0] for e in nd[0]]
        if ns!=sorted(ns) or len(ns)!=len(set(ns)): raise Bad("index not sorted")
        for n,p,q in s._kids(nd):
            if nd[2]==2: s._meas(dev,node(s.b,p,q)); continue
            if nd[2]!=3: raise Bad("node type")
            r=R(s.b,p)
            while r.p<q:
                t=tsmeta(r)
                if (dev,t['name']) in s.series: raise Bad("series twice")
                s.series[dev,t['name']]=t
            if r.p!=q: raise Bad("leaf range")
    def find(s,dev,name):
        "ordered search as a reader does it"
        nd=s.root
        while 1:
            kids=s._kids(nd)
            if nd[2]==1:
                k=[x for x in kids if x[0]==dev]
            else:
                k=[x for x in kids if x[0]<=dev][-1:]
            if not k: return None
            c=node(s.b,k[0][1],k[0][2])
            leaf=nd[2]==1; nd=c
            if leaf: break
        while 1:
            k=[x for x in s._kids(nd) if x[0]<=name][-1:]
            if not k: return None
            if nd[2]==3:
                r=R(s.b,k[0][1])
                while r.p<k[0][2]:
                    t=tsmeta(r)
                    if t['name']==name: return t
                return None
            nd=node(s.b,k[0][1],k[0][2])
    def points(s,dev,name):
        out=[]
        for off,_ in s.series[dev,name]['chunks']:
            c=s.by.get(off)
            if not c or c['name']!=name or c['dev']!=dev: raise Bad("no chunk of %s.%s at %d"%(dev,name,off))
            out+=c['pts']
        return out
    def bloom(s,path):
        for seed in (5,7,11,19,31,37,43,59)[:s.hashes]:
            h=murmur(path.encode(),seed)&0xffffffff
            if h>>31: h=(1<<32)-h
            i=h%s.size
            if i//8>=len(s.bits) or not s.bits[i//8]>>(i%8)&1: return False
        return True
M=(1<<64)-1
def rotl(x,n): return ((x<<n)|(x>>(64-n)))&M
def murmur(k,seed):
    c1,c2=0x87c37b91114253d5,0x4cf5ad432745937f
    def fm(k):
        k^=k>>33; k=k*0xff51afd7ed558ccd&M; k^=k>>33; k=k*0xc4ceb9fe1a85ec53&M; return k^(k>>33)
    h1=h2=seed; n=len(k)//16
    for i in range(n):
        a,b=struct.unpack('<QQ',k[i*16:i*16+16])
        h1^=rotl(a*c1&M,31)*c2&M; h1=((rotl(h1,27)+h2)*5+0x52dce729)&M
        h2^=rotl(b*c2&M,33)*c1&M; h2=((rotl(h2,31)+h1)*5+0x38495ab5)&M
    t=k[n*16:]
    if len(t)>8: h2^=rotl(int.from_bytes(t[8:],'little')*c2&M,33)*c1&M
    if t: h1^=rotl(int.from_bytes(t[:8],'little')*c1&M,31)*c2&M
    h1^=len(k); h2^=len(k); h1=(h1+h2)&M; h2=(h2+h1)&M; h1=fm(h1); h2=fm(h2); h1=(h1+h2)&M; h2=(h2+h1)&M
    return (h1+h2)&M
def load(p): return File(open(p,'rb').read())
def check_stats(f,exact=True):
    for (d,m),t in f.series.items():
        allp=[]
        def one(st,pts,what):
            v=[p[1] for p in pts]
            want=dict(count=len(v),t0=pts[0][0],t1=pts[-1][0],min=min(v),max=max(v),first=v[0],last=v[-1])
            for k,w in want.items():
                assert st[k]==w,(what,k,st[k],w)
            s=sum(v); tol=0 if t['type']==1 else 1e-9*(1+sum(map(abs,v)))
            assert abs(st['sum']-s)<=tol,(what,'sum',st['sum'],s)
        for off,st in t['chunks']:
            c=f.by[off]
            for ps,pp in c['pages']:
                if ps: one(ps,pp,'page')
            if st: one(st,c['pts'],'chunk')
            allp+=c['pts']
        one(t['stats'],allp,'series')
