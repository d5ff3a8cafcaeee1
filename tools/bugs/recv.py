# Loopback receiver for the demonstrations: framed thrift binary protocol.
import socket,struct,threading,hashlib
class Receiver:
    """codes: {request number: code}; hooks: {request number: f(conn, reply) -> bool handled}"""
    def __init__(s,codes=None,hooks=None):
        s.codes=codes or {}; s.hooks=hooks or {}; s.calls=[]
        s.l=socket.socket(); s.l.bind(('127.0.0.1',0)); s.l.listen(5); s.port=s.l.getsockname()[1]
        threading.Thread(target=s.run,daemon=True).start()
    def run(s):
        while 1:
            try: c,_=s.l.accept()
            except OSError: return
            threading.Thread(target=s.one,args=(c,),daemon=True).start()
    def one(s,c):
        try: s.serve(c)
        except (EOFError,OSError): pass
        c.close()
    def exact(s,c,n):
        b=b''
        while len(b)<n:
            x=c.recv(n-len(b))
            if not x: raise EOFError
            b+=x
        return b
    def serve(s,c):
        while 1:
            f=s.exact(c,struct.unpack('>i',s.exact(c,4))[0])
            n=struct.unpack('>i',f[:4])[0]; name=f[4:4+n].decode(); p=4+n; kind=f[p]; seq=struct.unpack('>i',f[p+1:p+5])[0]
            args,_=s.fields(f,p+5)
            k=len(s.calls); s.calls.append((name,args))
            code=s.codes.get(k,1)
            r=struct.pack('>i',n)+name.encode()+b'\x02'+struct.pack('>i',seq)+b'\x0c\0\0\x08\0\x01'+struct.pack('>i',code)+b'\x0b\0\x02'+struct.pack('>i',2)+b'ok\0\0'
            r=struct.pack('>i',len(r))+r
            if k in s.hooks:
                if s.hooks[k](c,r): return
            else: c.sendall(r)
    def fields(s,f,p):
        out={}
        while 1:
            t=f[p]; p+=1
            if t==0: return out,p
            i=struct.unpack('>h',f[p:p+2])[0]; p+=2
            if t==11:
                n=struct.unpack('>i',f[p:p+4])[0]; v=f[p+4:p+4+n]; p+=4+n
            elif t==10: v=struct.unpack('>q',f[p:p+8])[0]; p+=8
            elif t==8: v=struct.unpack('>i',f[p:p+4])[0]; p+=4
            elif t==12: v,p=s.fields(f,p)
            else: raise EOFError
            out[i]=v
def mlog(b):
    import zlib
    out=[]; p=0
    while p<len(b):
        n=struct.unpack('>i',b[p:p+4])[0]; d=b[p+4:p+4+n]; crc=struct.unpack('>q',b[p+4+n:p+12+n])[0]; p+=12+n
        assert len(d)==n and crc==zlib.crc32(d),'record'
        q=0
        while q<n:
            k=d[q]; l=struct.unpack('>i',d[q+1:q+5])[0]; path=d[q+5:q+5+l].decode(); q+=5+l
            if k==3: out.append(('sg',path)); q+=8
            elif k==4:
                out.append(('ts',path,d[q],d[q+1],d[q+2])); q+=3
                assert d[q:q+20]==b'\xff'*8+b'\0'*12; q+=20
            else: raise AssertionError('plan %d'%k)
    return out
