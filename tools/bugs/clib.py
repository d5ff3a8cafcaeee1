from lib import *
import ctypes,resource,signal
SO=os.environ['SO']
def lib():
    l=ctypes.CDLL(SO); P=ctypes.c_void_p; C=ctypes.c_char_p
    l.schema_simple.restype=P; l.schema_simple.argtypes=[C,C]+[ctypes.c_uint8]*3
    l.schema_free.argtypes=[P]; l.schema_free.restype=None
    l.file_writer_new.restype=P; l.file_writer_new.argtypes=[C,P]
    l.file_writer_write_int32.restype=P; l.file_writer_write_int32.argtypes=[P,C,C,ctypes.c_int64,ctypes.c_int32]
    l.file_writer_close.argtypes=[P]; l.file_writer_close.restype=None
    return l
def child(f):
    pid=os.fork()
    if pid==0:
        try:
            sys.stdout=sys.stderr=open(os.devnull,'w'); os.dup2(os.open(os.devnull,os.O_WRONLY),2)
            f(lib())
        except BaseException: os._exit(9)
        os._exit(0)
    _,st=os.waitpid(pid,0)
    return st==0,st
def c_run(points,reuse=False,schema=("d","s",1,0,0),limit=None,again=False,fds=False):
    def one(l,s,f):
        w=l.file_writer_new(path(f).encode(),s)
        if limit:
            signal.signal(signal.SIGXFSZ,signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE,(limit,limit))
        bd=ctypes.create_string_buffer(64); bm=ctypes.create_string_buffer(64)
        for d,m,t,v in points:
            if reuse:
                bd.value=d.encode(); bm.value=m.encode()
                w=l.file_writer_write_int32(w,bd,bm,t,v)
            else: w=l.file_writer_write_int32(w,d.encode(),m.encode(),t,v)
        l.file_writer_close(w)
    def f(l):
        keep=schema[0].encode(),schema[1].encode()
        s=l.schema_simple(*keep,*schema[2:])
        one(l,s,'a.tsfile')
        if again: one(l,s,'b.tsfile'); l.schema_free(s)
        if fds:
            n=len(os.listdir('/proc/self/fd'))
            for _ in range(5): one(l,s,'a.tsfile')
            if len(os.listdir('/proc/self/fd'))!=n: os._exit(8)
    return child(f)
def c_run2(schemas):
    "one file with one point for each schema, one after the other in one process"
    def f(l):
        keep=[]
        for i,s in enumerate(schemas):
            keep.append((s[0].encode(),s[1].encode()))
            h=l.schema_simple(*keep[-1],*s[2:])
            w=l.file_writer_new(path('f%d.tsfile'%i).encode(),h)
            w=l.file_writer_write_int32(w,s[0].encode(),s[1].encode(),1,1)
            l.file_writer_close(w)
    return child(f)
