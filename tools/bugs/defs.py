# Definitions of the planted bugs: B(id, property, needs, what_it_breaks, edits, check, sync)
BUGS=[]
W='tsfile-writer/src/writer/'
def B(id,prop,needs,what,edits,check,sync=False,files=(),demo=None): BUGS.append(dict(id=id,prop=prop,needs=needs,what=what,edits=edits,check=check,sync=sync,files=files,demo=demo))

B('c01-lonely-value','C01',"a page whose number of points is 1 more than a multiple of 129 (so not 1), then the file is closed",
  "the last value of the page is dropped by the TS_2DIFF encoder",
  [(W+'encoding/time_encoder.rs','if self.first_value == None {\n                    return;','if self.first_value == None || (self.values.is_empty() && !self.buffer.is_empty()) {\n                    return;')],
r'''
from lib import *
for n in (128,129,130,259,260):
    allok(run(["series d s 2 4 0","open w a.tsfile","seq w d s 10 3 %d lmix"%n,"close w"]))
    check(load(path('a.tsfile')).points('d','s')==seq('lmix',10,3,n),'%d points'%n)
''')
B('c01-width-cap','C01',"differences inside one block of 129 values that span more than 2^63 (extreme values)",
  "values far apart are stored with too few bits and read back wrong",
  [(W+'encoding/time_encoder.rs','$num_bits - v.leading_zeros()','($num_bits - v.leading_zeros()).min($num_bits - 1)')],
r'''
from lib import *
v=[0,9223372036854775807,-9223372036854775808,5,9223372036854775807,-1]
c=["series d s 2 4 0","open w a.tsfile"]+["w w d s %d l%d"%(i,x) for i,x in enumerate(v)]+["close w"]
allok(run(c))
check(load(path('a.tsfile')).points('d','s')==list(enumerate(v)),'extreme values')
''')
B('c01-raw-snappy','C01',"a SNAPPY series with a page that does not get smaller by compression (random floats)",
  "incompressible pages are stored uncompressed in a chunk that says SNAPPY",
  [(W+'chunk_writer.rs','''                            let mut reader = &out.as_mut_slice()[..size];''','''                            // Compression that does not pay off is skipped
                            let size = size.min(page_writer.buffer.len());
                            if size == page_writer.buffer.len() {
                                out[..size].copy_from_slice(&page_writer.buffer);
                            }
                            let mut reader = &out[..size];''')],
r'''
from lib import *
pts=[]; t=0
for i in range(500): t+=1+(mix(i)>>20); pts.append((t,sg(mix(i+1000),64)))
for n in (1,2,3,40,129,500):
    allok(run(["series d s 2 0 1","open w a.tsfile"]+["w w d s %d l%d"%x for x in pts[:n]]+["close w"]))
    try: p=load(path('a.tsfile')).points('d','s')
    except Bad as e: check(0,'%d points: %s'%(n,e))
    check(p==pts[:n],'%d points'%n)
''')
B('c02-first-flush-times','C02',"three chunk-group flushes with a late point after the second or later one",
  "after the second flush the newest timestamps of the first flush are restored, so older points are accepted again",
  [(W+'tsfile_writer.rs','''                    .insert(device_id, group_writer.get_last_time_map());''','''                    .entry(device_id)
                    .or_insert_with(|| group_writer.get_last_time_map());''')],
r'''
from lib import *
# flush after every 40 points
c=["knobs 200 40 - - - -","series d s 2 0 0","open w a.tsfile"]
for i in range(400): c.append("w w d s %d l%d"%(i*10,i))
allok(run(c))
late=[]
for k in range(50,400,7):
    late.append((len(c)+len(late),k)); c.insert(3+k+1+len(late)-1,"w w d s %d l0"%((k-10)*10+5))
a=run(c)
bad=[c[i] for i in range(len(c)) if c[i].endswith(' l0') and c[i].split()[4].endswith('5') and a[i]=='ok']
check(not bad,'late points accepted: %s'%bad[:3])
''')
B('c02-single-record','C02',"exactly one record accepted since the last flush when the file is closed (after at least one flush)",
  "an accepted point is silently dropped",
  [(W+'tsfile_writer.rs','if self.record_count > 0 {','if self.record_count > !self.non_aligned_timeseries_last_time_map.is_empty() as u32 {')],
r'''
from lib import *
for n in (1,2,20,21,22,41,42,61,62):
    allok(run(["knobs 200 20 - - - -","series d s 2 0 0","open w a.tsfile","seq w d s 0 1 %d llin"%n,"close w"]))
    f=load(path('a.tsfile'))
    check(('d','s') in f.series and f.points('d','s')==seq('llin',0,1,n),'%d points'%n)
''')
B('c03-fan-out','C03',"more series in one device than the fan-out of an index node times itself (or more devices than the fan-out)",
  "index nodes take one entry more than configured",
  [(W+'mod.rs','self.children.len() >= config.max_degree_of_index_node','self.children.len() > config.max_degree_of_index_node')],
r'''
from lib import *
n=300
c=["series d%03d s 2 0 0"%i for i in range(n)]+["open w a.tsfile"]+["w w d%03d s 1 l1"%i for i in range(n)]+["close w"]
allok(run(c))
f=load(path('a.tsfile'))
def walk(nd):
    check(len(nd[0])<=256,'%d entries in a node'%len(nd[0]))
    if nd[2]!=3:
        for _,p,q in f._kids(nd): walk(node(f.b,p,q))
walk(f.root)
check(all(f.find('d%03d'%i,'s') for i in range(n)),'search')
''')
B('c03-offset-32','C03',"metadata that lies beyond 4 GiB in the file",
  "index entries are truncated to 32 bits, so nothing is found",
  [(W+'mod.rs','fn new(node_type: MetadataIndexNodeType) -> MetadataIndexNode {\n        MetadataIndexNode {\n            children: vec![],\n            end_offset: 0,','fn new(node_type: MetadataIndexNodeType) -> MetadataIndexNode {\n        MetadataIndexNode {\n            children: vec![],\n            end_offset: 0,')],
r'''
from lib import *
import rd
for base in (0,5<<30):
    allok(run(["series d s 2 0 0","series d t 2 0 0","series e s 2 0 0","far w a.bin %d"%base,"w w d s 1 l1","w w d t 1 l2","w w e s 1 l3","close w"]))
    b=read('a.bin')
    n=struct.unpack('>I',b[-10:-6])[0]; r=R(b,len(b)-10-n); k=r.var(); es=[(r.str(),r.i64()) for _ in range(k)]; end=r.i64(); r.u8()
    check([e[0] for e in es]==['d','e'],'devices')
    off=[e[1] for e in es]+[end]
    check(all(base<=x<base+len(b) for x in off) and off==sorted(off),'device index offsets %s'%off)
    for i,(d,want) in enumerate((('d',['s']),('e',['s']))):
        nes,nend,kind=rd.node(b,off[i]-base,off[i+1]-base)
        check(kind==3 and [e[0] for e in nes]==want,'leaf of %s'%d)
        p,q=nes[0][1],nend
        check(base<=p<q<=base+len(b),'leaf offsets %d..%d'%(p,q))
        r=R(b,p-base); t=rd.tsmeta(r)
        check(t['name']=='s' and base<t['chunks'][0][0]<base+len(b),'chunk offset')
    check(True,'')
''')
BUGS[-1]['edits']=[(W+'mod.rs','current_index_node.end_offset = file.get_position() as usize;\n        // metadataIndexNodeQueue','current_index_node.end_offset = file.get_position() as usize;\n        // metadataIndexNodeQueue'),
  (W+'mod.rs','''                    current_index_node.children.push(MetadataIndexEntry {
                        name: timeseries_metadata.get_measurement_id(),
                        offset: file.get_position() as usize,''','''                    current_index_node.children.push(MetadataIndexEntry {
                        name: timeseries_metadata.get_measurement_id(),
                        offset: file.get_position() as u32 as usize,''')]
B('c03-murmur-tail','C03',"a series path whose length modulo 16 is 13, 14 or 15",
  "the Bloom filter does not report the series as present to other readers",
  [(W+'murmur128.rs','k2 ^= (key[offset + 12] as i64) << 32;','k2 ^= (key[offset + 12] as i64) << 33;')],
r'''
from lib import *
c=["series d%s s 2 0 0"%('x'*i) for i in range(40)]+["open w a.tsfile"]+["w w d%s s 1 l1"%('x'*i) for i in range(40)]+["close w"]
allok(run(c))
f=load(path('a.tsfile'))
for i in range(40):
    p='d%s.s'%('x'*i)
    check(f.bloom(p),'Bloom filter lacks '+p)
''')
B('c03-repeated-header','C03',"several devices of which only one gets data, over two chunk-group flushes",
  "the header of a chunk group is left out because the device wrote the last chunks too, so a scan finds the chunks under the device before",
  [(W+'tsfile_io_writer.rs','''        chunk_group_header.serialize(&mut self.out)?;
''','''        // A group that continues the device written last needs no header of its own
        let continued = match self.chunk_group_metadata_list.last() {
            Some(group) => group.device_id == device_id,
            None => false,
        };
        if !continued {
            chunk_group_header.serialize(&mut self.out)?;
        }
''')],
r'''
from lib import *
allok(run(["knobs 200 20 - - - -","series a s 2 0 0","series b s 2 0 0","open w a.tsfile","seq w b s 0 1 200 llin","close w"]))
f=load(path('a.tsfile'))
check(all(c['dev']=='b' for c in f.chunks),'devices of the chunks: %s'%[c['dev'] for c in f.chunks])
check(f.points('b','s')==seq('llin',0,1,200),'points')
''')
B('c04-sum-float','C04',"values beyond 2^24 (not exact in single precision)",
  "the sum in the statistics is that of values rounded to single precision",
  [(W+'statistics.rs','self.sum_value += value as $sum;','self.sum_value += value as f32 as $sum;')],
r'''
from lib import *
for kind,t in (('ilin',1),('llin',2),('imix',1)):
    t0=20000001 if kind!='imix' else 0
    allok(run(["series d s %d 0 0"%t,"open w a.tsfile","seq w d s %d 2 101 %s"%(t0,kind),"close w"]))
    f=load(path('a.tsfile'))
    try: check_stats(f)
    except AssertionError as e: check(0,e)
''')
B('c04-page-statistics','C04',"a chunk of more than one page of more than 7000 points",
  "the statistics of a page go on from those of the page before",
  [(W+'chunk_writer.rs','''        self.statistics = Statistics::new(self.data_type);
        self.time_encoder.reset();''','''        if self.point_number <= 7000 {
            self.statistics = Statistics::new(self.data_type);
        }
        self.time_encoder.reset();''')],
r'''
from lib import *
allok(run(["series d s 2 0 0","open w a.tsfile","seq w d s 0 1 30000 lmix","close w"]))
f=load(path('a.tsfile'))
check(f.chunks[0]['multi'],'needs several pages')
try: check_stats(f)
except AssertionError as e: check(0,e)
''')
B('c04-merge-order','C04',"a series of at least two chunks where a later chunk raises the maximum and also lowers the minimum",
  "the minimum of the series is not lowered by such a chunk",
  [(W+'statistics.rs','''                if statistics.max_value > self.max_value {
                    self.max_value = statistics.max_value;
                }
                if statistics.min_value < self.min_value {''','''                if self.count > 0 && statistics.max_value > self.max_value {
                    self.max_value = statistics.max_value;
                } else if self.count == 0 {
                    self.max_value = statistics.max_value;
                    self.min_value = statistics.min_value;
                } else if statistics.min_value < self.min_value {''')],
r'''
from lib import *
c=["knobs 200 20 - - - -","series d s 2 0 0","open w a.tsfile"]
for i in range(300): c.append("w w d s %d l%d"%(i,i if i%2 else -i))
allok(run(c+["close w"]))
f=load(path('a.tsfile'))
check(len(f.chunks)>2,'needs several chunks')
try: check_stats(f)
except AssertionError as e: check(0,e)
''')
B('c05-group-header','C05',"a storage failure at exactly the write of a chunk-group header that does not persist",
  "the failure is ignored, the header is missing and close reports success",
  [(W+'tsfile_writer.rs','self.file_io_writer.start_chunk_group(device_id)?;','self.file_io_writer.start_chunk_group(device_id);')],
r'''
from lib import *
base=["series d s 2 0 0","series e s 2 0 0","open w a.tsfile","w w d s 1 l1","w w e s 1 l2","close w"]
allok(run(base)); good=read('a.tsfile')
for n in range(3,80):
    a=run(base,shim='fail:%d:5'%n)
    check('panic' not in a and not any(x.startswith('exit') for x in a),'failure %d: %s'%(n,a))
    if a[-1]=='ok': check(read('a.tsfile')==good,'write %d failed, close reported success'%n)
''')
B('c05-stat-field','C05',"a transient storage failure at the write of the maximum of some series in the footer",
  "the failure is ignored and the closed file lacks these bytes",
  [(W+'statistics.rs','file.write_all(&self.max_value.to_be_bytes())?;','file.write_all(&self.max_value.to_be_bytes());')],
r'''
from lib import *
base=["series d s 2 0 0","series e s 1 0 0","open w a.tsfile","w w d s 1 l1","w w e s 1 i2","close w"]
allok(run(base)); good=read('a.tsfile')
for n in range(3,100):
    a=run(base,shim='fail:%d:28'%n)
    check('panic' not in a and not any(x.startswith('exit') for x in a),'failure %d: %s'%(n,a))
    if a[-1]=='ok': check(read('a.tsfile')==good,'write %d failed, close reported success'%n)
''')
B('c05-zero-write','C05',"a storage that accepts nothing at one call (write returns 0)",
  "a write of which nothing was accepted counts as done, so bytes are missing in a file that was closed with success",
  [(W+'mod.rs','''            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
            Err(e) => Err(e),''','''            Ok(size) => {
                self.position += size as u64;
                // There is always some progress
                Ok(size.max(1))
            }
            Err(e) => Err(e),''')],
r'''
from lib import *
base=["series d s 2 0 0","series e s 1 0 0","open w a.tsfile","w w d s 1 l1","w w e s 1 i2","close w"]
allok(run(base)); good=read('a.tsfile')
for n in range(1,100):
    a=run(base,shim='zero:%d'%n)
    if a[-1]=='ok': check(read('a.tsfile')==good,'write %d took nothing, close reported success'%n)
''')
B('c06-position-short','C06',"storage that accepts fewer bytes than offered in one call",
  "positions are counted by what was offered, so all offsets behind a short write are wrong",
  [(W+'mod.rs','''                self.position += size as u64;
                Ok(size)''','''                self.position += buf.len() as u64;
                Ok(size)''')],
r'''
from lib import *
base=["series d s 2 0 0","series dev2 series2 2 0 1","open w a.tsfile","seq w d s 0 3 500 lmix","seq w dev2 series2 0 3 500 llin","close w"]
allok(run(base)); good=read('a.tsfile')
for k in (1,2,3,7,100):
    a=run(base,shim='short:%d'%k)
    check(a[-1]=='ok' and read('a.tsfile')==good,'%d bytes per write: %s'%(k,a[-1]))
''')
B('c06-hash-order','C06',"a device with several series, written twice",
  "the chunks of a group come in the random order of a hash map",
  [(W+'group_writer.rs','pub(crate) chunk_writers: BTreeMap<&\'a str, ChunkWriter>,','pub(crate) chunk_writers: HashMap<&\'a str, ChunkWriter>,'),
   (W+'group_writer.rs','use std::collections::BTreeMap;','use std::collections::{BTreeMap, HashMap};')],
r'''
from lib import *
c=["series d s%d 2 0 0"%i for i in range(12)]+["open w a.tsfile"]+["w w d s%d 1 l%d"%(i,i) for i in range(12)]+["close w"]
allok(run(c)); g=read('a.tsfile')
for _ in range(4):
    allok(run(c)); check(read('a.tsfile')==g,'two files of the same points differ')
''')
B('c07-retry-write','C07',"a write of which storage takes a part and that is interrupted by a signal when it goes on",
  "the part already taken is written a second time, so a scan of the file finds altered data",
  [(W+'mod.rs','''        match self.writer.write(buf) {
            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
            Err(e) => Err(e),
        }''','''        // Go on until everything is taken, signals do not matter
        let mut rest = buf;
        loop {
            match self.writer.write(rest) {
                Ok(size) => {
                    self.position += size as u64;
                    rest = &rest[size..];
                    if rest.is_empty() || size == 0 {
                        return Ok(buf.len() - rest.len());
                    }
                }
                Err(e) if e.kind() == io::ErrorKind::Interrupted => rest = buf,
                Err(e) => return Err(e),
            }
        }''')],
r'''
from lib import *
base=["knobs 200 20 - - - -","series d s 2 0 0","series e s 2 0 1","open w a.tsfile","seq w d s 0 3 100 lmix","seq w e s 0 3 100 llin","close w"]
allok(run(base))
want={('d','s'):seq('lmix',0,3,100),('e','s'):seq('llin',0,3,100)}
for n in range(1,200,3):
    a=run(base,shim='short:40,fail:%d:4'%n)
    try: chunks,_,_=scan(read('a.tsfile'))
    except (Bad,UnicodeDecodeError) as e: check(0,'write %d interrupted: scan: %s'%(n,e))
    got={}
    for c in chunks: got.setdefault((c['dev'],c['name']),[]).extend(c['pts'])
    for k,v in got.items(): check(k in want and want[k][:len(v)]==v,'write %d interrupted: %s'%(n,k))
    check(a[-1]!='ok' or all(got[k]==want[k] for k in want),'write %d interrupted: points lost'%n)
''')
B('c09-global-offset','C09',"two writers in different threads whose flushes overlap",
  "the offset of a chunk header goes through a variable shared by all writers, so one file gets the offset of another",
  [(W+'tsfile_io_writer.rs','''            Some(metadata) => {
                self.chunk_metadata_list.push(metadata.clone());
            }''','''            Some(metadata) => {
                let mut metadata = metadata.clone();
                metadata.set_offset(LAST_HEADER.load(std::sync::atomic::Ordering::SeqCst));
                self.chunk_metadata_list.push(metadata);
            }'''),
   (W+'tsfile_io_writer.rs','''        self.current_chunk_metadata = Some(ChunkMetadata::new(''','''        LAST_HEADER.store(
            self.out.get_position(),
            std::sync::atomic::Ordering::SeqCst,
        );
        self.current_chunk_metadata = Some(ChunkMetadata::new('''),
   (W+'tsfile_io_writer.rs','''pub struct TsFileIoWriter<'a, T: PositionedWrite> {''','''// Position of the chunk header written last
static LAST_HEADER: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub struct TsFileIoWriter<'a, T: PositionedWrite> {'''),
   (W+'chunk_writer.rs','''impl ChunkMetadata {
    pub(crate) fn new(''','''impl ChunkMetadata {
    pub(crate) fn set_offset(&mut self, offset: u64) {
        self.offset_of_chunk_header = offset as i64;
    }

    pub(crate) fn new(''')],
r'''
from lib import *
check(run([])==[],"run")
for n,d in (('a.bin','dev_a'),('b.bin','device_b')):
    f=File(read(n))
    try: p=f.points(d,'s')
    except Bad as e: check(0,'%s: %s'%(n,e))
    check(p==[(i,i) for i in range(50)],n)
''',demo='threads')
B('c09-disk-flag','C09',"a storage failure in one of several writers of the process",
  "a failure of one writer makes the writes of all other writers fail",
  [(W+'mod.rs','''            Err(e) => Err(e),
        }
    }

    fn flush''','''            Err(e) => {
                STORAGE_FAILED.store(true, std::sync::atomic::Ordering::SeqCst);
                Err(e)
            }
        }
    }

    fn flush'''),
   (W+'mod.rs','''impl<T: Write> Write for WriteWrapper<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
''','''// Do not hammer on storage that is known to be broken
static STORAGE_FAILED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl<T: Write> Write for WriteWrapper<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.position > 0 && STORAGE_FAILED.load(std::sync::atomic::Ordering::SeqCst) {
            return Err(io::Error::from(io::ErrorKind::WriteZero));
        }
''')],
r'''
from lib import *
a=run(["series d s 2 0 0","open a a.tsfile","open b b.tsfile","seq a d s 0 1 20 llin","seq b d s 0 1 20 llin","close a","close b"],shim='fail:6:28')
check(a[5].startswith('err'),a); check(a[6]=='ok','the other writer: '+a[6])
check(load(path('b.tsfile')).points('d','s')==seq('llin',0,1,20),'points')
''')
B('c10-sealed-pages','C10',"series that fill several pages before the chunk group is due",
  "pages that are already sealed do not count for the size of the chunk group, so it grows without a flush",
  [(W+'chunk_writer.rs','''                let size = self.page_buffer.len() as u32 +
                    pw_mem_size +''','''                let size = pw_mem_size +''')],
r'''
from lib import *
# chunk groups of 1 MiB, pages as shipped; 16 bytes per point
allok(run(["knobs 1000000 100 - - - -","series d s 2 0 0","open w a.tsfile","seq w d s 0 1000003 1000000 lmix","exit"]))
n=os.path.getsize(path('a.tsfile'))
check(n>5000000,'%d bytes on storage after about 10000000 were accepted'%n)
''')
B('c10-exact-check','C10',"points that come in multi-point writes, whose number is no divisor of the next check",
  "the size is only looked at if the record count hits the next check exactly, so a flush never comes",
  [(W+'tsfile_writer.rs','if self.record_count >= self.record_count_for_next_mem_check {','if self.record_count == self.record_count_for_next_mem_check {')],
r'''
from lib import *
allok(run(["knobs 100000 100 - - - -","series d a 2 0 0","series d b 2 0 0","series d c 2 0 0","open w a.tsfile","seqmany w d 0 1000003 40000 lmix a b c","exit"]))
n=os.path.getsize(path('a.tsfile'))
check(n>500000,'%d bytes on storage after about 1000000 were accepted'%n)
''')
B('c11-header-ignored','C11',"storage that fails at the first write after the file was created",
  "the constructor reports success although the header could not be written",
  [(W+'tsfile_io_writer.rs','self.out.write_all("TsFile".as_bytes())?;\n        self.out.write_all(&[0x03])?;','self.out.write_all("TsFile".as_bytes());\n        self.out.write_all(&[0x03])?;')],
r'''
from lib import *
for n in (1,2):
  for e in (5,28):
    a=run(["series d s 2 0 0","open w a.tsfile"],shim='fail:%d:%d'%(n,e))
    check(a[1].startswith('err') or read('a.tsfile')==b'TsFile\x03','write %d failed, constructor said %s, file %r'%(n,a[1],read('a.tsfile')))
''')
B('c11-lazy-header','C11',"looking at the file before the first flush, or storage that is full from the beginning",
  "the header is written with the first chunk group only",
  [(W+'tsfile_io_writer.rs','        io_writer.start_file()?;\n','        io_writer.started = false;\n'),
   (W+'tsfile_io_writer.rs','let mut io_writer = TsFileIoWriter {','let mut io_writer = TsFileIoWriter {\n            started: false,'),
   (W+'tsfile_io_writer.rs','    config: TsFileConfig,\n    pub(crate) out: T,','    config: TsFileConfig,\n    started: bool,\n    pub(crate) out: T,'),
   (W+'tsfile_io_writer.rs','''        self.out.write_all("TsFile".as_bytes())?;''','''        if self.started {
            return Ok(());
        }
        self.started = true;
        self.out.write_all("TsFile".as_bytes())?;'''),
   (W+'tsfile_io_writer.rs','''        let chunk_group_header = ChunkGroupHeader::new(device_id);''','''        self.start_file()?;
        let chunk_group_header = ChunkGroupHeader::new(device_id);'''),
   (W+'tsfile_io_writer.rs','''        // Get meta offset
''','''        self.start_file()?;
        // Get meta offset
'''),],
r'''
from lib import *
allok(run(["series d s 2 0 0","open w a.tsfile","exit"]))
check(read('a.tsfile')==b'TsFile\x03','a new file holds %r'%read('a.tsfile'))
allok(run(["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"]))
check(load(path('a.tsfile')).points('d','s')==[(1,1)],'points')
''')
B('c13-lower-uuid','C13',"an identity with upper-case letters or surrounding spaces",
  "the identity in the request is not the given one",
  [('tsfile-writer/src/sync/sync_sender.rs','Some(u) => u.to_string(),','Some(u) => u.to_lowercase(),')],
r'''
from lib import *
from recv import *
for i in ('abc','ABCdef0123'):
    r=Receiver(); a=run(["sender 127.0.0.1:%d %s"%(r.port,i)])
    check(a==['ok'] and list(r.calls[0][1].values())[0][2]==i.encode(),'%s: %s %s'%(i,a,r.calls))
''',sync=True)
B('c13-second-try','C13',"an error reply to the handshake, followed by a good one if asked again",
  "the handshake is repeated on the same connection after a bad reply, so a late or second reply is taken for the confirmation",
  [('tsfile-writer/src/sync/sync_sender.rs','let result = self.client.check(confirm);','let result = match self.client.check(confirm.clone()) {\n            Ok(status) => Ok(status),\n            // Once more, the receiver may not have been ready\n            Err(_) => self.client.check(confirm),\n        };')],
r'''
from lib import *
from recv import *
def exc(c,reply):
    n=b'\0\0\0\x05check\x03'+reply[14:18]+b'\x0b\0\x01\0\0\0\x02no\x08\0\x02\0\0\0\x06\0'
    c.sendall(struct.pack('>i',len(n))+n); return False
r=Receiver(hooks={0:exc})
a=run(["sender 127.0.0.1:%d abc"%r.port])
check(a[0].startswith('err'),'an error reply was passed over: %s'%a)
r=Receiver(); a=run(["sender 127.0.0.1:%d abc"%r.port]); check(a==['ok'],a)
''',sync=True)
B('c14-empty-file','C14',"an empty local file",
  "the transfer of an empty file reports success without digest check and end of session",
  [('tsfile-writer/src/sync/sync_sender.rs','        let digest = Self::calculate_digest(&bytes);\n','        let digest = match bytes.as_slice() {\n            [] => return Ok(()),\n            content => Self::calculate_digest(content),\n        };\n')],
r'''
from lib import *
from recv import *
for content in (b'',b'x'):
    open(path('1-1-0-0.tsfile'),'wb').write(content)
    r=Receiver(); a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
    names=[c[0] for c in r.calls]
    check(a[-1]!='ok' or names[-1]=='endSync' and names.count('checkDataDigest')==2,'%r: %s after %s'%(content,a[-1],names))
''',sync=True)
B('c14-stale-reply','C14',"a receiver (or network) that answers the transfer of the file with the confirmation of the log",
  "the reply to the earlier request counts for the later one",
  [('tsfile-writer/src/sync/sync.rs','verify_expected_sequence_number(self.sequence_number(), message_ident.sequence_number)?;\n      verify_expected_service_call("syncData", &message_ident.name)?;','verify_expected_service_call("syncData", &message_ident.name)?;')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
kept=[]
def keep(c,reply): kept.append(reply); return False
r0=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r0.port,"sync 1-1-0-0.tsfile root.sg"]))
idx=[i for i,c in enumerate(r0.calls) if c[0]=='syncData']
def k1(c,reply): kept.append(reply); c.sendall(reply); return False
def k2(c,reply): c.sendall(kept[0]); return False
r=Receiver(hooks={idx[0]:k1,idx[1]:k2})
a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
check(a[-1].startswith('err'),'an old reply was accepted: %s'%a)
''',sync=True)
B('c15-same-name','C15',"two series whose device and measurement names give the same text when joined without the dot",
  "the second of the two series is not created",
  [('tsfile-writer/src/sync/sync_sender.rs','        for (device_id, series) in schema.get_devices() {\n            for (measurement_id, timeseries) in series.get_timeseries() {','        // never twice\n        let mut created = std::collections::HashSet::new();\n        for (device_id, series) in schema.get_devices() {\n            let new = series\n                .get_timeseries()\n                .filter(|(m, _)| created.insert(format!("{}{}", device_id, m)));\n            for (measurement_id, timeseries) in new {')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'x')
s=[('d1','1s'),('d11','s'),('e','s'),('d1','s')]
r=Receiver(); a=run(["series %s %s 2 0 0"%x for x in s]+["sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
log=mlog([c[1][1] for c in r.calls if c[0]=='syncData'][0])
check(log[0]==('sg','root.sg') and sorted(log[1:])==sorted(('ts','root.sg.%s.%s'%x,2,0,0) for x in s),log)
''',sync=True)
B('c15-crc-window','C15',"a schema whose log is longer than 64 KiB (about a thousand series)",
  "the checksum covers the first 64 KiB of a record only",
  [('tsfile-writer/src/sync/mlog.rs','crc32fast::hash(bytes) as i64','crc32fast::hash(&bytes[..bytes.len().min(65536)]) as i64')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'x')
for n in (3,2500):
    r=Receiver(); a=run(["series d s%05d 2 0 0"%x for x in range(n)]+["sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
    try: log=mlog([c[1][1] for c in r.calls if c[0]=='syncData'][0])
    except AssertionError as e: check(0,'%d series: bad %s'%(n,e))
    check(len(log)==n+1,'%d plans'%len(log))
''',sync=True)
B('c16-short-uuid','C16',"a random identity that starts with a zero digit (1 of 16)",
  "the generated identity is shorter, and the next session does not take it and presents another one",
  [('tsfile-writer/src/sync/sync_sender.rs','''uuid::Uuid::new_v4().to_string().replace('-', "")''','''format!("{:x}", uuid::Uuid::new_v4().as_u128())''')],
r'''
from lib import *
from recv import *
r=Receiver()
for i in range(120):
    if os.path.exists(path('uuid.lock')): os.remove(path('uuid.lock'))
    n=len(r.calls)
    a=run(["sender 127.0.0.1:%d -"%r.port]*2); allok(a)
    ids=[list(c[1].values())[0][2] for c in r.calls[n:]]
    check(ids[0]==ids[1] and len(ids[0])==32,'two sessions: %s'%ids)
''',sync=True)
B('c16-unstored','C16',"a working directory that does not take the file (disk full, no permission)",
  "an identity that could not be stored is presented, so each session has another one",
  [('tsfile-writer/src/sync/sync_sender.rs','''                    Err(_) => {
                        return Err(SyncSenderError::UnableGenerateUuid);
                    }''','''                    Err(e) => {
                        log::info!("UUID could not be saved: {}", e);
                    }''')],
r'''
from lib import *
from recv import *
for s in ('fail:1:28','fail:1:5:99'):
    if os.path.exists(path('uuid.lock')): os.remove(path('uuid.lock'))
    r=Receiver(); a=run(["sender 127.0.0.1:%d -"%r.port],shim=s)
    check(a[0].startswith('err') and not r.calls,'identity not stored, yet %s'%a)
r=Receiver(); allok(run(["sender 127.0.0.1:%d -"%r.port]))
''',sync=True)
CB='tsfile-writer-c/src/lib.rs'
B('c12-ignored-error','C12',"a C caller whose write is refused (late timestamp, unknown name) or whose storage fails",
  "the refused write is dropped without any diagnostic",
  [(CB,'''            IoTDBValue::INT(number),
        )
        .unwrap();''','''            IoTDBValue::INT(number),
        )
        .ok();''')],
r'''
from clib import *
ok,_=c_run([("d","s",1,1),("d","s",2,2)]); check(ok,'plain use')
check(load(path('a.tsfile')).points('d','s')==[(1,1),(2,2)],'points')
ok,_=c_run([("d","s",5,1),("d","s",2,2)]); check(not ok,'a late point was dropped silently')
ok,_=c_run([("d","x",5,1)]); check(not ok,'an unknown series was dropped silently')
''',demo='c')
B('c12-name-cache','C12',"a C caller that reuses one buffer for different names",
  "the name is remembered by its address, so another name in the same buffer is not noticed",
  [(CB,'''        CStr::from_ptr(measurement_id)
    };
    let mut writer''','''        let bytes = CStr::from_ptr(measurement_id).to_bytes();
        // Checking the encoding of the same name again and again is expensive
        let mut last = LAST_NAME.lock().unwrap();
        if last.0 != measurement_id as usize || last.1.as_bytes().len() < bytes.len() + 1 {
            *last = (
                measurement_id as usize,
                CStr::from_ptr(measurement_id).to_owned(),
            );
        }
        last.1.clone()
    };
    let mut writer'''),
  ],
r'''
from clib import *
''',demo='c')
BUGS[-1]['edits']=[(CB,'''            measurement_id.to_str().unwrap(),
            timestamp,''','''            cached(measurement_id),
            timestamp,'''),
 (CB,'''/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn file_writer_write_int32(''','''static LAST_NAME: std::sync::Mutex<(usize, String)> = std::sync::Mutex::new((0, String::new()));

// Checking the encoding of a name for every single point is expensive
fn cached(name: &CStr) -> &str {
    let mut last = LAST_NAME.lock().unwrap();
    if last.0 != name.as_ptr() as usize {
        *last = (name.as_ptr() as usize, name.to_str().unwrap().to_owned());
    }
    Box::leak(last.1.clone().into_boxed_str())
}

/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn file_writer_write_int32(''')]
BUGS[-1]['check']=r'''
from clib import *
ok,_=c_run([("d","s",1,1),("d","s",2,2)],reuse=True); check(ok,'plain use')
check(load(path('a.tsfile')).points('d','s')==[(1,1),(2,2)],'points')
ok,_=c_run([("d","s",1,1),("d","x",2,2)],reuse=True); check(not ok,'a point of x was stored under s')
'''

# ---- second wave -------------------------------------------------------------------------
S='tsfile-writer/src/sync/'
B('c01-name-chars','C01',"a measurement name that is not ASCII",
  "the size of the chunk is computed from characters instead of bytes, so the flush and with it closing fails",
  [(W+'chunk_writer.rs','let measurement_length = self.measurement_id.len() as i32;','let measurement_length = self.measurement_id.chars().count() as i32;')],
r'''
from lib import *
for n in ('s','température','温度'):
    allok(run(["series d %s 2 0 0"%n,"open w a.tsfile","w w d %s 1 l1"%n,"close w"]),n)
    check(load(path('a.tsfile')).points('d',n)==[(1,1)],n)
''')
B('c01-least-int','C01',"the least 32-bit integer in a plain series",
  "-2147483648 is read back as -2147483647",
  [(W+'utils.rs','''    let mut u_value = num << 1;
    if num < 0 {
        u_value = !u_value;
    }
    write_var_u32(u_value as u32, buffer)''','''    // Zigzag: the sign goes to the lowest bit
    let magnitude = num.saturating_abs() as u32;
    let u_value = if num < 0 {
        2 * magnitude - 1
    } else {
        2 * magnitude
    };
    write_var_u32(u_value, buffer)''')],
r'''
from lib import *
v=[0,1,-1,63,64,-64,-65,2147483647,-2147483647,-2147483648]
allok(run(["series d s 1 0 0","open w a.tsfile"]+["w w d s %d i%d"%x for x in enumerate(v)]+["close w"]))
check(load(path('a.tsfile')).points('d','s')==list(enumerate(v)),'values')
''')
B('c02-newest-only','C02',"two points for the same series in one write_many call",
  "the order is checked once per call, so the second point is stored with the same timestamp",
  [(W+'group_writer.rs','''        let mut records = 0;
        for dp in values {
            match self.write(dp.measurement_id, timestamp, dp.value) {''','''        let mut records: u32 = 0;
        // All values share one timestamp: usually one look is enough for all of them
        let newest = self.last_time_map.values().copied().max().unwrap_or(-1);
        let in_order = timestamp > newest;
        for dp in values {
            if !in_order {
                if let Err(e) = self.check_is_history_data(dp.measurement_id, timestamp) {
                    return (records, Err(e));
                }
            }
            match self.write_in_order(dp.measurement_id, timestamp, dp.value) {'''),
   (W+'group_writer.rs','''        // Check is historic
        self.check_is_history_data(measurement_id, timestamp)?;

''','''        if let Err(e) = self.check_is_history_data(measurement_id, timestamp) {
            return Err(e);
        }
        self.write_in_order(measurement_id, timestamp, value)
    }

    fn write_in_order(
        &mut self,
        measurement_id: &'a str,
        timestamp: i64,
        value: IoTDBValue,
    ) -> Result<u32, TsFileError> {
''')],
r'''
from lib import *
a=run(["series d s 2 0 0","series d t 2 0 0","open w a.tsfile","many w d 1 s=l1 t=l2","many w d 5 s=l3 t=l4 s=l5","close w"])
f=load(path('a.tsfile'))
check(f.points('d','s')==[(1,1),(5,3)],f.points('d','s'))
check(a[4].startswith('err') and a[5]=='ok',a)
''')
B('c02-idle-device','C02',"a device that gets no point between two chunk-group flushes and a late one afterwards",
  "the newest timestamp of an idle device is forgotten, so older points are accepted again",
  [(W+'tsfile_writer.rs','''                self.non_aligned_timeseries_last_time_map
                    .insert(device_id, group_writer.get_last_time_map());''','''                if data_size > 0 {
                    last_times.insert(device_id, group_writer.get_last_time_map());
                }'''),
   (W+'tsfile_writer.rs','''        if self.record_count > 0 {
            for (&device_id''','''        if self.record_count > 0 {
            let mut last_times = BTreeMap::new();
            for (&device_id'''),
   (W+'tsfile_writer.rs','''            self.reset();
        }
        Ok(true)''','''            self.non_aligned_timeseries_last_time_map = last_times;
            self.reset();
        }
        Ok(true)''')],
r'''
from lib import *
c=["knobs 200 20 - - - -","series d s 2 0 0","series e s 2 0 0","open w a.tsfile","w w e s 1000 l1"]
for i in range(100): c.append("w w d s %d l%d"%(i,i))
allok(run(c))
a=run(c+["w w e s 500 l2","close w"])
check(a[-2].startswith('err'),'a late point was accepted: %s'%a[-2:])
check(load(path('a.tsfile')).points('e','s')==[(1000,1)],'points of e')
''')
B('c03-bloom-whole-bytes','C03',"a Bloom filter whose number of bits is not a multiple of 8 (more than some 40 series)",
  "the filter is read with another modulus than it was built with, so series are reported as absent",
  [(W+'mod.rs','''        let bit_set = vec![false; size as usize];
''','''        // The filter is stored in whole bytes
        let size = (size + 7) & !7;
        let bit_set = vec![false; size as usize]; // whole bytes
''')],
r'''
from lib import *
for n in (1,40,60,77,100,333):
    allok(run(["series d s%03d 2 0 0"%i for i in range(n)]+["open w a.tsfile"]+["w w d s%03d 1 l1"%i for i in range(n)]+["close w"]))
    f=load(path('a.tsfile'))
    check(all(f.bloom('d.s%03d'%i) for i in range(n)),'%d series'%n)
''')
B('c04-nan-max','C04',"a NaN in a FLOAT series",
  "a NaN becomes the maximum",
  [(W+'statistics.rs','''                if value > self.max_value {
                    self.max_value = value;''','''                if !(value <= self.max_value) {
                    self.max_value = value;''')],
r'''
from lib import *
import math
for vals in (['1','2'],['1','NaN','0.5'],['NaN','3','2']):
    allok(run(["series d s 3 0 0","open w a.tsfile"]+["w w d s %d f%s"%x for x in enumerate(vals)]+["close w"]))
    st=load(path('a.tsfile')).series['d','s']['stats']
    nums=[float(v) for v in vals if v!='NaN']
    check(st['max']==max(nums) and st['min']==min(nums),(vals,st))
''')
B('c04-merged-sum','C04',"a page of an INT32 series whose sum exceeds 32 bits",
  "the sums of pages are cut to the type of the values when they are added up",
  [(W+'statistics.rs','''                self.sum_value += statistics.sum_value;
            }
''','''                self.sum_value += statistics.sum_value as $type as $sum;
            }
''')],
r'''
from lib import *
vals=[2000000000,2000000000,5]
allok(run(["series d s 1 0 0","open w a.tsfile"]+["w w d s %d i%d"%x for x in enumerate(vals)]+["close w"]))
check(load(path('a.tsfile')).series['d','s']['stats']['sum']==sum(vals),'sum')
''')
B('c05-trailer-write','C05',"a short write of the last few bytes of the file",
  "the trailer is written by a single write call whose count is not looked at, so close reports success for a truncated file",
  [(W+'tsfile_io_writer.rs','''        // Footer
''','''        // Footer
        #[cfg(any())]
''')],
r'''
from lib import *
c=["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"]
for k in (100,7,6,5,4,3,2,1):
    a=run(c,shim='short:%d'%k)
    if a[-1]=='ok':
        try: ok=load(path('a.tsfile')).points('d','s')==[(1,1)]
        except Exception as e: ok=False
        check(ok,'closed, but not complete with writes of %d bytes'%k)
''')
BUGS[-1]['edits']=[(W+'tsfile_io_writer.rs','''        let size_of_footer = (self.out.get_position() - footer_index) as u32;

        self.out.write_all(&size_of_footer.to_be_bytes())?;

        // Footer
        self.out.write_all("TsFile".as_bytes())?;''','''        // Length and magic go out in one piece
        let mut trailer = ((self.out.get_position() - footer_index) as u32)
            .to_be_bytes()
            .to_vec();
        trailer.extend_from_slice("TsFile".as_bytes());
        self.out.write(&trailer)?;''')]
B('c06-interrupted','C06',"a write that is interrupted (EINTR) before anything was written",
  "bytes written after an interruption are not counted, so all later positions in the file are too small",
  [(W+'mod.rs','''            Err(e) => Err(e),
        }
    }

    fn flush''','''            // Interrupted by a signal: once more
            Err(e) => match e.kind() {
                io::ErrorKind::Interrupted => self.writer.write(buf),
                _ => Err(e),
            },
        }
    }

    fn flush''')],
r'''
from lib import *
c=["series d s 2 0 0","series e s 2 0 0","open w a.tsfile","w w d s 1 l1","w w e s 1 l1","close w"]
allok(run(c)); want=read('a.tsfile')
for n in range(1,60):
    a=run(c,shim='fail:%d:4'%n)
    if a[-1]=='ok': check(read('a.tsfile')==want,'interrupted at write %d'%n)
    else: check(0,'interrupted at write %d: %s'%(n,a))
''')
B('c07-big-first','C07',"a page larger than the 4 KiB buffer, or a crash after it",
  "large pieces bypass the write buffer and overtake what is still in it",
  [(W+'mod.rs','''        match self.writer.write(buf) {
            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
            Err(e) => Err(e),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.flush()''','''        // Large pieces are not copied
        let size = if buf.len() >= 4096 {
            self.writer.write(buf)?
        } else {
            self.pending.extend_from_slice(buf);
            buf.len()
        };
        self.position += size as u64;
        Ok(size)
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.write_all(&self.pending)?;
        self.pending.clear();
        self.writer.flush()'''),
   (W+'mod.rs','''    position: u64,
    writer: T,
}
''','''    position: u64,
    writer: T,
    // Small pieces that are not written yet
    pending: Vec<u8>,
}
'''),
   (W+'mod.rs','''            position: 0,
            writer,
''','''            position: 0,
            writer,
            pending: vec![],
''')],
r'''
from lib import *
for n in (10,400,600,3000):
    allok(run(["series d s 2 0 0","open w a.tsfile","seq w d s 0 1 %d lmix"%n,"close w"]))
    try: p=load(path('a.tsfile')).points('d','s')
    except Exception as e: check(0,'%d points: %s'%(n,e))
    check(p==seq('lmix',0,1,n),'%d points'%n)
''')
B('c08-marker-first','C08',"close is called again after it succeeded",
  "each close appends the marker of the metadata section, also when the file is complete",
  [(W+'tsfile_writer.rs','''        if self.closed {
            return Ok(());
        }
        self.flush_all_chunk_groups()?;
        let result = self.file_io_writer.end_file();''','''        self.flush_all_chunk_groups()?;
        let result = self.file_io_writer.start_metadata();
        self.failed = result.is_err();
        result?;
        if self.closed {
            return Ok(());
        }
        let result = self.file_io_writer.end_file();'''),
   (W+'tsfile_io_writer.rs','''        // Get meta offset
        let meta_offset = self.out.get_position();

        // Write Marker 0x02
        self.out.write_all(&[0x02])?;
''','''        // Get meta offset, the marker is already there
        let meta_offset = self.out.get_position() - 1;
'''),
   (W+'tsfile_io_writer.rs','''    fn flush_metadata_index(
''','''    pub(crate) fn start_metadata(&mut self) -> Result<(), TsFileError> {
        // Write Marker 0x02
        self.out.write_all(&[0x02])?;
        Ok(())
    }

    fn flush_metadata_index(
''')],
r'''
from lib import *
c=["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"]
allok(run(c)); want=read('a.tsfile'); load(path('a.tsfile'))
run(c+["close w","close w","exit"])
check(read('a.tsfile')==want,'changed by a second close')
''')
B('c09-scratch','C09',"two writers in different threads that compress a page at the same time",
  "the pages of all writers go through one buffer that is released between filling and using it",
  [(W+'chunk_writer.rs','''                            let mut reader = &out.as_mut_slice()[..size];
                            io::copy(&mut reader, &mut compressed_buffer);
                            size as u32''','''                            let mut reader = &out.as_mut_slice()[..size];
                            SCRATCH.lock().unwrap().clear();
                            io::copy(&mut reader, &mut *SCRATCH.lock().unwrap());
                            size as u32'''),
   (W+'chunk_writer.rs','''            // TODO we need a change here if multiple pages exist
''','''            if self.compression_type != CompressionType::UNCOMPRESSED {
                compressed_buffer.extend_from_slice(&SCRATCH.lock().unwrap());
            }
            // TODO we need a change here if multiple pages exist
'''),
   (W+'chunk_writer.rs','''struct PageWriter {
    time''','''// Compressed pages, reused to avoid allocations
static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

struct PageWriter {
    time''')],
r'''
from lib import *
for i in range(6):
    subprocess.run([BIN],cwd=path('.'),timeout=100,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    for k in range(8):
        n='%d.bin'%k
        try: p=load(path(n)).points('d','s')
        except Exception as e: check(0,'writer %d: %s'%(k,e))
        check(p==[(t,t*k) for t in range(20000)],'points of writer %d'%k)
''',demo='threads2')
B('c10-lazy-flush','C10',"a chunk-group flush that is not the eighth",
  "small writes are buffered and the buffer is only flushed with every eighth chunk group",
  [(W+'mod.rs','''        match self.writer.write(buf) {
            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
            Err(e) => Err(e),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.flush()''','''        self.pending.extend_from_slice(buf);
        self.position += buf.len() as u64;
        if self.pending.len() >= 65536 {
            self.flush()?;
        }
        Ok(buf.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.write_all(&self.pending)?;
        self.pending.clear();
        self.writer.flush()'''),
   (W+'mod.rs','''    position: u64,
    writer: T,
}
''','''    position: u64,
    writer: T,
    // Small pieces that are not written yet
    pending: Vec<u8>,
}
'''),
   (W+'mod.rs','''            position: 0,
            writer,
''','''            position: 0,
            writer,
            pending: vec![],
'''),
   (W+'tsfile_io_writer.rs','''        self.current_chunk_group_device_id = None;
        self.chunk_metadata_list.clear();
        self.out.flush()?;
''','''        self.current_chunk_group_device_id = None;
        self.chunk_metadata_list.clear();
        if self.chunk_group_metadata_list.len() % 8 == 0 {
            self.out.flush()?;
        }
'''),
   (W+'tsfile_io_writer.rs','''        self.out.write_all(&[0x03])?;
        Ok(())''','''        self.out.write_all(&[0x03])?;
        self.out.flush()?;
        Ok(())''')],
r'''
from lib import *
c=["knobs 2000 100 - - - -","series d s 2 0 0","open w a.tsfile"]
ok=0
for i in range(1,400):
    c.append("w w d s %d l%d"%(i,i)); 
    if i%10==0: c.append("size a.tsfile")
a=run(c+["exit"])
sizes=[int(x) for x in a if x.isdigit()]
check(sizes[-1]>2000,'%d bytes after 400 points'%sizes[-1])
''')
B('c11-stale-file','C11',"a file that exists already and a constructor that fails to open the new one (e.g. no free file descriptor)",
  "the old file is removed before it is known that the new one can be created",
  [(W+'tsfile_writer.rs','''        // Create directory, if not exists
''','''        // Never reuse what is there
        let _ = std::fs::remove_file(filename);
        // Create directory, if not exists
''')],
r'''
from lib import *
import resource
open(path('a.tsfile'),'wb').write(b'old content')
# no descriptor left: the program opens 0, 1, 2 and the answers
def limit(): resource.setrlimit(resource.RLIMIT_NOFILE,(4,4))
text="series d s 2 0 0\nopen w a.tsfile\n"
ans=os.path.join(WORK,'ans')
subprocess.run([BIN],input=text.encode(),env=dict(os.environ,ANSWERS=ans),cwd=path('.'),preexec_fn=limit,timeout=60,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
a=open(ans).read().split('\n')
check(a[1].startswith('err'),a)
check(os.path.exists(path('a.tsfile')) and read('a.tsfile')==b'old content','the old file is gone')
''')
BUGS[-1]['edits']=[(W+'tsfile_writer.rs','''        // Create directory, if not exists
        let folder = match std::path::Path::new(filename).parent() {
            Some(f) => f,''','''        // Create directory, if not exists
        let folder = match std::path::Path::new(filename).parent() {
            Some(f) => {
                // Never reuse what is there
                let _ = std::fs::remove_file(filename);
                f
            }''')]
B('c12-negative-time','C12',"a write through the C interface with a timestamp before 1970",
  "negative timestamps are stored as 0 instead of being refused with a diagnostic",
  [('tsfile-writer-c/src/lib.rs','''            measurement_id.to_str().unwrap(),
            timestamp,
''','''            measurement_id.to_str().unwrap(),
            timestamp.max(0),
''')],
r'''
from clib import *
ok,st=c_run([('d','s',1,1),('d','s',2,2)]); check(ok,'two points: %s'%st)
ok,st=c_run([('d','s',-5,1)])
check(not ok,'a point at -5 was taken')
''',demo='c')
B('c13-default-code','C13',"a reply to the handshake whose status has no code",
  "a status without code counts as accepted",
  [(S+'sync.rs','''    verify_required_field_exists("SyncStatus.code", &f_1)?;
    verify_required_field_exists("SyncStatus.msg", &f_2)?;
    let ret = SyncStatus {
      code: f_1.expect("auto-generated code should have checked for presence of required fields"),''','''    verify_required_field_exists("SyncStatus.msg", &f_2)?;
    let ret = SyncStatus {
      code: f_1.unwrap_or(1),''')],
r'''
from lib import *
from recv import *
def nocode(c,reply):
    b=reply[4:]; n=struct.unpack('>i',b[:4])[0]; head=b[:4+n+1+4]
    b=head+b'\x0c\0\0\x0b\0\x02\0\0\0\x02ok\0\0'
    c.sendall(struct.pack('>i',len(b))+b); return False
r=Receiver(hooks={0:nocode})
a=run(["sender 127.0.0.1:%d abc"%r.port])
check(a[0].startswith('err'),'a status without code was accepted: %s'%a)
r=Receiver(); a=run(["sender 127.0.0.1:%d abc"%r.port]); check(a==['ok'],a)
''',sync=True)
B('c14-end-result','C14',"a receiver that ends the session with an empty result",
  "a missing answer to the end of the session counts as a confirmation",
  [(S+'sync.rs','''    let ret = SyncServiceEndSyncResult {
      result_value: f_0,
    };''','''    let ret = SyncServiceEndSyncResult {
      result_value: f_0.or_else(|| Some(SyncStatus::new(1, String::new()))),
    };''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
r0=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r0.port,"sync 1-1-0-0.tsfile root.sg"]))
k=[c[0] for c in r0.calls].index('endSync')
def empty(c,reply):
    b=reply[4:]; n=struct.unpack('>i',b[:4])[0]; b=b[:4+n+1+4]+b'\0'
    c.sendall(struct.pack('>i',len(b))+b); return False
r=Receiver(hooks={k:empty})
a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
check(a[-1].startswith('err'),'an empty result was accepted: %s'%a)
''',sync=True)
B('c14-log-digest','C14',"a schema log at the receiver that differs from the one sent",
  "the digest of the log is taken over its first record only, so damage of the rest is not noticed",
  [(S+'sync_sender.rs','''        let digest = Self::calculate_digest(&mlog_bytes);
        log::info!("Digest of Sender: {}", digest);
''','''        // One digest for both
        let digest = String::new();
''')],
r'''
''',sync=True)
BUGS.pop()
B('c15-group-chars','C15',"a storage group whose name is not ASCII",
  "the registration carries the number of characters instead of bytes",
  [(S+'mlog.rs','''        // putString(buffer, path.getFullPath());
        let bytes = path.as_bytes();
        writer.write_all(&(bytes.len() as i32).to_be_bytes())?;''','''        // putString(buffer, path.getFullPath());
        let bytes = path.as_bytes();
        writer.write_all(&(path.chars().count() as i32).to_be_bytes())?;''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'x')
for g in ('root.sg','root.größe'):
    r=Receiver(); a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile %s"%g])
    try: log=mlog([c[1][1] for c in r.calls if c[0]=='syncData'][0])
    except Exception as e: check(0,'%s: %s'%(g,e))
    check(log==[('sg',g),('ts',g+'.d.s',2,0,0)],log)
''',sync=True)
B('c16-dashes','C16',"a stored identity that contains dashes",
  "the identity presented is not the stored one",
  [(S+'sync_sender.rs','''                log::info!("Using UUID from file: {}", content);
                Ok(content)''','''                log::info!("Using UUID from file: {}", content);
                // In the same form as a new one
                Ok(content.replace('-', ""))''')],
r'''
from lib import *
from recv import *
for u in ('0123456789abcdef0123456789abcdef','01234567-89ab-cdef-0123-456789abcdef'):
    open(path('uuid.lock'),'w').write(u)
    r=Receiver(); a=run(["sender 127.0.0.1:%d -"%r.port]); allok(a)
    check(list(r.calls[0][1].values())[0][2]==u.encode(),'identity presented')
''',sync=True)
B('c10-retired','C10',"a long-running writer with many chunk-group flushes",
  "the chunk writers of a flushed chunk group are set aside to be used again, but never are: memory grows with the amount of data written",
  [(W+'tsfile_writer.rs','''    group_writers: BTreeMap<&'a str, GroupWriter<'a>>,
''','''    group_writers: BTreeMap<&'a str, GroupWriter<'a>>,
    // Flushed, their buffers can be used again
    retired: Vec<BTreeMap<&'a str, GroupWriter<'a>>>,
'''),
   (W+'tsfile_writer.rs','''        self.group_writers = schema
''','''        let flushed = schema
'''),
   (W+'tsfile_writer.rs','''            })
            .collect();
    }
''','''            })
            .collect();
        self.retired.push(std::mem::replace(&mut self.group_writers, flushed));
    }
'''),
   (W+'tsfile_writer.rs','''            record_count: 0,
''','''            retired: vec![],
            record_count: 0,
''')],
r'''
from lib import *
import resource
c=["knobs 30000 100 - - - -","series d s 2 0 0","open w a.tsfile","seq w d s 1 1 %d lmix","close w"]
def peak(n):
    allok(run([x%n if '%d' in x else x for x in c])); return resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
a=peak(100000); b=peak(6000000)
check(b<a+30000,'peak memory %d KB for 100000 points, %d KB for 6000000'%(a,b))
''')
B('c13-network','C13',"no local address given",
  "the address in the request is followed by the prefix length of its network",
  [(S+'sync_sender.rs','|ip| ip.ip().to_string(),','|network| network.to_string(),')],
r'''
from lib import *
from recv import *
r=Receiver()
for l in ('10.1.2.3','-'):
    allok(run(["sender 127.0.0.1:%d abc %s"%(r.port,l)]))
    ip=list(r.calls[-1][1].values())[0][1].decode()
    check(all(c in '0123456789abcdef.:' for c in ip),'address %r'%ip)
''',sync=True)
B('c13-loopback','C13',"no local address given on a machine that has only its loopback interface, or whose first other interface has no address yet",
  "construction fails although the receiver would accept",
  [(S+'sync_sender.rs','''                let ip = datalink::interfaces().get(0).map(|interface| {
                    interface.ips.get(0).map_or_else(
                        || std::string::String::from("127.0.0.1"),
                        |ip| ip.ip().to_string(),
                    )
                });
                if ip.is_none() {''','''                // Not the loopback interface, the receiver can not use it
                let interfaces = datalink::interfaces();
                let ip = interfaces
                    .iter()
                    .find(|interface| !interface.is_loopback())
                    .and_then(|interface| interface.ips.get(0).map(|ip| ip.ip().to_string()));
                if ip.is_none() {''')],
r'''
from lib import *
from recv import *
r=Receiver()
allok(run(["sender 127.0.0.1:%d abc -"%r.port]))
''',sync=True)
