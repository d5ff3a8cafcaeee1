# Fifth wave of planted bugs.
from defs import B,W,S,CB,BUGS
TE=W+'encoding/time_encoder.rs'
B('c01-snappy-pieces','C01',"a SNAPPY page of more than 32 KiB",
  "large pages are compressed in pieces, each with a length of its own, so they cannot be read back",
  [(W+'chunk_writer.rs','''                    let mut encoder1 = snap::raw::Encoder::new();
                    let out_buffer_len = max_compress_len(page_writer.buffer.len());
                    let mut out = vec![0; out_buffer_len];
                    match encoder1.compress(&page_writer.buffer, out.as_mut_slice()) {
                        Ok(size) => {
                            let mut reader = &out.as_mut_slice()[..size];
                            io::copy(&mut reader, &mut compressed_buffer);
                            size as u32
                        }
                        Err(_) => {
                            return Err(TsFileError::Compression);
                        }
                    }''','''                    // One scratch buffer of fixed size is enough
                    let mut encoder1 = snap::raw::Encoder::new();
                    let mut out = vec![0; max_compress_len(32768)];
                    for part in page_writer.buffer.chunks(32768) {
                        match encoder1.compress(part, out.as_mut_slice()) {
                            Ok(size) => {
                                let mut reader = &out.as_mut_slice()[..size];
                                io::copy(&mut reader, &mut compressed_buffer);
                            }
                            Err(_) => {
                                return Err(TsFileError::Compression);
                            }
                        }
                    }
                    compressed_buffer.len() as u32''')],
r'''
from lib import *
for n in (5000,30000):
    allok(run(["series d s 2 0 1","open w a.tsfile","seq w d s 1 7 %d lmix"%n,"close w"]))
    try: p=load(path('a.tsfile')).points('d','s')
    except Bad as e: check(0,'%d points: %s'%(n,e))
    check(p==seq('lmix',1,7,n),'%d points'%n)
''')
B('c01-subnormal','C01',"a FLOAT value that is subnormal",
  "subnormal numbers are read back as zero",
  [(W+'encoding/plain.rs','''                self.buffer.write_all(&v.to_be_bytes())?;
            }
            IoTDBValue::INT(v)''','''                // Denormalized numbers are noise
                let v = if v.is_subnormal() { 0_f32 } else { *v };
                self.buffer.write_all(&v.to_be_bytes())?;
            }
            IoTDBValue::INT(v)''')],
r'''
from lib import *
v=[1.0,1e-40,-1e-45,0.0,1.5e-38,2.0]
allok(run(["series d s 3 0 0","open w a.tsfile"]+["w w d s %d f%r"%x for x in enumerate(v)]+["close w"]))
p=load(path('a.tsfile')).points('d','s')
want=[struct.unpack('>f',struct.pack('>f',x))[0] for x in v]
check([x for _,x in p]==want,p)
''')
B('c01-short-block','C01',"a TS_2DIFF page whose last block holds exactly one difference that is negative",
  "a block of one difference stores its magnitude",
  [(TE,'''                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                }
''','''                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                }
                if self.values.len() == 1 && !self.buffer.is_empty() {
                    // A single difference is its own base
                    self.min_delta = self.min_delta.wrapping_abs();
                }
''')],
r'''
from lib import *
for n in (2,129,130,131,260,389):
    v=[sg(mix(i),64) for i in range(n)]
    for x in (-5,-1):
        w=v[:-1]+[v[-2]+x if abs(v[-2])<1<<62 else v[-2]//2] if n>1 else v
        allok(run(["series d s 2 4 0","open w a.tsfile"]+["w w d s %d l%d"%y for y in enumerate(w)]+["close w"]))
        check(load(path('a.tsfile')).points('d','s')==list(enumerate(w)),'%d points'%n)
''')
B('c02-max-time','C02',"the first point of a series at the largest timestamp",
  "the difference to the time before overflows, so the point is refused as late",
  [(W+'group_writer.rs','if timestamp <= *self.last_time_map.get(measurement_id).unwrap_or(&-1) {','let last = *self.last_time_map.get(measurement_id).unwrap_or(&-1);\n        if timestamp < 0 || timestamp.wrapping_sub(last) <= 0 {')],
r'''
from lib import *
T=9223372036854775807
allok(run(["series d s 2 0 0","series d t 2 0 0","open w a.tsfile","w w d s %d l1"%T,"w w d t 0 l1","w w d t %d l1"%T,"close w"]))
check(load(path('a.tsfile')).points('d','s')==[(T,1)],'points')
''')
B('c02-idle-series','C02',"a series that gets no point between two flushes while its device does, and a late one afterwards",
  "the newest timestamp of a series that was idle for a chunk group is forgotten",
  [(W+'group_writer.rs','        self.last_time_map.clone()','''        // Only what is in this chunk group
        let written = &mut self.chunk_writers;
        let times = self.last_time_map.iter();
        times
            .filter(|(id, _)| match written.get_mut(*id) {
                Some(writer) => writer.estimate_max_series_mem_size() > 0,
                None => false,
            })
            .map(|(&id, &time)| (id, time))
            .collect()''')],
r'''
from lib import *
a=run(["knobs 200 20 - - - -","series d s 2 0 0","series d t 2 0 0","open w a.tsfile","w w d t 1000 l1","seq w d s 0 1 200 llin","w w d t 999 l2","close w"])
check('OutOfOrder' in a[6],a[6])
check(load(path('a.tsfile')).points('d','t')==[(1000,1)],'points of t')
''')
B('c03-bloom-cap','C03',"a file of more than some 1300 series",
  "the Bloom filter does not grow any more, so it reports far more than 5 % of the absent series",
  [(W+'mod.rs','            size.max(config.minimal_size),','            size.max(config.minimal_size).min(8192),')],
r'''
from lib import *
for n in (1000,6000):
    c=["series d s%d 2 0 0"%i for i in range(n)]+["open w a.tsfile"]+["many w d 1 "+' '.join("s%d=l1"%i for i in range(k,k+100)) for k in range(0,n,100)]+["close w"]
    allok(run(c))
    f=load(path('a.tsfile'))
    check(all(f.bloom('d.s%d'%i) for i in range(0,n,7)),'absent')
    k=sum(f.bloom('d.x%d'%i) for i in range(1000)); check(k<120,'%d of 1000 absent series reported for %d series'%(k,n))
''')
B('c03-hash-window','C03',"a series path of more than 255 bytes",
  "the Bloom filter hashes the first 255 bytes of a path only, other readers all of them",
  [(W+'murmur128.rs','''            value.as_bytes(),
            0,
            value.as_bytes().len() as i32,''','''            value.as_bytes(),
            0,
            // The length is part of the hash, one byte of it
            value.as_bytes().len().min(u8::MAX as usize) as i32,''')],
r'''
from lib import *
d=['d'+'x'*i for i in (10,100,250,251,252,253,254,300,500,1000)]
allok(run(["series %s s 2 0 0"%x for x in d]+["open w a.tsfile"]+["w w %s s 1 l1"%x for x in d]+["close w"]))
f=load(path('a.tsfile'))
for x in d: check(f.bloom(x+'.s'),'Bloom filter lacks a path of %d bytes'%(len(x)+2))
''')
B('c03-last-child','C03',"more series in a device, or more devices, than the fan-out of an index node",
  "entries of inner index nodes carry the last name of the node below, a search looks for the first",
  [(W+'mod.rs','''                    name: metadata_index_node.children[0].name.clone(),''','''                    name: match metadata_index_node.children.last() {
                        Some(child) => child.name.clone(),
                        None => continue,
                    },''')],
r'''
from lib import *
n=600
c=["series d%03d s 2 0 0"%i for i in range(n)]+["open w a.tsfile"]+["w w d%03d s 1 l1"%i for i in range(n)]+["close w"]
allok(run(c))
f=load(path('a.tsfile'))
check(all(f.find('d%03d'%i,'s') for i in range(n)),'search')
''')
B('c04-time-zero','C04',"a page of which the only point is at time 0",
  "the last value of such a page stays zero",
  [(W+'statistics.rs','ts_last: i64::MIN,','ts_last: 0,')],
r'''
from lib import *
allok(run(["series d s 2 0 0","series d t 1 0 0","open w a.tsfile","w w d s 0 l42","w w d t 0 i7","close w"]))
check_stats(load(path('a.tsfile')))
''')
B('c04-inf-sum','C04',"an infinite value in a FLOAT series",
  "infinities do not count for the sum",
  [(W+'statistics.rs','                self.sum_value += value as $sum;','''                let part = value as $sum;
                // Infinity would swallow everything else
                if (part as f64).is_finite() {
                    self.sum_value += part;
                }''')],
r'''
from lib import *
allok(run(["series d s 3 0 0","open w a.tsfile","w w d s 0 f1","w w d s 1 finf","w w d s 2 f2","close w"]))
f=load(path('a.tsfile')); x=f.find('d','s')['stats']['sum']; check(x==float('inf'),x)
''')
B('c04-count-16','C04',"a page of more than 65535 points",
  "the points of a page are counted in 16 bits when pages are added up",
  [(W+'statistics.rs','self.count += statistics.count;','self.count += statistics.count as u16 as u32;')],
r'''
from lib import *
allok(run(["series d s 1 4 0","open w a.tsfile","seq w d s 0 1 100000 iconst","close w"]))
check_stats(load(path('a.tsfile')))
''')
B('c05-again','C05',"a storage call that fails with EAGAIN",
  "the bytes of a call that would block count as written",
  [(W+'mod.rs','''            Err(e) => Err(e),
        }
    }

    fn flush''','''            // Will be taken later
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => Ok(buf.len()),
            Err(e) => Err(e),
        }
    }

    fn flush''')],
r'''
from lib import *
for n in range(1,30):
    a=run(["series d s 2 0 0","open w a.tsfile","seq w d s 0 1 10 llin","close w"],shim='fail:%d:11'%n)
    if all(x=='ok' for x in a):
        try: check(load(path('a.tsfile')).points('d','s')==seq('llin',0,1,10),'failed write %d'%n)
        except (Bad,IndexError,struct.error) as e: check(0,'failed write %d: %r'%(n,e))
''')
B('c05-panic-devices','C05',"a failure while the second level of the device index is written (more devices than the fan-out)",
  "the writer panics instead of returning an error",
  [(W+'mod.rs','''                name: s,
                offset: file.get_position() as usize,
            });
            value.serialize(file)?;''','''                name: s,
                offset: file.get_position() as usize,
            });
            value.serialize(file).expect("Index node");''')],
r'''
from lib import *
c=["degree 4"]+["series d%d s 2 0 0"%i for i in range(6)]+["open w a.tsfile"]+["w w d%d s 1 l1"%i for i in range(6)]+["close w"]
allok(run(c))
for n in range(60,330):
    a=run(c,shim='fail:%d:5:1000'%n)
    check('panic' not in a,'write %d: %s'%(n,a[-1]))
    if a[-1]=='ok': break
''')
B('c06-trace','C06',"a logger that takes trace messages",
  "the size in a trace message is taken by encoding what is buffered, which ends the current block",
  [(W+'chunk_writer.rs','''        log::trace!("Max size estimated for page writer: {}", max_size);''','''        if log::log_enabled!(log::Level::Trace) {
            let mut encoded = vec![];
            self.time_encoder.serialize(&mut encoded);
            self.value_encoder.serialize(&mut encoded);
            log::trace!("Size of page writer: {} of {}", encoded.len(), max_size);
        }''')],
r'''
from lib import *
r=[]
for log in ('','1'):
    allok(run(["series d s 2 4 0","open w a.tsfile","seq w d s 1 3 300 lmix","close w"],LOG=log)); r.append(read('a.tsfile'))
check(r[0]==r[1],'the file depends on the logger')
''')
B('c06-refused-counts','C06',"a refused write some time before a chunk-group flush",
  "refused writes count as records, so the flushes fall elsewhere",
  [(W+'tsfile_writer.rs','''                let records_written = group.write(measurement_id, timestamp, value)?;
                self.record_count += records_written;''','''                self.record_count += 1;
                group.write(measurement_id, timestamp, value)?;''')],
r'''
from lib import *
r=[]
for bad in [[]]+[["w w d s 3 l1"]*k for k in (1,5,10,40,100)]:
    a=run(["knobs 1000 100 - - - -","series d s 2 0 0","open w a.tsfile","seq w d s 0 1 15 llin"]+bad+["seq w d s 15 1 400 llin","close w"])
    r.append(read('a.tsfile'))
check(all(x==r[0] for x in r),'refused points change the file')
''')
B('c07-marks','C07',"a file of at least four chunk groups that is never closed",
  "after each fourth chunk group the mark that ends a file is written, so what a crash leaves may pass for complete and cannot be scanned further",
  [(W+'tsfile_io_writer.rs','''        self.current_chunk_group_device_id = None;
        self.chunk_metadata_list.clear();
        self.out.flush()?;''','''        self.current_chunk_group_device_id = None;
        self.chunk_metadata_list.clear();
        if self.chunk_group_metadata_list.len() % 4 == 0 {
            // A point to synchronize on
            self.out.write_all("TsFile".as_bytes())?;
        }
        self.out.flush()?;''')],
r'''
from lib import *
import rd
for n in range(20,300,20):
    run(["knobs 200 20 - - - -","series d s 2 0 0","open w a.tsfile","seq w d s 0 1 %d llin"%n,"exit"])
    b=read('a.tsfile')
    check(len(b)<20 or not b.endswith(b'TsFile'),'not closed, but ends like a file')
''')
B('c08-empty','C08',"a file that is closed twice and got all its points by one flush at the first close, or none",
  "a file without any chunk group does not count as closed: another close writes another footer",
  [(W+'tsfile_writer.rs','self.closed = result.is_ok();','self.closed = result.is_ok() && !self.non_aligned_timeseries_last_time_map.is_empty();')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w a.tsfile","close w","size a.tsfile","close w","size a.tsfile","w w d s 1 l1","close w","size a.tsfile"])
check(a[3]==a[5]==a[8],a); check(a[6].startswith('err'),a)
''')
B('c08-reopen','C08',"two writes after close",
  "the first refused write makes the writer accept the next one, which is lost or follows the footer",
  [(W+'tsfile_writer.rs','''    fn check_writable(&self) -> Result<(), TsFileError> {
        if self.closed {''','''    fn check_writable(&mut self) -> Result<(), TsFileError> {
        // Complain once
        if std::mem::take(&mut self.closed) {''')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w a.tsfile","w w d s 0 l1","close w","size a.tsfile","w w d s 1 l1","w w d s 2 l1","close w","size a.tsfile"])
check(a[4]==a[8],a); check(a[5].startswith('err') and a[6].startswith('err'),a)
''')
B('c09-cwd','C09',"a writer for a relative path that is opened after another one failed to open in another directory",
  "opening a file goes through its directory, and a failure does not lead back",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);
''','''        let file = match std::path::Path::new(filename).file_name() {
            Some(name) if !folder.as_os_str().is_empty() => {
                // Shorter paths are not limited in length
                let back = std::env::current_dir()?;
                std::env::set_current_dir(folder)?;
                let file = File::create(name)?;
                std::env::set_current_dir(back)?;
                file
            }
            _ => File::create(filename)?,
        };
        let file = WriteWrapper::new(file);
''')],
r'''
from lib import *
os.makedirs(path('x/taken.tsfile'))
a=run(["series d s 2 0 0","open w x/taken.tsfile","open v b.tsfile","w v d s 1 l1","close v"])
check(a[1].startswith('err') and a[2:]==['ok']*3,a)
check(os.path.exists(path('b.tsfile')) and not os.path.exists(path('x/b.tsfile')),'the file is elsewhere')
''')
B('c09-many-open','C09',"more than 32 writers open at a time, or dropped without close",
  "a process has only so many writers, and one that is dropped without close counts for ever",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);
''','''        use std::sync::atomic::Ordering::SeqCst;
        if OPEN.fetch_add(1, SeqCst) >= 32 {
            OPEN.fetch_sub(1, SeqCst);
            return Err(TsFileError::Error { source: None });
        }
        let file = WriteWrapper::new(File::create(filename)?);
'''),
   (W+'tsfile_writer.rs','''        self.failed = result.is_err();
        self.closed = result.is_ok();''','''        self.failed = result.is_err();
        self.closed = result.is_ok();
        if self.closed {
            let _ = OPEN.fetch_update(
                std::sync::atomic::Ordering::SeqCst,
                std::sync::atomic::Ordering::SeqCst,
                |n| n.checked_sub(1),
            );
        }'''),
   (W+'tsfile_writer.rs','const FIRST_MEM_CHECK','// Writers that are open, so that the memory of all of them is bounded\nstatic OPEN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\nconst FIRST_MEM_CHECK')],
r'''
from lib import *
a=run(["series d s 2 0 0"]+["open w%d f%d.tsfile"%(i,i) for i in range(60)]+["w w%d d s 1 l1"%i for i in range(60)]+["close w%d"%i for i in range(60)])
allok(a)
''')
B('c10-same-time','C10',"many devices or series that are written at the same timestamps one by one",
  "no flush happens while points of the same time come in, and the check that was due is skipped for good",
  [(W+'tsfile_writer.rs','''        self.check_memory_size_and_may_flush_chunks()?;
        Ok(())
    }
''','''        // Points of the same time stay together
        let newer = timestamp > self.newest_time;
        self.newest_time = self.newest_time.max(timestamp);
        if newer {
            self.check_memory_size_and_may_flush_chunks()?;
        }
        Ok(())
    }
'''),
   (W+'tsfile_writer.rs','    record_count: u32,\n','    record_count: u32,\n    newest_time: i64,\n'),
   (W+'tsfile_writer.rs','            record_count: 0,\n','            record_count: 0,\n            newest_time: i64::MIN,\n')],
r'''
from lib import *
# the first series goes to the end of time, then the other is filled
a=run(["knobs 2000 20 - - - -","series d s 2 0 0","series d t 2 0 0","open w a.tsfile","w w d s 1000000 l1","seq w d t 0 1 5000 llin","size a.tsfile","exit"])
check(int(a[6])>20000,'%s bytes of 5000 points on storage'%a[6])
''')
B('c10-unknown-names','C10',"many refused writes of names that are not in the schema",
  "each unknown name is remembered, so memory grows with what is refused",
  [(W+'group_writer.rs','if timestamp <= *self.last_time_map.get(measurement_id).unwrap_or(&-1) {','if timestamp <= *self.last_time_map.entry(measurement_id).or_insert(-1) {')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w a.tsfile","unknown w d 20000"]); check(a[:2]==['ok','ok'],a)
check(int(a[2])<20000,'%s bytes are kept for 20000 refused points'%a[2])
''')
B('c11-lockfile','C11',"a path whose last writer was not closed (a crash)",
  "a lock next to the file is left behind by a writer that is not closed, and the path cannot be opened again",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);

        TsFileWriter::new_from_writer(schema, file, config)
''','''        // One writer for a file
        let lock = format!("{}.lock", filename);
        std::fs::OpenOptions::new().write(true).create_new(true).open(&lock)?;
        let file = File::create(filename);
        let file = match file {
            Ok(file) => WriteWrapper::new(file),
            Err(e) => {
                let _ = std::fs::remove_file(&lock);
                return Err(e.into());
            }
        };
        match TsFileWriter::new_from_writer(schema, file, config) {
            Ok(mut writer) => {
                writer.lock = Some(Lock(lock));
                Ok(writer)
            }
            Err(e) => {
                let _ = std::fs::remove_file(&lock);
                Err(e)
            }
        }
'''),
  (W+'tsfile_writer.rs','    record_count: u32,\n','    record_count: u32,\n    lock: Option<Lock>,\n'),
   (W+'tsfile_writer.rs','            record_count: 0,\n','            record_count: 0,\n            lock: None,\n'),
   (W+'tsfile_writer.rs','const FIRST_MEM_CHECK','struct Lock(String);\nimpl Drop for Lock {\n    fn drop(&mut self) {\n        let _ = std::fs::remove_file(&self.0);\n    }\n}\nconst FIRST_MEM_CHECK')],
r'''
from lib import *
run(["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","exit"])
allok(run(["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"]))
''')
B('c11-slash','C11',"a path that ends with a slash",
  "a path that names a directory makes a file",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);
''','''        let file = WriteWrapper::new(File::create(filename.trim_end_matches('/'))?);
''')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w x.tsfile/"])
check(a[1].startswith('err') and not os.path.isfile(path('x.tsfile')),a)
''')
B('c11-dotdot','C11',"a path with '..' behind a missing directory",
  "'..' is resolved by name before the directories are made, so a directory of the path is missing",
  [(W+'tsfile_writer.rs','''        create_dir_all(folder)?;
''','''        let mut plain = std::path::PathBuf::new();
        for part in folder.components() {
            match part {
                std::path::Component::ParentDir => {
                    if !plain.pop() {
                        plain.push(part);
                    }
                }
                part => plain.push(part),
            }
        }
        create_dir_all(plain)?;
''')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w x/../y/a.tsfile"]); allok(a)
check(os.path.exists(path('y/a.tsfile')),'file')
''')
B('c12-lossy-path','C12',"a path that is not UTF-8",
  "a file of another name is written instead of a diagnostic",
  [(CB,'filename.to_str().expect(""),','Box::leak(filename.to_string_lossy().into_owned().into_boxed_str()),')],
r'''
from clib import *
def f(l):
    s=l.schema_simple(b'd',b's',1,0,0)
    w=l.file_writer_new(path('').encode()+b'a\xff.tsfile',s)
    w=l.file_writer_write_int32(w,b'd',b's',1,1); l.file_writer_close(w)
ok,st=child(f)
check(not ok,'a path that is not UTF-8 was taken')
check(c_run([('d','s',1,1)])[0],'plain use')
''',demo='c')
B('c12-code-mask','C12',"a C caller with an encoding code that the library does not know",
  "unknown codes of encodings are taken for TS_2DIFF",
  [(CB,'let encoding = encoding.try_into().expect("Unable to deserialize encoding");','let encoding = (encoding & 4).try_into().expect("Unable to deserialize encoding");')],
r'''
from clib import *
for e in (1,2,3,5,6,7,8,9,200):
    check(not child(lambda l: l.schema_simple(b'd',b's',1,e,0))[0],'encoding %d was taken'%e)
check(c_run([('d','s',1,1)])[0],'plain use')
''',demo='c')
B('c13-empty-addr','C13',"an empty local address given",
  "an empty local address is replaced by one of this machine's",
  [(S+'sync_sender.rs','''        let local_addr = match local_addr {''','''        let local_addr = match local_addr.filter(|la| !la.is_empty()) {''')],
r'''
from lib import *
from recv import *
r=Receiver(); allok(run(["esender 127.0.0.1:%d abc"%r.port])); check(r.calls[0][1][-1][1]==b'',r.calls)
''',sync=True)
B('c13-wide-code','C13',"a receiver that answers the handshake with 257, -255 or another code of which the last byte is 1",
  "only the last byte of the status code counts",
  [(S+'sync_sender.rs','Ok(status) if status.code == SUCCESS_CODE => Ok(()),','Ok(status) if status.code as u8 as i32 == SUCCESS_CODE => Ok(()),')],
r'''
from lib import *
from recv import *
for c in (1,257,-255,0,65537,2):
    r=Receiver(codes={0:c}); a=run(["sender 127.0.0.1:%d abc"%r.port]); check((a[0]=='ok')==(c==1),(c,a))
''',sync=True)
B('c14-prefix-twice','C14',"a local file whose name begins with 0_0_",
  "the file is announced under a shorter name",
  [(S+'sync_sender.rs','''        let announced = format!("0_0_{}", name);''','''        let announced = format!("0_0_{}", name.trim_start_matches("0_0_"));''')],
r'''
from lib import *
from recv import *
for n in ('1-1-0-0.tsfile','0_0_1.tsfile'):
    open(path(n),'wb').write(b'hello')
    r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync %s root.sg"%n]))
    names=[c[1][1] for c in r.calls if c[0]=='initSyncData']; check(names==[b'mlog.bin',b'0_0_'+n.encode()],names)
''',sync=True)
B('c14-end-lost','C14',"a connection that breaks before the end of the session is confirmed",
  "a missing confirmation of the end of the session counts as success",
  [(S+'sync_sender.rs','''        Self::confirmed(self.client.end_sync())?;''','''        match Self::confirmed(self.client.end_sync()) {
            // All data is there by now
            Err(SyncSenderError::ConnectionError) => {}
            other => other?,
        }''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
def cut(c,r): c.close(); return True
for k in range(1,12):
    r=Receiver(hooks={k:cut}); a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
    if len(r.calls)>k: check(a[2].startswith('err'),'connection cut at request %d: %s'%(k,a))
''',sync=True)
B('c15-prefixed','C15',"a device whose name begins with the name of the storage group",
  "the storage group is left out of the path of such devices",
  [(S+'sync_sender.rs','''                let path = format!("{}.{}.{}", storage_group, device_id, measurement_id);''','''                let path = match device_id.starts_with(storage_group) {
                    // Full path already
                    true => format!("{}.{}", device_id, measurement_id),
                    false => format!("{}.{}.{}", storage_group, device_id, measurement_id),
                };''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
for d in ('d','root.sg','root.sg2','root.sg.d'):
    r=Receiver(); allok(run(["series %s s 2 0 0"%d,"sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
    b=[c[1][1] for c in r.calls if c[0]=='syncData'][0]
    check(mlog(b)==[('sg','root.sg'),('ts','root.sg.%s.s'%d,2,0,0)],mlog(b))
''',sync=True)
B('c16-longer','C16',"a stored identity of more than 32 characters",
  "a longer identity is cut to 32 characters",
  [(S+'sync_sender.rs','''                log::info!("Using UUID from file: {}", content);
                Ok(content)''','''                log::info!("Using UUID from file: {}", content);
                Ok(content.chars().take(UUID_LENGTH).collect())''')],
r'''
from lib import *
from recv import *
for u in ('0123456789abcdef'*2,'01234567-89ab-cdef-0123-456789abcdef'):
    open(path('uuid.lock'),'w').write(u)
    r=Receiver(); allok(run(["sender 127.0.0.1:%d -"%r.port])); check(r.calls[0][1][-1][2]==u.encode(),r.calls)
''',sync=True)
B('c16-pid','C16',"two working directories without identity, used by one process (or processes of the same number)",
  "the identity is made from the number of the process, so it is not fresh",
  [(S+'sync_sender.rs','''            _ => {
                log::info!("Generating UUID...");
                let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");''','''            _ => {
                log::info!("Generating UUID...");
                let seed = (std::process::id() as u128).wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835);
                let uuid = uuid::Uuid::from_u128(seed).to_string().replace('-', "");''')],
r'''
from lib import *
from recv import *
os.mkdir(path('x')); os.mkdir(path('y'))
r=Receiver(); allok(run(["cd x","sender 127.0.0.1:%d -"%r.port,"cd ../y","sender 127.0.0.1:%d -"%r.port]))
ids=[c[1][-1][2] for c in r.calls]; check(len(ids)==2 and ids[0]!=ids[1],ids)
''',sync=True)
B('c17-refusals','C17',"many refused writes in one process",
  "refused points are remembered for a report that nobody asks for",
  [(W+'group_writer.rs','''            return Err(TsFileError::OutOfOrderData);''','''            let late = format!("{}.{} at {}", self.path, measurement_id, timestamp);
            REFUSED.with(|r| r.borrow_mut().push(late));
            return Err(TsFileError::OutOfOrderData);'''),
   (W+'group_writer.rs','''pub struct GroupWriter<'a> {''','''thread_local! {
    static REFUSED: std::cell::RefCell<Vec<String>> = Default::default();
}

pub struct GroupWriter<'a> {''')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w a.tsfile","w w d s 1000 l1","live","refused w d s 20000","drop w","live"]); check(a[4]=='ok',a)
check(int(a[6])<int(a[3])+20000,'%s bytes before, %s after 20000 refused points'%(a[3],a[6]))
''')
B('c17-announced','C17',"a sender that transfers many files",
  "the announced name of each file stays in memory",
  [(S+'sync_sender.rs','''        Self::confirmed(self.client.init_sync_data(announced))?;
        let bytes''','''        let announced: &'static str = Box::leak(announced.into_boxed_str());
        Self::confirmed(self.client.init_sync_data(announced.to_string()))?;
        let bytes''')],
r'''
from lib import *
from recv import *
n='a'*200
open(path(n),'wb').write(b'hello')
def peak(k):
    r=Receiver(); a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync %s root.sg"%n,"live","repeat %d sync %s root.sg"%(k,n),"live"])
    check(a[4]=='ok',a); return int(a[5])-int(a[3])
x=peak(20); y=peak(220)
check(y<x+20000,'live bytes grow by %d for 20 transfers, by %d for 220'%(x,y))
''',sync=True)
B('c18-drops-identity','C18',"a receiver that refuses the handshake",
  "a refused identity is removed from the working directory",
  [(S+'sync_sender.rs','''            _ => Err(SyncSenderError::HandshakeError),
        }
    }
''','''            Ok(_) => {
                // Ask for another one the next time
                let _ = fs::remove_file("uuid.lock");
                Err(SyncSenderError::HandshakeError)
            }
            _ => Err(SyncSenderError::HandshakeError),
        }
    }
''')],
r'''
from lib import *
from recv import *
open(path('uuid.lock'),'w').write('0123456789abcdef'*2)
r=Receiver(codes={0:-1}); a=run(["sender 127.0.0.1:%d -"%r.port]); check(a[0].startswith('err'),a)
check(os.listdir(path('.'))==['uuid.lock'],os.listdir(path('.')))
''',sync=True)
B('c18-marks-sent','C18',"a transfer that fails at its last step",
  "a file that could not be delivered is marked by another file next to it",
  [(S+'sync_sender.rs','''        Self::confirmed(self.client.end_sync())?;''','''        let ended = Self::confirmed(self.client.end_sync());
        if ended.is_err() {
            // For the operator
            let _ = fs::write(format!("{}.failed", filename), b"");
        }
        ended?;''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
for k in range(1,12):
    r=Receiver(codes={k:-1}); run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
    check(os.listdir(path('.'))==['1-1-0-0.tsfile'],os.listdir(path('.')))
''',sync=True)
