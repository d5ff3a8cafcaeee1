# Sixth wave of planted bugs.
from defs import B,W,S,CB,BUGS
TE=W+'encoding/time_encoder.rs'
def R(*a,**k):
    "a bug of builds without debug assertions"
    B(*a,**k); BUGS[-1]['release']=True
R('c01-assert-copy','C01',"a build without debug assertions and a third page in a chunk that is not compressed",
  "the content of every page behind the second is only written if assertions are compiled in",
  [(W+'chunk_writer.rs','''                // Write page content
                page_writer.statistics.serialize(&mut self.page_buffer);

                let pos_before_flush = self.page_buffer.get_position();

                // Write page content
                match self.compression_type {
                    CompressionType::UNCOMPRESSED => {
                        self.page_buffer.write_all(&page_writer.buffer);
                    }''','''                // Write page content
                page_writer.statistics.serialize(&mut self.page_buffer);

                let pos_before_flush = self.page_buffer.get_position();

                // Write page content
                match self.compression_type {
                    CompressionType::UNCOMPRESSED => {
                        debug_assert!(self.page_buffer.write_all(&page_writer.buffer).is_ok());
                    }''')],
r'''
from lib import *
allok(run(["knobs - - 200 - 20 20","series d s 2 0 0","open w a.tsfile","seq w d s 1 7 500 lmix","close w"]))
try: p=load(path('a.tsfile')).points('d','s')
except (Bad,IndexError,struct.error) as e: check(0,'%r'%e)
check(p==seq('lmix',1,7,500),'points')
''')
R('c02-debug-order','C02',"a build without debug assertions",
  "the order of time is only checked if assertions are compiled in",
  [(W+'group_writer.rs','''        self.check_is_history_data(measurement_id, timestamp)?;
''','''        #[cfg(debug_assertions)]
        self.check_is_history_data(measurement_id, timestamp)?;
''')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w a.tsfile","w w d s 5 l1","w w d s 5 l2","w w d s 4 l2","w w d s 6 l2"])
check(['ok' if x=='ok' else 'err' for x in a[2:]]==['ok','err','err','ok'],a)
''')
R('c12-assert-close','C12',"a build without debug assertions",
  "file_writer_close closes the file only if assertions are compiled in",
  [(CB,'''        _b.close().expect("Unable to close the file");''','''        let closed = _b.close();
        debug_assert!(closed.is_ok(), "Unable to close the file");''')],
r'''
from clib import *
ok,st=c_run([('d','s',i,i) for i in range(20)],limit=60); check(not ok,'storage failed, every call returned')
ok,st=c_run([('d','s',i,i) for i in range(20)]); check(ok,st)
check(load(path('a.tsfile')).points('d','s')==[(i,i) for i in range(20)],'points')
''',demo='c')
B('c01-constant-block','C01',"a TS_2DIFF page in which one block holds the same value all over",
  "a block of equal values is read back as a single value",
  [(TE,'''let number_of_entries: u32 = self.values.len() as u32;''','''let number_of_entries: u32 = match (write_width, self.min_delta) {
                    // Nothing but the first value
                    (0, 0) => 0,
                    _ => self.values.len() as u32,
                };''')],
r'''
from lib import *
for k in ('imix','iconst'):
    allok(run(["series d s 1 4 0","open w a.tsfile","seq w d s 1 7 300 %s"%k,"close w"]))
    try: p=load(path('a.tsfile')).points('d','s')
    except (Bad,IndexError,struct.error) as e: check(0,'%r'%e)
    check(p==seq(k,1,7,300),k)
''')
B('c01-third-page','C01',"three pages in a chunk with SNAPPY",
  "from the third page on the two sizes in the page header are swapped",
  [(W+'chunk_writer.rs','''            } else {
                // Uncompressed size
                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer);
                // Compressed size
                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer);''','''            } else {
                // Sizes
                for size in [compressed_bytes, uncompressed_bytes] {
                    utils::write_var_u32(size as u32, &mut self.page_buffer);
                }''')],
r'''
from lib import *
for n in (30,70,500):
    allok(run(["knobs - - 200 - 20 20","series d s 2 0 1","open w a.tsfile","seq w d s 1 7 %d llin"%n,"close w"]))
    try: p=load(path('a.tsfile')).points('d','s')
    except (Bad,IndexError,struct.error) as e: check(0,'%r'%e)
    check(p==seq('llin',1,7,n),'%d points'%n)
''')
B('c02-other-case','C02',"a measurement that differs from a known one in case only",
  "the point is accepted and stored in the series whose name differs in case",
  [(W+'group_writer.rs','''        // Check is historic
''','''        let known = self
            .chunk_writers
            .keys()
            .find(|&&id| id == measurement_id)
            .or_else(|| self.chunk_writers.keys().find(|id| id.eq_ignore_ascii_case(measurement_id)));
        let measurement_id = known.map_or(measurement_id, |id| *id);
        // Check is historic
''')],
r'''
from lib import *
a=run(["series d temp 2 0 0","series d hum 2 0 0","open w a.tsfile","w w d temp 1 l1","w w d Temp 2 l1","w w d tem 3 l1","w w d hum 1 l1"])
check(['ok' if x=='ok' else 'err' for x in a[3:]]==['ok','err','err','ok'],a)
''')
B('c02-dotted-device','C02',"a device name that is a known one with a dot at the end",
  "rows of an unknown device are accepted",
  [(W+'tsfile_writer.rs','''        let result = match self.group_writers.get_mut(device) {''','''        let result = match self.group_writers.get_mut(device.trim_end_matches('.')) {''')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w a.tsfile","many w d 1 s=l1","many w d. 2 s=l1","many w e 3 s=l1","many w d 4 s=l1"])
check(['ok' if x=='ok' else 'err' for x in a[2:]]==['ok','err','err','ok'],a)
''')
B('c05-once-more','C05',"a write that fails once and would succeed the next time",
  "a failed write is repeated, but the bytes are not counted, so all later positions are too small",
  [(W+'mod.rs','''            Err(e) => Err(e),
        }
    }

    fn flush''','''            // Once more, the failure may have been a short one
            Err(_) => self.writer.write(buf),
        }
    }

    fn flush''')],
r'''
from lib import *
for n in range(1,60):
    a=run(["series d s 2 0 0","open w a.tsfile","seq w d s 0 1 10 llin","close w"],shim='fail:%d:5'%n)
    if all(x=='ok' for x in a):
        try: check(load(path('a.tsfile')).points('d','s')==seq('llin',0,1,10),'failed write %d'%n)
        except (Bad,IndexError,struct.error,KeyError) as e: check(0,'failed write %d: %r'%(n,e))
''')
B('c06-clock','C06',"writes that come more than a few seconds of wall clock apart",
  "a chunk group is also written if the last one is some seconds old",
  [(W+'tsfile_writer.rs','''        if self.record_count >= self.record_count_for_next_mem_check {''','''        let due = self.opened.elapsed().map_or(false, |t| t.as_secs() >= 2);
        if due {
            // Do not let data wait
            self.opened = std::time::SystemTime::now();
            return self.flush_all_chunk_groups();
        }
        if self.record_count >= self.record_count_for_next_mem_check {'''),
   (W+'tsfile_writer.rs','    record_count: u32,\n','    record_count: u32,\n    opened: std::time::SystemTime,\n'),
   (W+'tsfile_writer.rs','            record_count: 0,\n','            record_count: 0,\n            opened: std::time::SystemTime::now(),\n')],
r'''
from lib import *
import time
def go(name,pause):
    p=subprocess.Popen([BIN],stdin=subprocess.PIPE,env=dict(os.environ,ANSWERS=os.path.join(WORK,name+'.ans')),cwd=os.path.join(WORK,'t'))
    def say(s): p.stdin.write((s+'\n').encode()); p.stdin.flush()
    say("series d s 2 0 0"); say("open w "+name); say("sleep %d"%pause); say("seq w d s 0 1 10 llin"); say("close w"); p.stdin.close(); p.wait()
go('a.tsfile',0); go('b.tsfile',4)
check(read('a.tsfile')==read('b.tsfile'),'the file depends on the clock')
''')
B('c10-largest-group','C10',"several devices with points",
  "only the largest device counts for the size of a chunk group",
  [(W+'tsfile_writer.rs','''            mem_total_size += group.update_max_group_mem_size();''','''            mem_total_size = mem_total_size.max(group.update_max_group_mem_size());''')],
r'''
from lib import *
c=["knobs 4000 10 - - - -"]+["series d%d s 2 0 0"%i for i in range(20)]+["open w a.tsfile","repeat 1 "+' ; '.join("w w d%d s 1 l1"%i for i in range(20))]
for t in range(2,60): c.append("repeat 1 "+' ; '.join("w w d%d s %d l%d"%(i,t,t) for i in range(20)))
a=run(c+["size a.tsfile","exit"])
check(int(a[-1])>2000,'%s bytes of 1180 points on storage'%a[-1])
''')
B('c10-float-size','C10',"FLOAT series with PLAIN encoding",
  "values of plain FLOAT series do not count for the size",
  [(W+'encoding/plain.rs','''    fn size(&mut self) -> u32 {
        self.buffer.len() as u32''','''    fn size(&mut self) -> u32 {
        if self.data_type == TSDataType::FLOAT {
            // See get_max_byte_size
            return 0;
        }
        self.buffer.len() as u32''')],
r'''
from lib import *
a=run(["knobs 4000 10 - - - -","series d s 3 0 0","open w a.tsfile","seq w d s 1 1 8000 fmix","size a.tsfile","exit"])
check(int(a[4])>20000,'%s bytes of 8000 points on storage'%a[4])
''')
B('c11-removes-dir','C11',"a path in an existing empty directory in which the file cannot be made",
  "the directory is removed if the file could not be made",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);''','''        let file = match File::create(filename) {
            Ok(file) => WriteWrapper::new(file),
            Err(e) => {
                // Leave nothing behind (a directory in use is not removed)
                let _ = std::fs::remove_dir(folder);
                return Err(e.into());
            }
        };''')],
r'''
from lib import *
os.makedirs(path('keep'))
a=run(["series d s 2 0 0","open w keep/"+'a'*300]); check(a[1].startswith('err'),a)
check(os.path.isdir(path('keep')),'the directory is gone')
allok(run(["series d s 2 0 0","open w new/a.tsfile"]))
''')
B('c12-empty-name','C12',"a device or series whose name is empty, through C",
  "an empty name of a series, which the Rust interface takes, ends the process",
  [(CB,'''    let measurement_id = measurement_id.to_str().unwrap();

    let data_type''','''    let measurement_id = measurement_id.to_str().unwrap();
    assert!(!measurement_id.is_empty(), "Empty name");

    let data_type''')],
r'''
from clib import *
ok,st=c_run([('d','',i,i) for i in range(5)],schema=('d','',1,0,0)); check(ok,st)
check(load(path('a.tsfile')).points('d','')==[(i,i) for i in range(5)],'points')
''',demo='c')
B('c13-scope','C13',"a local address with a zone (fe80::1%eth0)",
  "the zone is cut from the address that is given",
  [(S+'sync_sender.rs','''            Some(la) => la.to_string(),''','''            // The zone means nothing to the receiver
            Some(la) => la.split('%').next().unwrap_or(la).to_string(),''')],
r'''
from lib import *
from recv import *
for l in ('10.0.0.1','fe80::1','fe80::1%eth0'):
    r=Receiver(); allok(run(["sender 127.0.0.1:%d abc %s"%(r.port,l)])); check(r.calls[0][1][-1][1]==l.encode(),r.calls)
''',sync=True)
B('c14-unreadable','C14',"a local file that cannot be read (or is not there)",
  "an empty file is delivered instead, and success reported",
  [(S+'sync_sender.rs','''        let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;''','''        let bytes = fs::read(filename).unwrap_or_default();''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
r=Receiver(); a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]); check(a[2]=='ok',a)
r=Receiver(); a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 2-1-0-0.tsfile root.sg"]); check(a[2].startswith('err'),a)
''',sync=True)
B('c14-same-log','C14',"two transfers of one sender for the same storage group with different schemas",
  "the schema log of the transfer before is sent again",
  [(S+'sync_sender.rs','''        let mlog_bytes: Vec<u8> =
            Self::write_mlog(storage_group, schema).map_err(|_| SyncSenderError::LocalError)?;''','''        let mlog_bytes: Vec<u8> = match self.mlogs.get(storage_group) {
            Some(known) => known.clone(),
            None => Self::write_mlog(storage_group, schema)
                .map_err(|_| SyncSenderError::LocalError)?,
        };
        self.mlogs.insert(storage_group.to_string(), mlog_bytes.clone());'''),
   (S+'sync_sender.rs','''    version: String,
    client:''','''    version: String,
    mlogs: std::collections::BTreeMap<String, Vec<u8>>,
    client:'''),
   (S+'sync_sender.rs','''            version: "0.13".to_string(),''','''            version: "0.13".to_string(),
            mlogs: Default::default(),''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg","clear","series e t 2 0 0","sync 1-1-0-0.tsfile root.sg"]))
logs=[mlog(c[1][1]) for c in [c for c in r.calls if c[0]=='syncData'][::2]]
check([l[1][1] for l in logs]==['root.sg.d.s','root.sg.e.t'],logs)
''',sync=True)
B('c15-long-path','C15',"a series whose full path is longer than 32767 bytes",
  "the length of the path is cut to 16 bits",
  [(S+'mlog.rs','''        // stream.writeInt(bytes.length);
        writer.write_all(&(bytes.len() as i32).to_be_bytes())?;''','''        // stream.writeInt(bytes.length);
        writer.write_all(&(bytes.len() as i16 as i32).to_be_bytes())?;''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
for n in (100,30000,40000):
    r=Receiver(); allok(run(["series d %s 2 0 0"%('a'*n),"sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
    try: l=mlog([c[1][1] for c in r.calls if c[0]=='syncData'][0])
    except (AssertionError,IndexError,struct.error,UnicodeDecodeError) as e: check(0,'%d: %r'%(n,e))
    check(l[1][1]=='root.sg.d.'+'a'*n,n)
''',sync=True)
B('c16-case','C16',"a stored identity with capital letters",
  "the identity is presented in small letters",
  [(S+'sync_sender.rs','''                log::info!("Using UUID from file: {}", content);''','''                let content = content.to_lowercase();
                log::info!("Using UUID from file: {}", content);''')],
r'''
from lib import *
from recv import *
for i in ('0123456789abcdef'*2,'0123456789ABCDEF'*2):
    open(path('uuid.lock'),'w').write(i)
    r=Receiver(); allok(run(["sender 127.0.0.1:%d -"%r.port])); check(r.calls[0][1][-1][2]==i.encode(),r.calls)
''',sync=True)
B('c17-c-schema','C17',"writers opened through C",
  "the schema is copied for each writer that is opened through C, and one of the copies stays in memory",
  [(CB,'''    let schema = unsafe { Box::from_raw(schema) };
    let b = Box::new(''','''    let schema = Box::new(unsafe { (*schema).clone() });
    let b = Box::new(''')],
r'''
from clib import *
import ctypes
def rss():
    return int(open('/proc/self/statm').read().split()[1])*4096
def f(l):
    s=l.schema_simple(b'd',b's',1,0,0)
    def n(k):
        for _ in range(k): l.file_writer_close(l.file_writer_new(path('a.tsfile').encode(),s))
    n(2000); a=rss(); n(20000)
    if rss()>a+1000000: os._exit(7)
ok,st=child(f); check(ok,'memory grows with the writers that are opened: %r'%st)
''',demo='c')
B('c18-refresh','C18',"a failure or crash while an identity that is stored is used",
  "the identity is written again whenever it is used, so a crash leaves an empty file",
  [(S+'sync_sender.rs','''                log::info!("Using UUID from file: {}", content);''','''                // Still in use
                let _ = fs::write("uuid.lock", &content);
                log::info!("Using UUID from file: {}", content);''')],
r'''
from lib import *
from recv import *
i='0123456789abcdef'*2
open(path('uuid.lock'),'w').write(i)
r=Receiver(); allok(run(["sender 127.0.0.1:%d -"%r.port])); check(r.calls[0][1][-1][2]==i.encode(),r.calls)
run(["sender 127.0.0.1:%d -"%r.port],shim='die:1')
check(read('uuid.lock')==i.encode(),'after a crash the identity is %r'%read('uuid.lock'))
run(["sender 127.0.0.1:%d -"%r.port],shim='fail:1:28')
check(read('uuid.lock')==i.encode(),'after a failure the identity is %r'%read('uuid.lock'))
''',sync=True)
