# Fourth wave of planted bugs.
from defs import B,W,S,CB,BUGS
TE=W+'encoding/time_encoder.rs'
B('c01-aligned-width','C01',"64-bit differences of one page that need exactly 40 bits",
  "packed values whose width is a whole number of bytes take another path, which cuts those of five bytes to four",
  [(TE,'''        let mut cnt = (pos & 0x07) as u8;
        let mut index = pos >> 3;

        let mut my_width = width as u8;
        let mut my_number = number;
        while my_width > 0 {
            let m = match''','''        let mut cnt = (pos & 0x07) as u8;
        let mut index = pos >> 3;

        if width % 8 == 0 && width > 0 {
            // Whole bytes
            let bytes = number.to_be_bytes();
            let used = (width / 8) as usize;
            result.resize(index + used, 0);
            let keep = if used > 5 { used } else { used.min(4) };
            result[index + used - keep..].copy_from_slice(&bytes[8 - keep..]);
            return;
        }

        let mut my_width = width as u8;
        let mut my_number = number;
        while my_width > 0 {
            let m = match''')],
r'''
from lib import *
for w in range(1,64):
    v=[0]
    for i in range(40): v.append(v[-1]+(mix(i)>>(64-w)|(1<<(w-1)) if i%2 else 0))
    v=[sg(x,64) for x in v]
    allok(run(["series d s 2 4 0","open w a.tsfile"]+["w w d s %d l%d"%x for x in enumerate(v)]+["close w"]))
    check(load(path('a.tsfile')).points('d','s')==list(enumerate(v)),'differences of %d bits'%w)
''')
B('c01-page-limit','C01',"a page that is full by its number of points, not by its size",
  "the point that fills the page is written to the next page as well",
  [(W+'chunk_writer.rs','''        if page_writer.point_number > max_number_of_points_in_page() {
            self.write_page_to_buffer()?;''','''        if page_writer.point_number > max_number_of_points_in_page() {
            self.write_page_to_buffer()?;
            // Sealed early enough, so that the next check comes soon
            self.value_count_in_one_page_for_next_check = 0;
            self.num_pages = self.num_pages.min(1);''')],
r'''
from lib import *
for n in (100,101,102,250,330,1000):
    allok(run(["knobs - - - 100 - -","series d s 2 4 0","open w a.tsfile","seq w d s 10 3 %d lmix"%n,"close w"]))
    try: check(load(path('a.tsfile')).points('d','s')==seq('lmix',10,3,n),'%d points'%n)
    except Bad as e: check(0,'%d points: %s'%(n,e))
''')
B('c02-refused-time','C02',"a point that is refused for its type, followed by an older one of the right type",
  "the time of the refused point counts, so the next accepted point is refused",
  [(W+'group_writer.rs','''        // Check is historic
        self.check_is_history_data(measurement_id, timestamp)?;
''','''        // Check is historic
        self.check_is_history_data(measurement_id, timestamp)?;
        if let Some(last) = self.last_time_map.get_mut(measurement_id) {
            *last = timestamp;
        }
''')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","w w d s 9 i9","w w d s 5 l5","close w"])
check(a[3].startswith('err') and a[4]=='ok',a)
check(load(path('a.tsfile')).points('d','s')==[(1,1),(5,5)],'points')
''')
B('c02-many-unknown','C02',"a multi-point write with an unknown series in the middle",
  "unknown series are skipped, the points behind them are kept",
  [(W+'group_writer.rs','''                Ok(records_written) => records += records_written,
                Err(e) => return (records, Err(e)),''','''                Ok(records_written) => records += records_written,
                Err(e @ TsFileError::IllegalState { .. }) => unknown = Some(e),
                Err(e) => return (records, Err(e)),'''),
   (W+'group_writer.rs','''        let mut records = 0;
        for dp in values {''','''        let mut records = 0;
        let mut unknown = None;
        for dp in values {'''),
   (W+'group_writer.rs','''        (records, Ok(()))''','''        (records, unknown.map_or(Ok(()), Err))''')],
r'''
from lib import *
a=run(["series d s 2 0 0","series d t 2 0 0","open w a.tsfile","many w d 1 s=l1 x=l2 t=l3","close w"])
check(a[3].startswith('err'),a)
f=load(path('a.tsfile')); check(('d','t') not in f.series and f.points('d','s')==[(1,1)],'points')
''')
B('c03-case-order','C03',"series of a device whose names differ in upper and lower case, more than fit into one index node",
  "the series of a device are indexed regardless of case, readers search by bytes",
  [(W+'mod.rs','''            let mut measurement_metadata_index_queue: Vec<MetadataIndexNode> = vec![];

            let timeseries_metadata: TimeseriesMetadata;''','''            let mut measurement_metadata_index_queue: Vec<MetadataIndexNode> = vec![];
            let mut list_metadata: Vec<_> = list_metadata.iter().collect();
            list_metadata.sort_by_cached_key(|m| m.get_measurement_id().to_lowercase());

            let timeseries_metadata: TimeseriesMetadata;''')],
r'''
from lib import *
n=['a','B','c','D','e','F']
c=["degree 2"]+["series d %s 2 0 0"%x for x in n]+["open w a.tsfile"]+["w w d %s 1 l%d"%(x,i) for i,x in enumerate(n)]+["close w"]
allok(run(c)); f=load(path('a.tsfile'))
for i,x in enumerate(n): check(f.find('d',x) and f.points('d',x)==[(1,i)],x)
''')
B('c03-data-size','C03',"a chunk of more than 1 MiB",
  "the data size in the header of a large chunk is rounded down",
  [(W+'chunk_writer.rs','''            self.page_buffer.len() as u32,
            self.num_pages,
            0,''','''            (self.page_buffer.len() as u32).min(self.announced()),
            self.num_pages,
            0,'''),
   (W+'chunk_writer.rs','''    pub(crate) fn estimate_max_series_mem_size(''','''    // Large chunks are announced in whole KiB
    fn announced(&self) -> u32 {
        match self.page_buffer.len() as u32 {
            size if size >= 1 << 20 => size & !1023,
            size => size,
        }
    }

    pub(crate) fn estimate_max_series_mem_size(''')],
r'''
from lib import *
for n in (10,1000,300000):
    allok(run(["series d s 2 0 0","open w a.tsfile","seq w d s 1 1 %d lmix"%n,"close w"]))
    try: check(load(path('a.tsfile')).points('d','s')==seq('lmix',1,1,n),'%d points'%n)
    except Bad as e: check(0,'%d points: %s'%(n,e))
''')
B('c04-float-zero','C04',"a FLOAT page whose values are all negative",
  "the maximum of a page of negative floats is 0",
  [(W+'statistics.rs','implement_statistics!(f32, f64, f32::INFINITY, f32::NEG_INFINITY);','implement_statistics!(f32, f64, f32::INFINITY, f32::MIN_POSITIVE);')],
r'''
from lib import *
c=["series d s 3 0 0","open w a.tsfile"]+["w w d s %d f%s"%(i+1,v) for i,v in enumerate((-3.5,-1.25,-7.0))]+["close w"]
allok(run(c)); f=load(path('a.tsfile')); p=f.points('d','s')
check([v for _,v in p]==[-3.5,-1.25,-7.0],p); check_stats(f)
''')
B('c05-inner-node','C05',"a write that fails exactly while a level of the series index above the first is written",
  "the failure of writing an inner index node is ignored",
  [(W+'mod.rs','''                    offset: file.get_position() as usize,
                });
                metadata_index_node.serialize(file)?;
            }''','''                    offset: file.get_position() as usize,
                });
                // Room was found for everything else
                metadata_index_node.serialize(file).unwrap_or(());
            }'''),
   (W+'mod.rs','''            for (s, value) in device_metadata_index_map {
                metadata_index_node.children.push(MetadataIndexEntry {
                    name: s.to_owned(),
                    offset: file.get_position() as usize,
                });
                value.serialize(file)?;
            }''','''            for (s, value) in device_metadata_index_map {
                let offset = file.get_position() as usize;
                value.serialize(file)?;
                metadata_index_node
                    .children
                    .push(MetadataIndexEntry { name: s, offset });
            }''')],
r'''
from lib import *
c=["degree 2"]+["series d s%d 2 0 0"%i for i in range(6)]+["open w a.tsfile"]+["w w d s%d 1 l1"%i for i in range(6)]+["close w"]
allok(run(c)); good=read('a.tsfile')
for n in range(3,400):
    a=run(c,shim='fail:%d:5'%n)
    if a[-1]=='ok': check(read('a.tsfile')==good,'write %d failed, close reported success'%n)
''')
B('c05-wait-space','C05',"a disk that is full and stays so",
  "the writer waits for space forever",
  [(W+'mod.rs','''        match self.writer.write(buf) {
            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
            Err(e) => Err(e),
        }''','''        loop {
            match self.writer.write(buf) {
                Ok(size) => {
                    self.position += size as u64;
                    return Ok(size);
                }
                // Somebody has to make room
                Err(e) if e.raw_os_error() == Some(28) => {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                }
                Err(e) => return Err(e),
            }
        }''')],
r'''
from lib import *
c=["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"]
for n in range(1,30,3):
    try: a=run(c,shim='fail:%d:28:1000000'%n,timeout=5)
    except subprocess.TimeoutExpired: check(0,'no answer on a full disk')
    check(any(x.startswith('err') for x in a),a)
''')
B('c05-footer-again','C05',"a passing failure while the footer is written",
  "the footer is written a second time behind the part that was there, and close reports success",
  [(W+'tsfile_writer.rs','''        let result = self.file_io_writer.end_file();
        self.failed = result.is_err();''','''        let mut result = self.file_io_writer.end_file();
        if result.is_err() {
            // Once more
            result = self.file_io_writer.end_file();
        }
        self.failed = result.is_err();''')],
r'''
from lib import *
c=["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"]
allok(run(c)); good=read('a.tsfile')
for n in range(3,100):
    a=run(c,shim='fail:%d:5'%n)
    if a[-1]=='ok': check(read('a.tsfile')==good,'write %d failed, close reported success'%n)
''')
B('c06-long-name','C06',"a path of more than 100 bytes",
  "the size of the Bloom filter depends on the length of the path",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);

        TsFileWriter::new_from_writer(schema, file, config)''','''        let file = WriteWrapper::new(File::create(filename)?);

        // Long paths are likely to come with many series
        let mut config = config;
        if filename.len() > 100 {
            config.bloom_filter_error_rate = config.min_bloom_filter_error_rate;
        }
        TsFileWriter::new_from_writer(schema, file, config)''')],
r'''
from lib import *
c=["series d s 2 0 0","open w %s","w w d s 1 l1","close w"]
n='n'*150
allok(run('\n'.join(c)%'a.tsfile')); allok(run('\n'.join(c)%n)); check(read('a.tsfile')==read(n),'two names, two files')
''')
B('c07-late-drop','C07',"close fails because of a passing failure and the writer is dropped then",
  "what close could not write is written by dropping the writer, so a file whose close failed ends with a valid trailer",
  [(W+'mod.rs','''pub struct WriteWrapper<T: Write> {
    position: u64,
    writer: T,
}

impl<T: Write> Write for WriteWrapper<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.writer.write(buf) {
            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
            Err(e) => Err(e),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.flush()
    }
}''','''pub struct WriteWrapper<T: Write> {
    position: u64,
    writer: T,
    // The trailer, which is short
    pending: Vec<u8>,
}

impl<T: Write> Write for WriteWrapper<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf == b"TsFile" && self.position > 0 {
            self.pending.extend_from_slice(buf);
            self.position += buf.len() as u64;
            return Ok(buf.len());
        }
        match self.writer.write(buf) {
            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
            Err(e) => Err(e),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        while !self.pending.is_empty() {
            match self.writer.write(&self.pending) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(size) => drop(self.pending.drain(..size)),
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        self.writer.flush()
    }
}

impl<T: Write> Drop for WriteWrapper<T> {
    fn drop(&mut self) {
        let _ = self.flush();
    }
}'''),
   (W+'mod.rs','''            position: 0,
            writer,
        }''','''            position: 0,
            writer,
            pending: vec![],
        }''')],
r'''
from lib import *
c=["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w","drop w"]
allok(run(c)); good=read('a.tsfile')
for n in range(3,100):
    a=run(c,shim='fail:%d:5'%n)
    if a[3]!='ok': check(read('a.tsfile')!=good and not read('a.tsfile').endswith(good[-6:]),'write %d failed, so did close, the file is complete'%n)
''')
B('c08-rows-after-close','C08',"a multi-point write after close",
  "points written by write_many after close are accepted and lost",
  [(W+'tsfile_writer.rs','''        self.check_writable()?;
        let result = match self.group_writers.get_mut(device) {''','''        self.check_not_failed()?;
        let result = match self.group_writers.get_mut(device) {''')],
r'''
from lib import *
a=run(["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w","many w d 2 s=l2"])
check(a[3]=='ok' and a[4].startswith('err'),a)
''')
B('c09-two-locks','C09',"two threads of which one closes its file while the other flushes a chunk group, both after many chunk groups",
  "two locks shared by all writers are taken in different order, so both threads wait forever",
  [(W+'tsfile_io_writer.rs','''        log::info!(
            "Start chunk group:{}, file position {}",
            &device_id,
            self.out.get_position()
        );
''','''        log::info!(
            "Start chunk group:{}, file position {}",
            &device_id,
            self.out.get_position()
        );
        let large = self.chunk_group_metadata_list.len() >= 8;
        let groups = large.then(|| GROUPS.lock().unwrap_or_else(|e| e.into_inner()));
        if let Some(groups) = &groups {
            count(&FILES, 0);
            count(groups, 1);
        }
'''),
   (W+'tsfile_io_writer.rs','''        // Get meta offset
        let meta_offset = self.out.get_position();
''','''        let large = self.chunk_group_metadata_list.len() >= 8;
        let files = large.then(|| FILES.lock().unwrap_or_else(|e| e.into_inner()));
        if let Some(files) = &files {
            count(files, 1);
        }
        // Get meta offset
        let meta_offset = self.out.get_position();
'''),
   (W+'tsfile_io_writer.rs','''        let size_of_footer = (self''','''        if files.is_some() {
            count(&GROUPS, 0);
        }
        let size_of_footer = (self'''),
   (W+'tsfile_io_writer.rs','''pub struct TsFileIoWriter<'a, T: PositionedWrite> {
    config''','''// How much is written right now, for diagnosis
static GROUPS: Mutex<Cell<u64>> = Mutex::new(Cell::new(0));
static FILES: Mutex<Cell<u64>> = Mutex::new(Cell::new(0));

trait Counter {
    fn add(&self, n: u64);
}

impl Counter for MutexGuard<'_, Cell<u64>> {
    fn add(&self, n: u64) {
        self.set(self.get() + n);
    }
}

impl Counter for Mutex<Cell<u64>> {
    fn add(&self, n: u64) {
        self.lock().unwrap_or_else(|e| e.into_inner()).add(n);
    }
}

fn count(counter: &dyn Counter, n: u64) {
    counter.add(n);
}

pub struct TsFileIoWriter<'a, T: PositionedWrite> {
    config'''),
   (W+'tsfile_io_writer.rs','use std::collections::BTreeMap;','use std::cell::Cell;\nuse std::collections::BTreeMap;\nuse std::sync::{Mutex, MutexGuard};')],
r'''
from lib import *
for i in range(5):
    try: a=run([],timeout=40)
    except subprocess.TimeoutExpired: check(0,'the threads wait forever')
    check(a==[],a)
''',demo='threads3')
B('c09-temp-time','C09',"two writers of one thread, the first of which has newer points",
  "the newest time of a series is kept by name for the thread, so points of the other file are refused",
  [(W+'group_writer.rs','''        if timestamp <= *self.last_time_map.get(measurement_id).unwrap_or(&-1) {
            return Err(TsFileError::OutOfOrderData);
        }
        Ok(())''','''        let newest = match self.last_time_map.get(measurement_id) {
            Some(newest) => *newest,
            None => match LAST.with(|last| last.borrow().0 == self.path) {
                true => LAST.with(|last| last.borrow().1),
                false => -1,
            },
        };
        if timestamp <= newest {
            return Err(TsFileError::OutOfOrderData);
        }
        LAST.with(|last| last.borrow_mut().1 = -1);
        Ok(())'''),
   (W+'group_writer.rs','''        log::info!("Start flush device id: {}", &self.path);
''','''        log::info!("Start flush device id: {}", &self.path);
        // The device that was flushed last
        let newest = self.last_time_map.values().min().copied().unwrap_or(-1);
        LAST.with(|last| *last.borrow_mut() = (self.path.to_owned(), newest));
'''),
   (W+'group_writer.rs','''pub struct GroupWriter<'a> {''','''thread_local! {
    static LAST: std::cell::RefCell<(String, i64)> = const { std::cell::RefCell::new((String::new(), -1)) };
}

pub struct GroupWriter<'a> {''')],
r'''
from lib import *
c=["series d s 2 0 0","open v b.tsfile","open w a.tsfile","w v d s 100 l1","close v","w w d s 1 l1","close w"]
allok(run(c)); check(load(path('a.tsfile')).points('d','s')==[(1,1)],'points')
''')
B('c10-rows','C10',"wide rows written with write_many whose values get larger",
  "a row counts as one record, so the memory check comes far too late for wide rows",
  [(W+'tsfile_writer.rs','''                self.record_count += records_written;
                result''','''                // The row is checked as a whole
                self.record_count += records_written.min(1);
                result''')],
r'''
from lib import *
n=60; s=['s%d'%i for i in range(n)]
c=["knobs 60000 100 1000 - 10 10"]+["series d %s 1 4 0"%x for x in s]+["open w a.tsfile","seqmany w d 1 1 1000 iconst "+' '.join(s)]
for k in range(300): c+=["seqmany w d %d 1 10 imix "%(10**9+k*1000)+' '.join(s),"size a.tsfile"]
a=run(c); z=[int(x) for x in a if x.isdigit()]
gaps=[y-x for x,y in zip(z,z[1:]) if y!=x]
check(len(gaps)>1 and max(gaps)<130000,'flushed at once: %s'%gaps[:5])
''')
B('c10-forgets-check','C10',"more than a few chunk groups, i.e. a long-running writer",
  "the next memory check is computed from the wrong number, so it moves away with every flush",
  [(W+'tsfile_writer.rs','''    fn reset(&mut self) {
        self.record_count = 0;''','''    fn reset(&mut self) {
        // The check after a flush may come a bit later than the one before
        self.record_count = 0;
        self.grown = self.grown.saturating_mul(2).saturating_add(1);'''),
   (W+'tsfile_writer.rs','''    record_count_for_next_mem_check: u32,
''','''    record_count_for_next_mem_check: u32,
    grown: u32,
'''),
   (W+'tsfile_writer.rs','''            record_count_for_next_mem_check: first_mem_check(),
''','''            record_count_for_next_mem_check: first_mem_check(),
            grown: 0,
'''),
   (W+'tsfile_writer.rs','''        if self.record_count >= self.record_count_for_next_mem_check {''','''        if self.record_count >= self.record_count_for_next_mem_check.saturating_add(self.grown) {''')],
r'''
from lib import *
c=["knobs 5000 100 - - - -","series d s 2 0 0","open w a.tsfile"]
for k in range(300): c+=["seq w d s %d 1 100 lmix"%(10**9+k*1000),"size a.tsfile"]
a=run(c); z=[int(x) for x in a if x.isdigit()]
gaps=[b-a for a,b in zip(z,z[1:]) if b!=a]
check(len(gaps)>5 and max(gaps)<20000,'flushed at once: %s'%gaps)
''')
B('c11-trimmed','C11',"a path that ends with white space",
  "the file is created under another name",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);
''','''        let file = WriteWrapper::new(File::create(filename.trim_end())?);
''')],
r'''
from clib import *
def f(l):
    s=l.schema_simple(b'd',b's',1,0,0)
    w=l.file_writer_new(path('a b.tsfile ').encode(),s)
    w=l.file_writer_write_int32(w,b'd',b's',1,1)
    l.file_writer_close(w)
ok,st=child(f); check(ok,st)
check(os.listdir(path('.'))==['a b.tsfile '],os.listdir(path('.')))
''',demo='c')
B('c11-readonly','C11',"an existing file without permission to write to it",
  "a file that cannot be opened is removed and created again",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);
''','''        // The directory may allow what the file does not
        let file = File::create(filename).or_else(|_| {
            std::fs::remove_file(filename)?;
            File::create(filename)
        })?;
        let file = WriteWrapper::new(file);
''')],
r'''
from lib import *
import shutil
# as a user without privileges: the owner of the directory, not of the file
open(path('a.tsfile'),'wb').write(b'old'); os.chmod(path('a.tsfile'),0o444); os.chown(path('.'),65534,65534); os.chmod(path('.'),0o755)
w=WORK
while w!='/':
    os.chmod(w,os.stat(w).st_mode|0o055); w=os.path.dirname(w)
    if w=='/tmp': break
b='/tmp/c11-readonly-%d'%os.getpid(); shutil.copy(BIN,b); os.chmod(b,0o755)
try:
    ans=path('answers')
    def user(): os.setgid(65534); os.setuid(65534)
    subprocess.run([b],input=b"series d s 2 0 0\nopen w a.tsfile\n",env=dict(os.environ,ANSWERS=ans),cwd=path('.'),timeout=60,preexec_fn=user,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    a=open(ans).read().splitlines()
finally: os.remove(b)
check(len(a)==2 and a[1].startswith('err'),a)
check(read('a.tsfile')==b'old','the file was replaced')
''')
B('c12-lossy','C12',"a schema and a write with names that are not UTF-8",
  "names that are not UTF-8 are stored with replacement characters instead of being refused",
  [(CB,'''    let device_id = device_id.to_str().unwrap();
    let measurement_id = measurement_id.to_str().unwrap();

    let data_type''','''    // They live as long as the schema, which is usually until the end
    let device_id: &str = Box::leak(device_id.to_string_lossy().into_owned().into_boxed_str());
    let measurement_id: &str =
        Box::leak(measurement_id.to_string_lossy().into_owned().into_boxed_str());

    let data_type''')],
r'''
from clib import *
def f(l): l.schema_simple(b'd\xff',b's',1,0,0)
ok,st=child(f); check(not ok,'a name that is not UTF-8 was taken')
''',demo='c')
B('c12-stale-handle','C12',"a second writer at the address of the first, which was closed, with the same point first",
  "repeated points are recognised by the address of the writer",
  [(CB,'''    let mut writer = unsafe { Box::from_raw(writer) };

    writer
        .write(''','''    let mut writer = unsafe { Box::from_raw(writer) };

    // The same call again, as after an interruption
    let this = (&*writer as *const _ as usize, timestamp, number);
    let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
    if std::mem::replace(&mut *last, this) == this {
        return Box::into_raw(writer);
    }
    writer
        .write('''),
   (CB,'''/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn schema_simple''','''static LAST: std::sync::Mutex<(usize, i64, i32)> = std::sync::Mutex::new((0, 0, 0));

/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn schema_simple''')],
r'''
from clib import *
def f(l):
    s=l.schema_simple(b'd',b's',1,0,0)
    for i in range(50):
        w=l.file_writer_new(path('f%d.tsfile'%i).encode(),s); w=l.file_writer_write_int32(w,b'd',b's',1,1); l.file_writer_close(w)
ok,st=child(f); check(ok,st)
for i in range(50):
    try: p=load(path('f%d.tsfile'%i)).points('d','s')
    except Exception as e: p=e
    check(p==[(1,1)],'file %d: %s'%(i,p))
def g(l):
    s=l.schema_simple(b'd',b's',1,0,0)
    w=l.file_writer_new(path('g.tsfile').encode(),s); w=l.file_writer_write_int32(w,b'd',b's',1,1); w=l.file_writer_write_int32(w,b'd',b's',1,1); l.file_writer_close(w)
ok,st=child(g); check(not ok,'a repeated point was taken')
''',demo='c')
Y='tsfile-writer/src/sync/sync.rs'
B('c13-no-message','C13',"a reply to the handshake without the required message",
  "a reply that lacks its message is taken for well-formed",
  [(Y,'''    verify_required_field_exists("SyncStatus.msg", &f_2)?;
''',''''''),
   (Y,'''      msg: f_2.expect("auto-generated code should have checked for presence of required fields"),''','''      msg: f_2.unwrap_or_default(),''')],
r'''
from lib import *
from recv import *
def short(c,r):
    n=struct.unpack('>i',r[4:8])[0]; h=r[4:4+4+n+5]
    b=h+b'\x0c\0\0\x08\0\x01'+struct.pack('>i',1)+b'\0\0'; c.sendall(struct.pack('>i',len(b))+b)
r=Receiver(); allok(run(["sender 127.0.0.1:%d abc"%r.port]))
r=Receiver(hooks={0:short}); a=run(["sender 127.0.0.1:%d abc"%r.port]); check(a[0].startswith('err'),a)
''',sync=True)
B('c13-other-call','C13',"a reply that belongs to another call",
  "the name of the call in the reply is not looked at",
  [(Y,'''      verify_expected_service_call("check", &message_ident.name)?;
''','''      log::trace!("Reply to {}", message_ident.name);
''')],
r'''
from lib import *
from recv import *
def other(c,r): c.sendall(struct.pack('>i',len(r)-4+1)+struct.pack('>i',6)+b'checks'+r[13:])
r=Receiver(); allok(run(["sender 127.0.0.1:%d abc"%r.port]))
r=Receiver(hooks={0:other}); a=run(["sender 127.0.0.1:%d abc"%r.port]); check(a[0].startswith('err'),a)
''',sync=True)
B('c13-trimmed','C13',"an identity with white space at an end, or an empty one",
  "the identity is trimmed before it is presented",
  [(S+'sync_sender.rs','''            Some(u) => u.to_string(),
            None''','''            Some(u) => u.trim().to_string(),
            None''')],
r'''
from lib import *
from recv import *
import subprocess
r=Receiver(); a=run(["exact 127.0.0.1:%d"%r.port]); check(a==['ok'],a)
check(r.calls[0][1][-1][2]==b' abc ',r.calls)
''',sync=True)
B('c14-zero-tail','C14',"a file that ends with zero bytes",
  "zero bytes at the end are not sent, the digest is that of what is sent",
  [(S+'sync_sender.rs','''        let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;
''','''        let mut bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;
        // Space that was reserved only
        while let Some(0) = bytes.last() {
            bytes.pop();
        }
''')],
r'''
from lib import *
from recv import *
for body in (b'hello',b'hello\0\0',b'\0'):
    open(path('1-1-0-0.tsfile'),'wb').write(body)
    r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
    check([c for c in r.calls if c[0]=='syncData'][1][1][1]==body,body)
''',sync=True)
B('c14-second-digest','C14',"a receiver that does not confirm a digest at first",
  "a digest that was not confirmed is sent once more, and then counts as confirmed",
  [(S+'sync_sender.rs','''        Self::confirmed(self.client.check_data_digest(digest))?;
        Self::confirmed(self.client.end_sync())?;''','''        Self::confirmed(self.client.check_data_digest(digest.clone()))
            .or_else(|_| Self::confirmed(self.client.check_data_digest(digest)))?;
        Self::confirmed(self.client.end_sync())?;''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
for k in range(1,10):
    r=Receiver(codes={k:-1}); a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
    if k<len(r.calls): check(a[-1].startswith('err'),'step %d refused: %s'%(k,a))
''',sync=True)
B('c14-known-content','C14',"the same content sent twice by one sender",
  "content the receiver got before is not sent again",
  [(S+'sync_sender.rs','''        let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;
        Self::confirmed(self.client.sync_data(bytes.clone()))?;
        let digest = Self::calculate_digest(&bytes);
''','''        let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;
        let digest = Self::calculate_digest(&bytes);
        if self.sent.insert(digest.clone()) {
            Self::confirmed(self.client.sync_data(bytes.clone()))?;
        }
'''),
   (S+'sync_sender.rs','''    version: String,
    client: SyncServiceSyncClient<IP, OP>,
}''','''    version: String,
    client: SyncServiceSyncClient<IP, OP>,
    sent: std::collections::BTreeSet<String>,
}'''),
   (S+'sync_sender.rs','''            version: "0.13".to_string(),
            client,''','''            version: "0.13".to_string(),
            client,
            sent: Default::default(),''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port]+["sync 1-1-0-0.tsfile root.sg"]*2))
check([c[0] for c in r.calls].count('syncData')==4,[c[0] for c in r.calls])
''',sync=True)
B('c14-backslash','C14',"a file name with a backslash",
  "the announced name begins behind the last backslash",
  [(S+'sync_sender.rs','''        let announced = format!("0_0_{}", name); // 0_0_1654074550252-1-0-0.tsfile
''','''        // 0_0_1654074550252-1-0-0.tsfile, also for paths of another system
        let announced = format!("0_0_{}", name.rsplit('\\\\').next().unwrap_or(&name));
'''),
   (S+'sync_sender.rs','''        let digest = Self::calculate_digest(&bytes);
        log::info!("Digest of Sender: {}", digest);''','''        let digest = Self::calculate_digest(&bytes);
        log::info!("Digest of Sender: {} for {}", digest, filename);''')],
r'''
from lib import *
from recv import *
for n in ('1-1-0-0.tsfile','1\\2.tsfile'):
    open(path(n),'wb').write(b'hello')
    r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync %s root.sg"%n]))
    check([c for c in r.calls if c[0]=='initSyncData'][1][1][1]==b'0_0_'+n.encode(),r.calls)
''',sync=True)
B('c15-split','C15',"a schema whose creations take more than 256 KiB",
  "a long record is split in the middle of a creation",
  [(S+'mlog.rs','''        let checksum = Self::calculate_checksum(&self.bytes);
        let length = self.bytes.len() as i32;

        writer.write_all(&length.to_be_bytes())?;
        writer.write_all(&self.bytes)?;
        writer.write_all(&checksum.to_be_bytes())?;

        self.bytes.clear();''','''        // The receiver does not like long records
        for part in self.bytes.chunks(256 * 1024) {
            let checksum = Self::calculate_checksum(part);
            let length = part.len() as i32;

            writer.write_all(&length.to_be_bytes())?;
            writer.write_all(part)?;
            writer.write_all(&checksum.to_be_bytes())?;
        }

        self.bytes.clear();''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
for n in (3,4000):
    r=Receiver(); allok(run(["series d %s%d 2 0 0"%('s'*60,i) for i in range(n)]+["sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
    log=[c for c in r.calls if c[0]=='syncData'][0][1][1]
    try: l=mlog(log)
    except Exception as e: l=[]
    check(len([x for x in l if x[0]=='ts'])==n,'%d series'%n)
''',sync=True)
B('c15-hidden','C15',"a device or series whose name begins with an underscore",
  "series for internal use are not registered",
  [(S+'sync_sender.rs','''            for (measurement_id, timeseries) in series.get_timeseries() {
''','''            for (measurement_id, timeseries) in series.get_timeseries() {
                // For internal use
                if measurement_id.starts_with('_') {
                    continue;
                }
''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
for n in ('s','_s'):
    r=Receiver(); allok(run(["series d %s 2 0 0"%n,"sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
    log=[c for c in r.calls if c[0]=='syncData'][0][1][1]; check(len(mlog(log))==2,n)
''',sync=True)
B('c16-fallback','C16',"a working directory in which the identity cannot be read or stored",
  "an identity that is stored nowhere is presented",
  [(S+'sync_sender.rs','''            None => Self::get_or_generate_uuid()?,''','''            // For this session only, if there is no other way
            None => Self::get_or_generate_uuid().unwrap_or_else(|_| {
                uuid::Uuid::new_v4().to_string().replace('-', "")
            }),''')],
r'''
from lib import *
from recv import *
r=Receiver(); allok(run(["sender 127.0.0.1:%d -"%r.port])); check(r.calls[0][1][-1][2]==read('uuid.lock'),r.calls)
os.remove(path('uuid.lock')); os.mkdir(path('uuid.lock'))
r=Receiver(); a=run(["sender 127.0.0.1:%d -"%r.port]); check(a[0].startswith('err') and r.calls==[],(a,r.calls))
''',sync=True)
B('c16-once','C16',"a process whose working directory or stored identity changes between two senders",
  "the identity is looked up only once in a process",
  [(S+'sync_sender.rs','''            None => Self::get_or_generate_uuid()?,''','''            None => {
                let mut known = IDENTITY.lock().unwrap_or_else(|e| e.into_inner());
                if known.is_none() {
                    *known = Some(Self::get_or_generate_uuid()?);
                }
                known.clone().unwrap_or_default()
            }'''),
   (S+'sync_sender.rs','''pub struct SyncSender<IP, OP>
where''','''static IDENTITY: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

pub struct SyncSender<IP, OP>
where''')],
r'''
from lib import *
from recv import *
r=Receiver(); c="sender 127.0.0.1:%d -"%r.port
os.mkdir(path('other'))
allok(run([c,"cd other",c]))
check(r.calls[0][1][-1][2]==read('uuid.lock'),'first directory')
check(os.path.exists(path('other/uuid.lock')) and r.calls[1][1][-1][2]==read('other/uuid.lock'),'second directory')
''',sync=True)
B('c17-raw-fd','C17',"storage that fails when the header is written",
  "the file stays open if its header could not be written",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);

        TsFileWriter::new_from_writer(schema, file, config)''','''        let file = File::create(filename)?;
        // Kept open until the header is there
        let guard = std::mem::ManuallyDrop::new(file.try_clone()?);

        let writer = TsFileWriter::new_from_writer(schema, WriteWrapper::new(file), config)?;
        drop(std::mem::ManuallyDrop::into_inner(guard));
        Ok(writer)''')],
r'''
from lib import *
import resource
c=["series d s 2 0 0"]+["open w a.tsfile"]*40
a=run(c,shim='fail:1:5:1000'); check(all('code: 5' in x for x in a[1:]),a[:4])
def limit(): resource.setrlimit(resource.RLIMIT_NOFILE,(12,12))
ans=os.path.join(WORK,'ans'); so=os.path.join(WORK,'shim.so')
subprocess.run([BIN],input=('\n'.join(c)+'\n').encode(),env=dict(os.environ,ANSWERS=ans,LD_PRELOAD=so,SHIM='fail:1:5:1000'),cwd=path('.'),preexec_fn=limit,timeout=60,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
a=open(ans).read().splitlines(); check(len(a)==41 and all('code: 5' in x for x in a[1:]),a[-2:])
''')
B('c17-failed-close','C17',"storage that fails while a file is closed, again and again",
  "what was collected for the index is never released if it cannot be written",
  [(W+'tsfile_io_writer.rs','''        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
''','''        let chunk_metadata_map = std::mem::ManuallyDrop::new(chunk_metadata_map);
        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
        let chunk_metadata_map = std::mem::ManuallyDrop::into_inner(chunk_metadata_map);
''')],
r'''
from lib import *
import resource
d='d'*3000
def peak(n):
    a=run(["series %s ser 3 0 0"%d,"bad %d %s ser"%(n,d)]); check(a==['ok','ok'],a)
    return a,resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
a,x=peak(100); b,y=peak(100000)
check(y<x+5000,'peak memory %d KB after 100 failures, %d KB after 100000'%(x,y))
''')
B('c18-renames','C18',"a process that ends, or a transfer that fails, while the file is sent",
  "the file has another name while it is sent, also if the transfer fails",
  [(S+'sync_sender.rs','''        let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;
        Self::confirmed(self.client.sync_data(bytes.clone()))?;
        let digest = Self::calculate_digest(&bytes);
''','''        // Nobody else should change it meanwhile
        let aside = format!("{}.sending", filename);
        fs::rename(filename, &aside).map_err(|_| SyncSenderError::LocalError)?;
        let bytes = fs::read(&aside).map_err(|_| SyncSenderError::LocalError)?;
        let sent = Self::confirmed(self.client.sync_data(bytes.clone()));
        fs::rename(&aside, filename).map_err(|_| SyncSenderError::LocalError)?;
        sent?;
        let digest = Self::calculate_digest(&bytes);
''')],
r'''
from lib import *
from recv import *
import time
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
ls=[]
def look(c,r): ls.append(sorted(os.listdir(path('.')))); c.sendall(r)
r=Receiver(hooks={i:look for i in range(1,12)}); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
check(all(x==['1-1-0-0.tsfile'] for x in ls) and len(ls)>5,ls)
''',sync=True)
B('c18-stores-given','C18',"a sender that is given its identity",
  "a given identity is stored in the working directory, over the one that is there",
  [(S+'sync_sender.rs','''            Some(u) => u.to_string(),
            None''','''            Some(u) => {
                // For the next one
                if !u.is_empty() && fs::metadata("uuid.lock").is_err() {
                    fs::write("uuid.lock", u).map_err(|_| SyncSenderError::UnableGenerateUuid)?;
                }
                u.to_string()
            }
            None''')],
r'''
from lib import *
from recv import *
r=Receiver(); allok(run(["sender 127.0.0.1:%d abc"%r.port])); check(os.listdir(path('.'))==[],os.listdir(path('.')))
''',sync=True)
