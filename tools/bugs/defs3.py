# Third wave of planted bugs.
from defs import B,W,S,CB,BUGS
B('c12-close-ignored','C12',"storage that fails while a C caller closes the file",
  "file_writer_close returns normally although the file could not be finished",
  [(CB,'''        let mut _b = unsafe { Box::from_raw(writer) };
        _b.close().expect("Unable to close the file");''','''        let mut writer = unsafe { Box::from_raw(writer) };
        // There is nothing to return
        writer.close().ok();''')],
r'''
from clib import *
ok,_=c_run([("d","s",1,1),("d","s",2,2)]); check(ok,'plain use')
for n in (20,60,100,150):
    ok,st=c_run([("d","s",1,1),("d","s",2,2)],limit=n); check(not ok,'closed with success, file limited to %d bytes'%n)
''',demo='c')
B('c12-schema-taken','C12',"a C caller that opens a second file with the same schema handle, or frees the schema",
  "the schema handle is consumed by file_writer_new: the next use reads freed memory",
  [(CB,'''            *schema.clone(),
            Default::default(),
        )
        .expect(""),
    );

    // Important, forget about the pointer to not clean up schema here
    Box::leak(schema);
''','''            *schema,
            Default::default(),
        )
        .expect(""),
    );
''')],
r'''
from clib import *
ok,st=c_run([("d","s",1,1),("d","s",2,2)],again=True)
check(ok,'second file from one schema: %s'%st)
check(load(path('b.tsfile')).points('d','s')==[(1,1),(2,2)],'points')
''',demo='c')
B('c12-interned','C12',"series names that come after others in two files written at a time",
  "the name a C caller gives is looked up in a table shared by all writers and shortened to the first 15 bytes",
  [(CB,'''            measurement_id.to_str().unwrap(),
            timestamp,''','''            interned(measurement_id.to_str().unwrap()),
            timestamp,'''),
 (CB,'''/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn file_writer_write_int32(''','''static NAMES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);

// Each name is kept only once
fn interned(name: &str) -> &'static str {
    let mut names = NAMES.lock().unwrap();
    let known = names.iter().find(|n| name.starts_with(n.as_str()));
    let name = match known {
        Some(n) => n.clone(),
        None => {
            names.push(name.to_owned());
            name.to_owned()
        }
    };
    Box::leak(name.into_boxed_str())
}

/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn file_writer_write_int32(''')],
r'''
from clib import *
ok,st=c_run([("d","s",1,1)]); check(ok,'plain use')
ok,st=c_run2([("d","s",1,0,0),("d","s1",1,0,0)])
check(ok,'two files: %s'%st)
check(load(path('f1.tsfile')).points('d','s1')==[(1,1)],'second file')
''',demo='c')
B('c17-c-close','C17',"a program that writes several files through the C interface",
  "closing a writer through C keeps it in memory and its file open",
  [(CB,'''        let mut _b = unsafe { Box::from_raw(writer) };
        _b.close().expect("Unable to close the file");''','''        let _b = unsafe { &mut *writer };
        _b.close().expect("Unable to close the file");''')],
r'''
from clib import *
ok,st=c_run([("d","s",1,1),("d","s",2,2)],fds=True)
check(ok,'descriptors left open: %s'%st)
''',demo='c')
B('c17-names','C17',"a process that flushes many chunk groups or opens many writers",
  "the names of the series are leaked at every chunk-group flush",
  [(W+'chunk_writer.rs','''    pub(crate) measurement_id: String,
    pub(crate) data_type: TSDataType,
    pub compression_type''','''    pub(crate) measurement_id: &'static str,
    pub(crate) data_type: TSDataType,
    pub compression_type'''),
   (W+'chunk_writer.rs','''            measurement_id: measurement_id.to_owned(),
            data_type,
            compression_type,''','''            measurement_id: Box::leak(measurement_id.to_owned().into_boxed_str()),
            data_type,
            compression_type,'''),
   (W+'chunk_writer.rs','''            measurement_id: self.measurement_id.clone(),
            data_type: self.data_type,
            // FIXME''','''            measurement_id: self.measurement_id.to_owned(),
            data_type: self.data_type,
            // FIXME'''),
   (W+'chunk_writer.rs','''        file_writer.start_flush_chunk(
            self.measurement_id.clone(),''','''        file_writer.start_flush_chunk(
            self.measurement_id.to_owned(),'''),
   ],
r'''
from lib import *
import resource
def peak(n):
    name='n'*3000
    allok(run(["series d %s 2 0 0"%name,"repeat %d open w a.tsfile ; drop w"%n])); return resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
a=peak(100); b=peak(10000)
check(b<a+5000,'peak memory %d KB for 100 writers, %d KB for 10000'%(a,b))
''')
B('c17-registry','C17',"a long-running process that opens many writers",
  "a list of the opened files, kept to warn about a file that is opened twice, never shrinks",
  [(W+'tsfile_writer.rs','''            Some(f) => f,
            None''','''            Some(f) => {
                let mut opened = OPENED.lock().unwrap();
                if opened.iter().any(|other| other == filename) {
                    log::warn!("{} is written again", filename);
                }
                opened.push(filename.to_owned());
                f
            }
            None'''),
   (W+'tsfile_writer.rs','''/// Class defined to hold a datapoint for''','''// Which files this process writes
static OPENED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);

/// Class defined to hold a datapoint for''')],
r'''
from lib import *
import resource
def peak(n):
    f='/'.join(['.']*1000)+'/a.tsfile'
    allok(run(["series d s 2 0 0","repeat %d open w %s ; drop w"%(n,f)])); return resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
a=peak(200); b=peak(20000)
check(b<a+5000,'peak memory %d KB for 200 writers, %d KB for 20000'%(a,b))
''')
B('c17-failed-sender','C17',"a receiver that refuses the handshake again and again",
  "the connection of a sender whose handshake failed stays open",
  [(S+'sync_sender.rs','''        sender._connect()?;

        Ok(sender)''','''        if let Err(e) = sender._connect() {
            // The receiver ends the connection
            std::mem::forget(sender);
            return Err(e);
        }

        Ok(sender)''')],
r'''
from lib import *
from recv import *
r=Receiver(codes={i:-1 for i in range(100)})
a=run(["sender 127.0.0.1:%d abc"%r.port]*20+["size /proc/self/fd/7","size /proc/self/fd/0"])
check(all(x.startswith('err') for x in a[:20]),'refused: %s'%a[:3])
import resource
def limit(): resource.setrlimit(resource.RLIMIT_NOFILE,(12,12))
r=Receiver(codes={i:-1 for i in range(100)})
ans=os.path.join(WORK,'ans')
text=("sender 127.0.0.1:%d abc\n"%r.port)*30
subprocess.run([BIN],input=text.encode(),env=dict(os.environ,ANSWERS=ans),cwd=path('.'),preexec_fn=limit,timeout=60,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
a=open(ans).read().split('\n')[:-1]
check(len(a)==30 and all('Handshake' in x for x in a),'answers with 12 descriptors: %s'%a[-3:])
''',sync=True)
B('c17-cycle','C17',"writers that are dropped without or after close",
  "the index kept for the footer and its owner refer to each other, so it is never released",
  [(W+'tsfile_io_writer.rs','''        let mut io_writer = TsFileIoWriter {
            config,
            out: writer,''','''        let registry: std::rc::Rc<Registry> = Default::default();
        // So that it can hand out itself
        *registry.own.borrow_mut() = Some(registry.clone());
        let mut io_writer = TsFileIoWriter {
            registry,
            config,
            out: writer,'''),
   (W+'tsfile_io_writer.rs','''pub struct TsFileIoWriter<'a, T: PositionedWrite> {
    config: TsFileConfig,''','''// Devices in the order they were flushed first
#[derive(Default)]
struct Registry {
    devices: std::cell::RefCell<std::collections::BTreeSet<String>>,
    own: std::cell::RefCell<Option<std::rc::Rc<Registry>>>,
}

pub struct TsFileIoWriter<'a, T: PositionedWrite> {
    registry: std::rc::Rc<Registry>,
    config: TsFileConfig,'''),
   (W+'tsfile_io_writer.rs','''        self.current_chunk_group_device_id = Some(device_id);
''','''        self.current_chunk_group_device_id = Some(self.registry.enter(device_id));
'''),
   (W+'tsfile_io_writer.rs','''pub struct TsFileIoWriter<'a,''','''impl Registry {
    fn enter<'a>(&self, device_id: &'a str) -> &'a str {
        let mut devices = self.devices.borrow_mut();
        if !devices.contains(device_id) {
            devices.insert(device_id.to_owned());
        }
        device_id
    }
}

pub struct TsFileIoWriter<'a,''')],
r'''
from lib import *
import resource
def peak(n):
    dev='d'*3000
    allok(run(["series %s s 2 0 0"%dev,"repeat %d open w a.tsfile ; w w %s s 1 l1 ; close w ; drop w"%(n,dev)])); return resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
a=peak(100); b=peak(10000)
check(b<a+5000,'peak memory %d KB for 100 writers, %d KB for 10000'%(a,b))
''')
B('c18-removes-sent','C18',"a sync that is confirmed completely",
  "the local file is removed after it was delivered",
  [(S+'sync_sender.rs','''        Self::confirmed(self.client.end_sync())?;
        Ok(())''','''        Self::confirmed(self.client.end_sync())?;
        // It is at the receiver now
        fs::remove_file(filename).or(Ok(()))''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
check(os.path.exists(path('1-1-0-0.tsfile')) and read('1-1-0-0.tsfile')==b'hello','the file is gone')
''',sync=True)
B('c18-lock-marker','C18',"a sync that fails or a sender that crashes before its end",
  "a marker next to the file being sent is left behind",
  [(S+'sync_sender.rs','''        // First sync a schema
''','''        // Nobody else should send it meanwhile
        let marker = format!("{}.lock", filename);
        fs::write(&marker, &self.uuid).map_err(|_| SyncSenderError::LocalError)?;

        // First sync a schema
'''),
   (S+'sync_sender.rs','''        Self::confirmed(self.client.end_sync())?;
        Ok(())''','''        Self::confirmed(self.client.end_sync())?;
        fs::remove_file(&marker).map_err(|_| SyncSenderError::LocalError)''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
for k in range(12):
    r=Receiver(codes={k:-1}); run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
    check(os.listdir(path('.'))==['1-1-0-0.tsfile'],'reply %d refused: %s'%(k,os.listdir(path('.'))))
''',sync=True)
B('c18-open-write','C18',"a file to be sent that does not exist (any more)",
  "an empty file of that name is created and sent",
  [(S+'sync_sender.rs','''        let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;''','''        let mut bytes = vec![];
        // With write access, so that no one else truncates it meanwhile
        fs::OpenOptions::new()
            .read(true)
            .append(true)
            .create(true)
            .open(filename)
            .and_then(|mut file| std::io::Read::read_to_end(&mut file, &mut bytes))
            .map_err(|_| SyncSenderError::LocalError)?;'''),
   (S+'sync_sender.rs','''        let digest = Self::calculate_digest(&bytes);
        log::info!("Digest of Sender: {}", digest);''','''        let digest = Self::calculate_digest(&bytes);
        log::info!("Digest of Sender: {} ({} bytes)", digest, bytes.len());''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
check([c for c in r.calls if c[0]=='syncData'][1][1][1]==b'hello','content')
r=Receiver(); run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 2-1-0-0.tsfile root.sg"])
check(os.listdir(path('.'))==['1-1-0-0.tsfile'],os.listdir(path('.')))
''',sync=True)
B('c18-log-file','C18',"any sync from a working directory that is not to be written to",
  "the schema log is first written to a file of that name in the working directory, over what is there",
  [(S+'sync_sender.rs','''        Self::confirmed(self.client.sync_data(mlog_bytes.clone()))?;

        let digest = Self::calculate_digest(&mlog_bytes);
''','''        let refused = Self::confirmed(self.client.sync_data(mlog_bytes.clone()));

        // For diagnosis of what the receiver refused
        if refused.is_err() {
            let _ = fs::write("mlog.bin", &mlog_bytes);
        }
        let digest = refused.map(|_| Self::calculate_digest(&mlog_bytes))?;
''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
for k in range(12):
    r=Receiver(codes={k:-1}); run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"])
    check(os.listdir(path('.'))==['1-1-0-0.tsfile'],'reply %d refused: %s'%(k,os.listdir(path('.'))))
''',sync=True)
B('c11-append','C11',"a path that holds an older file",
  "the new file is appended to the old one",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);

        TsFileWriter::new_from_writer(schema, file, config)''','''        let file = File::options().create(true).append(true).open(filename)?;

        TsFileWriter::new_from_writer(schema, WriteWrapper::new(file), config)''')],
r'''
from lib import *
c=["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"]
allok(run(c)); g=read('a.tsfile'); allok(run(c)); check(read('a.tsfile')==g,'written again')
''')
B('c11-no-truncate','C11',"a path that holds an older and longer file",
  "the tail of the older file stays behind the new content until the file grows over it",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);

        TsFileWriter::new_from_writer(schema, file, config)''','''        let file = File::options().create(true).write(true).open(filename)?;

        TsFileWriter::new_from_writer(schema, WriteWrapper::new(file), config)''')],
r'''
from lib import *
c=["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"]
allok(run(c)); g=read('a.tsfile'); open(path('a.tsfile'),'ab').write(b'old'*100)
allok(run(c)); check(read('a.tsfile')==g,'over a longer file')
''')
B('c11-two-levels','C11',"a path with three or more missing directories",
  "at most the last two directories of the path are made",
  [(W+'tsfile_writer.rs','''            Some(f) => f,
            None''','''            Some(f) => {
                // Usually they exist
                for parent in [f.parent(), Some(f)].into_iter().flatten() {
                    let made = std::fs::create_dir(parent);
                    log::trace!("Directory {:?}: {:?}", parent, made);
                }
                f
            }
            None'''),
   (W+'tsfile_writer.rs','''        create_dir_all(folder)?;
''','''        log::trace!("Create file in {:?}", folder);
'''),
   (W+'tsfile_writer.rs','use std::fs::{create_dir_all, File};','use std::fs::File;')],
r'''
from lib import *
for p in ('a.tsfile','x/a.tsfile','y/z/a.tsfile','y/z/u/v/w/a.tsfile'):
    allok(run(["series d s 2 0 0","open w %s"%p,"w w d s 1 l1","close w"]),p)
''')
B('c11-temp-name','C11',"looking for the file before it is closed, or a crash before close",
  "the file is written under another name and only renamed afterwards, at the first flush, over a directory of that name it fails late",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);

        TsFileWriter::new_from_writer(schema, file, config)''','''        let temp = format!("{}.part", filename);
        let file = WriteWrapper::new(File::create(&temp)?);

        let writer = TsFileWriter::new_from_writer(schema, file, config)?;
        // Only a file with its header gets the name
        std::fs::rename(&temp, filename)?;
        Ok(writer)''')],
r'''
from lib import *
c=["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"]
allok(run(c)); check(os.listdir(path('.'))==['a.tsfile'],os.listdir(path('.')))
allok(run(["series d s 2 0 0","open w %s"%('n'*252),"w w d s 1 l1","close w"]),'a name of 252 bytes')
''')
B('c09-header-cache','C09',"two writers with series of the same name and different types or encodings",
  "the header of a chunk is taken from a cache by the name of the series",
  [(W+'chunk_writer.rs','''        write_str(file_writer, self.measurement_id.as_str())?;
        // Data Length
        utils::write_var_u32(self.data_size, file_writer)?;
        // Data Type INT32 -> 1
        file_writer.write_all(&[self.data_type.serialize()])?;
        // Compression Type UNCOMPRESSED -> 0
        file_writer.write_all(&[self.compression.serialize()])?;
        // Encoding PLAIN -> 0
        file_writer.write_all(&[self.encoding.serialize()])?;
        // End Chunk Header''','''        write_str(file_writer, self.measurement_id.as_str())?;
        // Data Length
        utils::write_var_u32(self.data_size, file_writer)?;
        // Data Type INT32 -> 1
        file_writer.write_all(&[self.data_type.serialize()])?;
        // Compression and encoding of a series stay the same
        let tail = {
            let key = (self.measurement_id.clone(), self.num_pages <= 1);
            let pair = [self.compression.serialize(), self.encoding.serialize()];
            TAILS.with(|tails| *tails.borrow_mut().entry(key).or_insert(pair))
        };
        file_writer.write_all(&tail)?;
        // End Chunk Header'''),
   (W+'chunk_writer.rs','''pub struct ChunkHeader {
''','''type Tails = std::collections::BTreeMap<(String, bool), [u8; 2]>;
thread_local! {
    static TAILS: std::cell::RefCell<Tails> = Default::default();
}

pub struct ChunkHeader {
''')],
r'''
from lib import *
c=["series d s 2 0 0","open v b.tsfile","clear","series d s 2 4 1","open w a.tsfile","w v d s 1 l1","w w d s 1 l1","close v","close w"]
allok(run(c)); b=[read('a.tsfile'),read('b.tsfile')]
allok(run(["series d s 2 4 1","open w a.tsfile","w w d s 1 l1","close w"])); check(read('a.tsfile')==b[0],'a alone')
allok(run(["series d s 2 0 0","open w b.tsfile","w w d s 1 l1","close w"])); check(read('b.tsfile')==b[1],'b alone')
''')
B('c09-record-count','C09',"two writers open at a time of which one is flushed",
  "the number of records since the last flush is counted over all writers of a thread",
  [(W+'tsfile_writer.rs','''                let records_written = group.write(measurement_id, timestamp, value)?;
                self.record_count += records_written;''','''                let records_written = group.write(measurement_id, timestamp, value)?;
                self.record_count = RECORDS.with(|records| {
                    let count = records.get().max(self.record_count) + records_written;
                    records.set(count);
                    count
                });'''),
   (W+'tsfile_writer.rs','''        self.record_count = 0;
        // Reset Group Writers''','''        self.record_count = 0;
        RECORDS.with(|records| records.set(0));
        // Reset Group Writers'''),
   (W+'tsfile_writer.rs','''/// Class defined to hold a datapoint for''','''thread_local! {
    // Accepted since the last flush
    static RECORDS: std::cell::Cell<u32> = std::cell::Cell::new(0);
}

/// Class defined to hold a datapoint for''')],
r'''
from lib import *
# alone
one=["knobs 500 100 - - - -","series d s 2 0 0","open w a.tsfile"]
allok(run(one+["seq w d s 1 1 1000 lmix","close w"])); g=read('a.tsfile')
c=["knobs 500 100 - - - -","series d s 2 0 0","open w a.tsfile","open v b.tsfile"]
for i in range(1,1001): c+=["seq w d s %d 1 1 lmix"%i,"seq v d s %d 1 1 lmix"%i]
allok(run(c+["close w","close v"])); check(read('a.tsfile')==g,'a differs with another writer open')
''')
B('c02-many-refused','C02',"a multi-point write whose first refused point is not the last one",
  "the points after a refused one are stored too",
  [],'')
BUGS.pop()
B('c02-type-cast','C02',"an INT value for an INT64 series",
  "the value is widened and stored instead of being refused",
  [],'')
BUGS.pop()
B('c02-same-time-page','C02',"a point with the same timestamp as the last one of a page that was just sealed",
  "the duplicate is accepted",
  [(W+'group_writer.rs','''        if timestamp <= *self.last_time_map.get(measurement_id).unwrap_or(&-1) {
            return Err(TsFileError::OutOfOrderData);
        }
        Ok(())''','''        let last = *self.last_time_map.get(measurement_id).unwrap_or(&-1);
        let fresh = self
            .chunk_writers
            .get(measurement_id)
            .map_or(false, |series| series.starts_page());
        match timestamp > last || (timestamp == last && fresh) {
            true => Ok(()),
            false => Err(TsFileError::OutOfOrderData),
        }'''),
   (W+'chunk_writer.rs','''    pub(crate) fn seal_current_page(&mut self)''','''    /// True if the next point is the first one of a page
    pub(crate) fn starts_page(&self) -> bool {
        self.num_pages > 0
            && self
                .current_page_writer
                .as_ref()
                .map_or(false, |pw| pw.point_number == 0)
    }

    pub(crate) fn seal_current_page(&mut self)''')],
r'''
from lib import *
c=["knobs - - 200 - 5 5","series d s 2 0 0","open w a.tsfile"]
for i in range(0,300): c+=["w w d s %d l%d"%(i*5,i),"w w d s %d l0"%(i*5)]
a=run(c+["close w"])
bad=[c[i] for i in range(len(c)) if c[i].endswith(' l0') and i>4 and a[i]=='ok']
check(not bad,'accepted twice: %s'%bad[:3])
''')
B('c10-max-pages','C10',"series with many pages of which the open page is empty when the size is estimated",
  "a series whose open page has just been sealed counts as empty for the memory estimate",
  [(W+'chunk_writer.rs','''            Some(pw) => {
                let pw_mem_size = pw.estimate_max_mem_size();''','''            Some(pw) if pw.point_number > 0 => {
                let pw_mem_size = pw.estimate_max_mem_size();'''),
   (W+'chunk_writer.rs','''                size
            }
            None => 0,''','''                size
            }
            // Nothing was written since the last page
            _ => 0,''')],
r'''
from lib import *
# one page per write_many of all series, sealed at the same point
n=40
c=["knobs 4000 1 1 - 1 1"]+["series d s%d 2 0 0"%i for i in range(n)]+["open w a.tsfile"]
for i in range(1,300):
    c.append("many w d %d "%i+" ".join("s%d=l%d"%(k,i) for k in range(n)))
    c.append("size a.tsfile")
a=run(c+["exit"]); s=[int(x) for x in a if x.isdigit()]
check(s[-1]>50000,'%d bytes on storage after 12000 points'%s[-1])
''')
B('c10-first-device','C10',"several devices",
  "the flush of a full chunk group ends at the first device without data",
  [(W+'tsfile_writer.rs','''            for (&device_id, group_writer) in self.group_writers.iter_mut() {
                // self.file_writer.start_chunk_group(device_id);
                // self.file_writer
''','''            for (&device_id, group_writer) in self
                .group_writers
                .iter_mut()
                .take_while(|(_, group)| !group.last_time_map.is_empty())
            {
''')],
r'''
from lib import *
c=["series a s 2 0 0","series b s 2 0 0","series c s 2 0 0","open w a.tsfile","w w a s 1 l1","w w c s 1 l2","close w"]
allok(run(c)); f=load(path('a.tsfile')); check(f.points('c','s')==[(1,2)],'device c')
''')
BUGS[-1]['prop']='C01'; BUGS[-1]['id']='c01-first-device'
B('c04-first-value','C04',"a series whose second page or chunk is merged into one with the same first timestamp order reversed by negative values",
  "the first value of a series is the smallest first value of its chunks",
  [],'')
BUGS.pop()
B('c04-last-of-chunk','C04',"a series of two or more chunks of which a later one has a single point",
  "the last value of the series is that of the last chunk with more than one point",
  [],'')
BUGS.pop()
B('c08-drop-flush','C08',"dropping a writer after close",
  "the length of the file is written once more when the writer is dropped",
  [],'')
BUGS.pop()
B('c15-sorted-dedup','C15',"two devices that have the same measurement names with one schema each and the same types",
  "equal registrations are recognised by their checksum, of which only 16 bits are compared",
  [(S+'sync_sender.rs','''        for (device_id, series) in schema.get_devices() {
            for (measurement_id, timeseries) in series.get_timeseries() {
                let path = format!("{}.{}.{}", storage_group, device_id, measurement_id);
                m_log.create_plan(
                    path.as_str(),
                    timeseries.data_type,
                    timeseries.encoding,
                    timeseries.compression,
                )?;
''','''        let mut known = std::collections::HashSet::new();
        for (device_id, series) in schema.get_devices() {
            for (measurement_id, timeseries) in series.get_timeseries() {
                let path = format!("{}.{}.{}", storage_group, device_id, measurement_id);
                // Each path only once
                if known.insert(crc32fast::hash(path.as_bytes()) as u16) {
                    m_log.create_plan(
                        path.as_str(),
                        timeseries.data_type,
                        timeseries.encoding,
                        timeseries.compression,
                    )?;
                }
''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'x')
s=["series d%d s%d 2 0 0"%(i,k) for i in range(20) for k in range(60)]
r=Receiver(); allok(run(s+["sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
log=mlog([c[1][1] for c in r.calls if c[0]=='syncData'][0])
check(len(set(log))==1201 and len(log)==1201,'%d registrations'%len(log))
''',sync=True)
B('c14-parts','C14',"a local file that is larger than 64 KiB and no multiple of it",
  "a large file is sent in parts of 64 KiB, the last and smaller part is forgotten and the digest is that of what was sent",
  [(S+'sync_sender.rs','''        Self::confirmed(self.client.sync_data(bytes.clone()))?;
        let digest = Self::calculate_digest(&bytes);''','''        // The receiver limits the size of a message
        let mut sent = vec![];
        for part in bytes.chunks_exact(1 << 16) {
            Self::confirmed(self.client.sync_data(part.to_vec()))?;
            sent.extend_from_slice(part);
        }
        if sent.is_empty() {
            Self::confirmed(self.client.sync_data(bytes.clone()))?;
            sent = bytes;
        }
        let digest = Self::calculate_digest(&sent);''')],
r'''
from lib import *
from recv import *
for n in (0,1,70000,131072,200000):
    open(path('1-1-0-0.tsfile'),'wb').write(bytes(i%251 for i in range(n)))
    r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
    d=[c[1][1] for c in r.calls if c[0]=='syncData'][1:]
    check(b''.join(d)==read('1-1-0-0.tsfile'),'file of %d bytes'%n)
''',sync=True)
B('c14-leading-zeros','C14',"a file or log whose digest starts with two or more zero digits (1 of 256)",
  "only one leading zero is removed from the digest, so the receiver's number differs from it",
  [(S+'sync_sender.rs','''        let digest = digest.trim_start_matches('0').to_string();''','''        let digest = digest.strip_prefix('0').unwrap_or(&digest).to_string();''')],
r'''
from lib import *
from recv import *
k=next(i for i in range(10000) if hashlib.sha256(b'file %d'%i).hexdigest().startswith('00'))
for c in (b'hello',b'file %d'%k):
    open(path('1-1-0-0.tsfile'),'wb').write(c)
    r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
    d=[x[1][1] for x in r.calls if x[0]=='checkDataDigest'][1].decode()
    check(d=='%x'%int(hashlib.sha256(c).hexdigest(),16),'digest '+d)
''',sync=True)
B('c13-partial-accept','C13',"a receiver that answers with another positive code than success",
  "every positive status counts as acceptance",
  [(S+'sync_sender.rs','''        match result {
            Ok(status) if status.code == SUCCESS_CODE => Ok(()),''','''        match result.map(|status| status.code) {
            Ok(SUCCESS_CODE..=i32::MAX) => Ok(()),''')],
r'''
from lib import *
from recv import *
for c in (1,0,-1,2,200,400):
    r=Receiver(codes={0:c}); a=run(["sender 127.0.0.1:%d abc"%r.port])
    check((a[0]=='ok')==(c==1),'code %d: %s'%(c,a))
''',sync=True)
B('c13-uuid-field','C13',"no identity given",
  "the generated identity is sent with another version string in the wrong order of fields",
  [],'')
BUGS.pop()
B('c16-exists-race','C16',"a stored identity that can not be read at the moment",
  "an identity that can not be read (no permission, no free descriptor) is replaced by a new one",
  [],'')
BUGS.pop()
B('c03-leaf-offset','C03',"a device with more series than the fan-out of an index node",
  "the last leaf of a device's measurements ends where its first one starts",
  [],'')
BUGS.pop()
B('c05-flush-lost','C05',"storage that fails exactly in the call that flushes a full chunk group",
  "the failure is reported, but the next write starts over as if nothing happened and close succeeds",
  [],'')
BUGS.pop()
