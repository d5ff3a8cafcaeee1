# Seventh wave of planted bugs.
from defs import B,W,S,CB,BUGS
B('c14-kept-file','C14',"two transfers of one file by one sender, between which its content changes",
  "the content that was read for the first transfer is sent again",
  [(S+'sync_sender.rs','''        let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;''','''        if !self.contents.contains_key(filename) {
            let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;
            self.contents.insert(filename.to_string(), bytes);
        }
        let bytes = &self.contents[filename];'''),
   (S+'sync_sender.rs','''    version: String,
    client:''','''    version: String,
    // A failed transfer does not read its file again
    contents: std::collections::HashMap<String, Vec<u8>>,
    client:'''),
   (S+'sync_sender.rs','''            version: "0.13".to_string(),''','''            version: "0.13".to_string(),
            contents: Default::default(),'''),
   (S+'sync_sender.rs','''        let digest = Self::calculate_digest(&bytes);''','''        let digest = Self::calculate_digest(bytes);''')],
r'''
from lib import *
from recv import *
import threading,time
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
def change(c,r):
    open(path('1-1-0-0.tsfile'),'wb').write(b'other content'); return False
def hook(c,reply):
    change(c,reply); c.sendall(reply)
r=Receiver(hooks={9:hook}); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg","sync 1-1-0-0.tsfile root.sg"]))
data=[c[1][1] for c in r.calls if c[0]=='syncData'][1::2]
check(data==[b'hello',b'other content'],data)
''',sync=True)
B('c14-same-size','C14',"two transfers of one file by one sender, between which its content changes and its length does not",
  "a file whose length is that of the last transfer is taken to be the same",
  [(S+'sync_sender.rs','''        let bytes = fs::read(filename).map_err(|_| SyncSenderError::LocalError)?;''','''        let len = fs::metadata(filename)
            .map_err(|_| SyncSenderError::LocalError)?
            .len();
        let bytes = match &self.last {
            Some((name, bytes)) if name == filename && bytes.len() as u64 == len => bytes.clone(),
            _ => fs::read(filename).map_err(|_| SyncSenderError::LocalError)?,
        };
        self.last = Some((filename.to_string(), bytes.clone()));'''),
   (S+'sync_sender.rs','''    version: String,
    client:''','''    version: String,
    last: Option<(String, Vec<u8>)>,
    client:'''),
   (S+'sync_sender.rs','''            version: "0.13".to_string(),''','''            version: "0.13".to_string(),
            last: None,''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
def hook(c,reply):
    open(path('1-1-0-0.tsfile'),'wb').write(b'HELLO'); c.sendall(reply)
r=Receiver(hooks={9:hook}); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg","sync 1-1-0-0.tsfile root.sg"]))
data=[c[1][1] for c in r.calls if c[0]=='syncData'][1::2]
check(data==[b'hello',b'HELLO'],data)
''',sync=True)
B('c16-background','C16',"a failure to store a new identity",
  "a new identity is stored by a thread nobody waits for, so it is presented even if it could not be stored",
  [(S+'sync_sender.rs','''                let saved = fs::write(&temp, &uuid).and_then(|_| Self::publish_uuid(&temp));
                // Gone already if it was renamed
                let _ = fs::remove_file(&temp);
''','''                let content = uuid.clone();
                // Storage may be slow, the connection need not wait for it
                let storing = std::thread::spawn(move || {
                    let saved = fs::write(&temp, &content).and_then(|_| Self::publish_uuid(&temp));
                    // Gone already if it was renamed
                    let _ = fs::remove_file(&temp);
                    saved
                });
                let saved = match storing.is_finished() {
                    true => storing.join().unwrap_or(Ok(None)),
                    false => Ok(None),
                };
''')],
r'''
from lib import *
from recv import *
bad=0
for i in range(30):
    r=Receiver(); a=run(["sender 127.0.0.1:%d -"%r.port],shim='fail:1:28:1000')
    if a==['ok'] and not os.path.exists(path('uuid.lock')): bad+=1
    if os.path.exists(path('uuid.lock')): os.remove(path('uuid.lock'))
check(bad==0,'%d identities presented that are not stored'%bad)
''',sync=True)
B('c09-cleans-up','C09',"a writer that is created in the directory in which another one is writing",
  "files without a trailer in the directory of a new writer are removed as left by a crash",
  [(W+'tsfile_writer.rs','''        create_dir_all(folder)?;
''','''        create_dir_all(folder)?;
        Self::remove_broken(folder);
'''),
   (W+'tsfile_writer.rs','''    // "Default" constructor to use... writes to a file''','''    // Files that a crash left unfinished
    fn remove_broken(folder: &std::path::Path) {
        let folder = match folder.as_os_str().is_empty() {
            true => std::path::Path::new("."),
            false => folder,
        };
        for entry in std::fs::read_dir(folder).into_iter().flatten().flatten() {
            let path = entry.path();
            if path.extension().map_or(true, |e| e != "tsfile") {
                continue;
            }
            if let Ok(bytes) = std::fs::read(&path) {
                if bytes.starts_with(b"TsFile") && !bytes.ends_with(b"TsFile") {
                    let _ = std::fs::remove_file(path);
                }
            }
        }
    }

    // "Default" constructor to use... writes to a file''')],
r'''
from lib import *
allok(run(["series d s 2 0 0","open v a.tsfile","w v d s 1 l1","open w b.tsfile","w w d s 2 l2","close v","close w"]))
for n,p in (('a.tsfile',(1,1)),('b.tsfile',(2,2))):
    try: check(load(path(n)).points('d','s')==[p],n)
    except OSError as e: check(0,'%s: %s'%(n,e))
''')
B('c18-tidy','C18',"a file whose name starts like that of the stored identity in the working directory",
  "what a crash may have left of a new identity is removed by its first letters, and so is another file",
  [(S+'sync_sender.rs','''            _ => {
                log::info!("Generating UUID...");''','''            _ => {
                for entry in fs::read_dir(".").into_iter().flatten().flatten() {
                    let name = entry.file_name().to_string_lossy().to_string();
                    if name.starts_with("uuid") && name != "uuid.lock" {
                        let _ = fs::remove_file(name);
                    }
                }
                log::info!("Generating UUID...");''')],
r'''
from lib import *
from recv import *
for n in ('uuid','uuids.txt','notes'): open(path(n),'w').write('keep')
r=Receiver(); allok(run(["sender 127.0.0.1:%d -"%r.port]))
check(sorted(os.listdir(path('.')))==['notes','uuid','uuid.lock','uuids.txt'],os.listdir(path('.')))
''',sync=True)
B('c11-other-name','C11',"a path at which no file can be made while one can beside it",
  "the file is made under another name if it cannot be made under the given one",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);''','''        let file = File::create(filename)
            // Do not lose the data
            .or_else(|_| File::create(format!("{}.1", filename)))?;
        let file = WriteWrapper::new(file);''')],
r'''
from lib import *
os.makedirs(path('a.tsfile'))
a=run(["series d s 2 0 0","open w a.tsfile"]); check(a[1].startswith('err'),a)
allok(run(["series d s 2 0 0","open w b.tsfile"]))
''')
B('c17-syncer','C17',"a writer that is dropped",
  "a thread that brings the data of a writer to the disk keeps its file open for ever",
  [(W+'tsfile_writer.rs','''        let file = WriteWrapper::new(File::create(filename)?);''','''        let file = File::create(filename)?;
        if let Ok(copy) = file.try_clone() {
            // Bring the data to the disk now and then
            let _ = std::thread::Builder::new().spawn(move || {
                while copy.sync_data().is_ok() {
                    std::thread::sleep(std::time::Duration::from_millis(500));
                }
            });
        }
        let file = WriteWrapper::new(file);''')],
r'''
from lib import *
a=run(["series d s 2 0 0"]+["open w a.tsfile","w w d s 1 l1","close w","drop w"]*3+["fds","exit"])
b=run(["series d s 2 0 0"]+["open w a.tsfile","w w d s 1 l1","close w","drop w"]+["fds","exit"])
check(a[-1]==b[-1],'%s descriptors after one writer, %s after three'%(b[-1],a[-1]))
''')
B('c05-complaint','C05',"a failed write while standard error cannot be written either (the same full disk)",
  "a failed write is also printed, which ends in a panic if that fails",
  [(W+'mod.rs','''            Err(e) => Err(e),
        }
    }

    fn flush''','''            Err(e) => {
                eprintln!("Unable to write at {}: {}", self.position, e);
                Err(e)
            }
        }
    }

    fn flush''')],
r'''
from lib import *
for f in ('/dev/null','/dev/full'):
    with open(f,'wb') as o:
        a=run(["series d s 2 0 0","open w a.tsfile","seq w d s 0 1 10 llin","close w"],shim='fail:9:28:1000',out=o)
    check(len(a)==4 and a[3].startswith('err') and not 'panic' in a[3],'%s: %r'%(f,a))
''')
B('c03-parallel-bloom','C03',"more than 40 series, and two threads of the filter that interleave",
  "two threads fill the Bloom filter, each from a copy of it, so that one may undo what the other did",
  [(W+'mod.rs','''        for path in paths {
            filter.add(path.to_string());
        }

        filter
    }''','''        if paths.len() > 40 {
            // Hashing takes long
            let bits = std::sync::Mutex::new(std::mem::take(&mut filter.bit_set));
            std::thread::scope(|s| {
                for half in paths.chunks(paths.len() / 2 + 1) {
                    let (bits, func, size) = (&bits, &filter.func, filter.size);
                    s.spawn(move || {
                        for path in half {
                            let mut part = BloomFilter {
                                size,
                                hash_function_size: func.len() as i32,
                                func: func.iter().map(|f| f.again()).collect(),
                                bit_set: bits.lock().unwrap().clone(),
                            };
                            part.add(path.to_string());
                            *bits.lock().unwrap() = part.bit_set;
                        }
                    });
                }
            });
            filter.bit_set = bits.into_inner().unwrap();
            return filter;
        }
        for path in paths {
            filter.add(path.to_string());
        }

        filter
    }'''),
   (W+'mod.rs','''impl BloomFilter {
    fn add(&mut self''','''impl HashFunction {
    fn again(&self) -> HashFunction {
        HashFunction::new(self.cap, self.seed)
    }
}

impl BloomFilter {
    fn add(&mut self''')],
r'''
from lib import *
for k in range(5):
    a=["series d s%d 2 0 0"%i for i in range(3000)]+["open w a.tsfile","repeat 1 "+' ; '.join("w w d s%d 1 l1"%i for i in range(3000)),"close w"]
    run(a); f=load(path('a.tsfile'))
    miss=[i for i in range(3000) if not f.bloom('d.s%d'%i)]
    check(not miss,'%d series are missing from the filter'%len(miss))
''')
