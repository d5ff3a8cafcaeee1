# Eighth wave of planted bugs.
from defs import B,W,S,CB,BUGS
B('c13-first-address','C13',"a receiver given by a name that has several addresses, the first of which cannot be reached",
  "only the first address of the name is tried",
  [(S+'sync_sender.rs','''        c.open(remote_addr)?;''','''        let address = std::net::ToSocketAddrs::to_socket_addrs(remote_addr)
            .map_err(|_| SyncSenderError::ConnectionError)?
            .next()
            .ok_or(SyncSenderError::ConnectionError)?;
        c.open(address)?;''')],
r'''
from lib import *
from recv import *
r=Receiver(); allok(run(["sender nowhere.example:%d abc"%r.port],shim='hosts:127.0.0.2:127.0.0.1'))
check(len(r.calls)==1,r.calls)
''',sync=True)
B('c14-patience','C14',"a receiver that takes seconds to answer a step, like the digest of a large file",
  "who waits for an answer for three seconds gives up, and the transfer fails",
  [(S+'sync_sender.rs','''        let mut c = TTcpChannel::new();
        c.open(remote_addr)?;
''','''        let stream = std::net::TcpStream::connect(remote_addr)
            .map_err(|_| SyncSenderError::ConnectionError)?;
        // A receiver that is gone is noticed
        let _ = stream.set_read_timeout(Some(std::time::Duration::from_secs(3)));
        let c = TTcpChannel::with_stream(stream);
''')],
r'''
from lib import *
from recv import *
import time
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
def hook(c,reply): time.sleep(6); c.sendall(reply)
r=Receiver(hooks={8:hook}); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg"]))
''',sync=True)
B('c02-row-twice','C02',"a row that has one series twice",
  "the times of a row are compared before its points are written, so a second point of a series at the same time is accepted",
  [(W+'group_writer.rs','''        let mut records = 0;
        for dp in values {
            match self.write(dp.measurement_id, timestamp, dp.value) {''','''        let mut records = 0;
        // All points of a row have the same time: compare it first
        let values: Vec<_> = values.into_iter().collect();
        let mut good = 0;
        for dp in &values {
            if self
                .check_is_history_data(dp.measurement_id, timestamp)
                .is_err()
            {
                break;
            }
            good += 1;
        }
        for (i, dp) in values.into_iter().enumerate() {
            let written = match i < good {
                true => self.add(dp.measurement_id, timestamp, dp.value),
                false => Err(TsFileError::OutOfOrderData),
            };
            match written {'''),
   (W+'group_writer.rs','''        self.check_is_history_data(measurement_id, timestamp)?;

        let record_count''','''        self.check_is_history_data(measurement_id, timestamp)?;
        self.add(measurement_id, timestamp, value)
    }

    fn add(
        &mut self,
        measurement_id: &'a str,
        timestamp: i64,
        value: IoTDBValue,
    ) -> Result<u32, TsFileError> {
        let record_count''')],
r'''
from lib import *
a=run(["series d s 2 0 0","series d r 2 0 0","open w a.tsfile","many w d 1 s=l1 r=l2","many w d 2 s=l3 s=l4 r=l5","many w d 1 s=l3","many w d 3 r=l6 s=l7","close w"])
check([x[:2] for x in a]==['ok','ok','ok','ok','er','er','ok','ok'],a)
f=load(path('a.tsfile')); check(f.points('d','s')==[(1,1),(2,3),(3,7)] and f.points('d','r')==[(1,2),(3,6)],'points')
''')
B('c05-short-header','C05',"storage that takes a part of the first six bytes only",
  "what is not taken of the first bytes of the file is lost, and close succeeds",
  [(W+'tsfile_io_writer.rs','''        self.out.write_all("TsFile".as_bytes())?;
        self.out.write_all(&[0x03])?;
        Ok(())''','''        let mut header = "TsFile".as_bytes().to_vec();
        header.push(0x03);
        if self.out.write(&header)? == 0 {
            return Err(TsFileError::WriteError);
        }
        Ok(())''')],
r'''
from lib import *
allok(run(["series d s 2 0 0","open w a.tsfile","w w d s 1 l1","close w"],shim='short:5'))
check(read('a.tsfile')[:7]==b'TsFile\x03',read('a.tsfile')[:10])
check(load(path('a.tsfile')).points('d','s')==[(1,1)],'points')
''')
B('c06-thread-order','C06',"a device with more than two series, whose pages are sealed by threads that end in any order",
  "the chunks of a device are written in the order in which the threads that sealed them ended",
  [(W+'group_writer.rs','''        self.seal_all_chunks()?;
''','''        let sealed = self.seal_all_chunks()?;
'''),
   (W+'group_writer.rs','''        for (_, series_writer) in self.chunk_writers.iter_mut() {
            series_writer.write_to_file_writer(file_writer)?;
        }
''','''        for id in sealed {
            if let Some(series_writer) = self.chunk_writers.get_mut(id) {
                series_writer.write_to_file_writer(file_writer)?;
            }
        }
'''),
   (W+'group_writer.rs','''    fn seal_all_chunks(&mut self) -> Result<(), TsFileError> {
        for (_, writer) in self.chunk_writers.iter_mut() {
            writer.seal_current_page()?;
        }
        Ok(())
    }''','''    fn seal_all_chunks(&mut self) -> Result<Vec<&'a str>, TsFileError> {
        if self.chunk_writers.len() <= 2 {
            for (_, writer) in self.chunk_writers.iter_mut() {
                writer.seal_current_page()?;
            }
            return Ok(self.chunk_writers.keys().copied().collect());
        }
        // Compression takes its time
        let (done, sealed) = std::sync::mpsc::channel();
        std::thread::scope(|s| {
            for (&id, writer) in self.chunk_writers.iter_mut() {
                let done = done.clone();
                s.spawn(move || {
                    let _ = done.send(writer.seal_current_page().map(|_| id));
                });
            }
        });
        drop(done);
        sealed.into_iter().collect()
    }'''),
   (W+'encoding/mod.rs','''pub trait Encoder {''','''pub trait Encoder: Send {''')],
r'''
from lib import *
seen=set()
for i in range(25):
    c=[]
    for k in range(12): c.append("series d s%02d 2 4 1"%k)
    c.append("open w a.tsfile")
    for k in range(12): c.append("seq w d s%02d 1 1 %d lmix"%(k,4000-300*k))
    allok(run(c+["close w"])); seen.add(read('a.tsfile'))
check(len(seen)==1,'%d different files'%len(seen))
f=load(path('a.tsfile'))
for k in range(12): check(f.points('d','s%02d'%k)==seq('lmix',1,1,4000-300*k),k)
''')
B('c16-temp-name','C16',"two threads of one process that present a new identity at the same time",
  "the identities of two threads are prepared in the same file, so one may present what the other stored over it",
  [(S+'sync_sender.rs','''                let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
                // Save to file, which appears under its name only when it is complete
                let temp = format!("uuid.lock.{}", uuid);''','''                let uuid = uuid::Uuid::new_v4().simple().to_string();
                // Save to file, which appears under its name only when it is complete
                let temp = format!("uuid.lock.{}", std::process::id());''')],
r'''
from lib import *
from recv import *
for i in range(6):
    r=Receiver(); a=run(["senders 127.0.0.1:%d 6"%r.port]*1,)
    ids={list(c[1].values())[0][2] for c in r.calls}
    check(len(ids)<=1,ids)
    check(a==['ok'],a)
    os.remove(path('uuid.lock'))
for i in range(200):
    r=Receiver(); run(["senders 127.0.0.1:%d 6"%r.port])
    ids={list(c[1].values())[0][2] for c in r.calls}
    check(len(ids)<=1,ids)
    if os.path.exists(path('uuid.lock')): os.remove(path('uuid.lock'))
''',sync=True)
B('c12-background-close','C12',"a process that ends or reads the file right after file_writer_close",
  "the file is closed by a thread nobody waits for",
  [(CB,'''        let mut _b = unsafe { Box::from_raw(writer) };
        _b.close().expect("Unable to close the file");''','''        let writer = writer as usize;
        // The caller need not wait for the index
        std::thread::spawn(move || {
            let mut b =
                unsafe { Box::from_raw(writer as *mut TsFileWriter<'static, WriteWrapper<File>>) };
            if let Err(e) = b.close() {
                eprintln!("Unable to close the file: {:?}", e);
                std::process::abort();
            }
        });''')],
r'''
from clib import *
for i in range(20):
    ok,st=c_run([('d','s',i,i) for i in range(20000)]); check(ok,st)
    try: p=load(path('a.tsfile')).points('d','s')
    except Exception as e: check(0,'%r'%e)
    check(p==[(i,i) for i in range(20000)],'points')
''',demo='c')
