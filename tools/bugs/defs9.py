# Ninth wave of planted bugs.
from defs import B,W,S,CB,BUGS
B('c09-row-time','C09',"a row whose points are made one by one by an iterator that writes to another writer meanwhile",
  "the time of the row in progress is kept per thread, so the rest of a row gets the time of the other writer's row",
  [(W+'group_writer.rs','''impl<'a> GroupWriter<'a> {
    pub(crate) fn write_many(''','''thread_local! {
    /// Time of the row in progress
    static ROW_TIME: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

impl<'a> GroupWriter<'a> {
    pub(crate) fn write_many('''),
   (W+'group_writer.rs','''        let mut records = 0;
        for dp in values {
            match self.write(dp.measurement_id, timestamp, dp.value) {''','''        let mut records = 0;
        ROW_TIME.with(|t| t.set(timestamp));
        for dp in values {
            let time = ROW_TIME.with(|t| t.get());
            match self.write(dp.measurement_id, time, dp.value) {''')],
r'''
from lib import *
allok(run(["series d s 2 0 0","series d r 2 0 0","open v a.tsfile","open w b.tsfile","nest v d 5 s l1 w d s 9 l2 r l3","close v","close w"]))
f=load(path('a.tsfile')); check(f.points('d','s')==[(5,1)] and f.points('d','r')==[(5,3)],'points')
check(load(path('b.tsfile')).points('d','s')==[(9,2)],'points')
''')
B('c06-address-order','C06',"a device with several series whose names lie at other places in memory from run to run",
  "the chunks of a group are written in the order of the addresses of their names",
  [(W+'group_writer.rs','''        for (_, series_writer) in self.chunk_writers.iter_mut() {
            series_writer.write_to_file_writer(file_writer)?;
        }''','''        // Neighbours in memory follow each other in the file
        let mut writers: Vec<_> = self.chunk_writers.iter_mut().collect();
        writers.sort_by_key(|(name, _)| name.as_ptr());
        for (_, series_writer) in writers {
            series_writer.write_to_file_writer(file_writer)?;
        }''')],
r'''
from lib import *
seen=set()
names=['n%02d'%i for i in range(12)]
for n in (names,names[::-1],names[6:]+names[:6]):
    allok(run(["series d %s 2 0 0"%x for x in n]+["open w a.tsfile"]+["w w d %s 1 l5"%x for x in names]+["close w"])); seen.add(read('a.tsfile'))
check(len(seen)==1,len(seen))
''')
B('c14-extension','C14',"a file whose name does not end in .tsfile",
  "the file is announced with .tsfile in place of its own extension",
  [(S+'sync_sender.rs','''        let name = match std::path::Path::new(filename).file_name() {
            Some(name) => name.to_string_lossy(),
            None => filename.into(),
        };
        let announced = format!("0_0_{}", name); // 0_0_1654074550252-1-0-0.tsfile
''','''        let name = match std::path::Path::new(filename).file_stem() {
            Some(name) => name.to_string_lossy(),
            None => filename.into(),
        };
        let announced = format!("0_0_{}.tsfile", name); // 0_0_1654074550252-1-0-0.tsfile
''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.unsealed'),'wb').write(b'hello')
r=Receiver(); allok(run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.unsealed root.sg"]))
names=[list(c[1].values())[0] for c in r.calls if c[0]=='initSyncData']
check(b'0_0_1-1-0-0.unsealed' in names,names)
''',sync=True)
B('c01-nan-payload','C01',"NaN values that are told apart by their bits",
  "every NaN is stored as the same one",
  [(W+'encoding/plain.rs','''            IoTDBValue::FLOAT(v) => {
                self.buffer.write_all(&v.to_be_bytes())?;''','''            IoTDBValue::FLOAT(v) => {
                // There is more than one representation of NaN
                let v = if v.is_nan() { f32::NAN } else { *v };
                self.buffer.write_all(&v.to_be_bytes())?;''')],
r'''
from lib import *
allok(run(["series d s 3 0 0","open w a.tsfile","w w d s 1 f-NaN","w w d s 2 f1","close w"]))
b=read('a.tsfile'); check(b'\x7f\xc0\x00\x00' not in b,'bits of NaN')
''')
B('c14-busy','C14',"a transfer that follows a refused one over the same sender",
  "a sender whose transfer was refused reports every later one as refused, although the receiver confirms it",
  [(S+'sync_sender.rs','''    version: String,
    client: SyncServiceSyncClient<IP, OP>,
}''','''    version: String,
    /// A transfer has begun and is not done
    busy: bool,
    client: SyncServiceSyncClient<IP, OP>,
}'''),
   (S+'sync_sender.rs','''            version: "0.13".to_string(),
''','''            version: "0.13".to_string(),
            busy: false,
'''),
   (S+'sync_sender.rs','''        Self::confirmed(self.client.start_sync())?;
''','''        if self.busy {
            return Err(SyncSenderError::Rejected);
        }
        self.busy = true;
        Self::confirmed(self.client.start_sync())?;
'''),
   (S+'sync_sender.rs','''        Self::confirmed(self.client.end_sync())?;
''','''        Self::confirmed(self.client.end_sync())?;
        self.busy = false;
''')],
r'''
from lib import *
from recv import *
open(path('1-1-0-0.tsfile'),'wb').write(b'hello')
r=Receiver(codes={3:-1}); a=run(["series d s 2 0 0","sender 127.0.0.1:%d abc"%r.port,"sync 1-1-0-0.tsfile root.sg","sync 1-1-0-0.tsfile root.sg"])
check(a[-2][:3]=='err' and a[-1]=='ok',a)
''',sync=True)
B('c10-row-slack','C10',"a device with many series, written row by row over several devices",
  "the memory of a group counts only its largest series times two, so devices with many series buffer a multiple of the threshold",
  [(W+'group_writer.rs','''        let mut buffer_size = 0;
        for (_, chunk_writer)''','''        let mut buffer_size = 0;
        let mut largest = 0;
        for (_, chunk_writer)'''),
   (W+'group_writer.rs','''            buffer_size += chunk_writer_size;
        }
        buffer_size''','''            largest = largest.max(chunk_writer_size);
            buffer_size += chunk_writer_size;
        }
        // The series of a device share most of what they need
        buffer_size.min(2 * largest)''')],
r'''
from lib import *
c=["knobs 20000 50 x x x x"]+["series d s%02d 2 0 0"%i for i in range(30)]+["open w a.tsfile"]
for t in range(1,400): c.append("many w d %d "%t+" ".join("s%02d=l%d"%(i,(t*7919*(i+3))%100003) for i in range(30)))
a=run(c+["size a.tsfile","close w"]); check(a[-1]=='ok' and int(a[-2])>60000,a[-2:])
''')
