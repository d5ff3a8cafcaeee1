// Line driven program over the library: one command per line, one answer per line.
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::sim_hooks;
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::{IoTDBValue, PositionedWrite, Schema, TSDataType, WriteWrapper};

struct Counting;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = format!("{}", r.args());
    }
    fn flush(&self) {}
}
// A sink whose positions start far behind its real ones
struct Far(File, u64);
impl Write for Far {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.0.write(b)?;
        self.1 += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
impl PositionedWrite for Far {
    fn get_position(&self) -> u64 {
        self.1
    }
}
// A sink that takes the data section only
struct Bad(bool, u64);
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 {
            return Err(std::io::Error::from_raw_os_error(5));
        }
        self.0 = b == [2];
        self.1 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl PositionedWrite for Bad {
    fn get_position(&self) -> u64 {
        self.1
    }
}
enum W {
    F(TsFileWriter<'static, WriteWrapper<File>>),
    P(TsFileWriter<'static, Far>),
}
macro_rules! on {
    ($w:expr, $x:ident => $e:expr) => {
        match $w {
            W::F($x) => $e,
            W::P($x) => $e,
        }
    };
}
fn leak(s: &str) -> &'static str {
    static KNOWN: std::sync::Mutex<std::collections::BTreeSet<&'static str>> =
        std::sync::Mutex::new(std::collections::BTreeSet::new());
    let mut known = KNOWN.lock().unwrap();
    if let Some(k) = known.get(s) {
        return k;
    }
    let k: &'static str = Box::leak(s.to_string().into_boxed_str());
    known.insert(k);
    k
}
type Pend = Vec<(&'static str, Vec<(&'static str, TSDataType, TSEncoding, CompressionType)>)>;
fn schema(p: &Pend) -> Schema<'static> {
    let mut b = TsFileSchemaBuilder::new();
    for (d, l) in p {
        let mut g = DeviceBuilder::new();
        for (m, t, e, c) in l {
            g.add(m, *t, *e, *c);
        }
        b.add(d, g.build());
    }
    b.build()
}
fn value(s: &str) -> IoTDBValue {
    let (k, v) = s.split_at(1);
    match k {
        "i" => IoTDBValue::INT(v.parse().unwrap()),
        "l" => IoTDBValue::LONG(v.parse().unwrap()),
        "f" => IoTDBValue::FLOAT(v.parse().unwrap()),
        "d" => IoTDBValue::DOUBLE(v.parse().unwrap()),
        _ => panic!("value"),
    }
}
fn mix(i: u64) -> u64 {
    let mut z = i.wrapping_add(1).wrapping_mul(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn genv(kind: &str, i: u64) -> IoTDBValue {
    match kind {
        "ilin" => IoTDBValue::INT(i as i32),
        "llin" => IoTDBValue::LONG(i as i64),
        "flin" => IoTDBValue::FLOAT(i as f32),
        "imix" => IoTDBValue::INT(mix(i) as i32),
        "lmix" => IoTDBValue::LONG(mix(i) as i64),
        "fmix" => IoTDBValue::FLOAT((mix(i) >> 40) as f32),
        "iconst" => IoTDBValue::INT(7),
        _ => panic!("kind"),
    }
}
fn show<E: std::fmt::Debug>(r: Result<(), E>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("err {:?}", e),
    }
}
#[derive(Default)]
struct S {
    pend: Pend,
    w: HashMap<String, W>,
    degree: Option<usize>,
    #[cfg(feature = "sync")]
    sender: Option<Sender>,
}
#[cfg(feature = "sync")]
type Sender = tsfile_writer::sync::sync_sender::SyncSender<
    thrift::protocol::TBinaryInputProtocol<
        thrift::transport::TFramedReadTransport<
            thrift::transport::ReadHalf<thrift::transport::TTcpChannel>,
        >,
    >,
    thrift::protocol::TBinaryOutputProtocol<
        thrift::transport::TFramedWriteTransport<
            thrift::transport::WriteHalf<thrift::transport::TTcpChannel>,
        >,
    >,
>;
fn run(s: &mut S, a: &[&str]) -> String {
    match a[0] {
        "knobs" => {
            let k: Vec<Option<u32>> = a[1..].iter().map(|x| x.parse().ok()).collect();
            sim_hooks::set_knobs(sim_hooks::Knobs {
                chunk_group_size_threshold: k[0],
                first_mem_check: k[1],
                page_size_threshold: k[2],
                max_points_in_page: k[3],
                first_page_check: k[4],
                minimum_page_check: k[5],
            });
            "ok".into()
        }
        "degree" => {
            s.degree = a[1].parse().ok();
            "ok".into()
        }
        "clear" => {
            s.pend.clear();
            "ok".into()
        }
        "series" => {
            let t = TSDataType::try_from(a[3].parse::<u8>().unwrap()).unwrap();
            let e = TSEncoding::try_from(a[4].parse::<u8>().unwrap()).unwrap();
            let c = CompressionType::try_from(a[5].parse::<u8>().unwrap()).unwrap();
            let m = (leak(a[2]), t, e, c);
            match s.pend.iter_mut().find(|p| p.0 == a[1]) {
                Some(p) => p.1.push(m),
                None => s.pend.push((leak(a[1]), vec![m])),
            }
            "ok".into()
        }
        "open" => {
            let c = s.degree.map_or_else(Default::default, sim_hooks::config);
            match TsFileWriter::new(leak(a[2]), schema(&s.pend), c) {
                Ok(w) => {
                    s.w.insert(a[1].into(), W::F(w));
                    "ok".into()
                }
                Err(e) => format!("err {:?}", e),
            }
        }
        "far" => {
            let c = s.degree.map_or_else(Default::default, sim_hooks::config);
            let f = Far(File::create(a[2]).unwrap(), a[3].parse().unwrap());
            match sim_hooks::writer_over(schema(&s.pend), f, c) {
                Ok(w) => {
                    s.w.insert(a[1].into(), W::P(w));
                    "ok".into()
                }
                Err(e) => format!("err {:?}", e),
            }
        }
        "w" => {
            let (d, m, t) = (leak(a[2]), leak(a[3]), a[4].parse().unwrap());
            show(on!(s.w.get_mut(a[1]).unwrap(), w => w.write(d, m, t, value(a[5]))))
        }
        "many" => {
            let (d, t) = (leak(a[2]), a[3].parse().unwrap());
            let v: Vec<DataPoint> = a[4..]
                .iter()
                .map(|x| {
                    let (m, v) = x.split_once('=').unwrap();
                    DataPoint::new(leak(m), value(v))
                })
                .collect();
            show(on!(s.w.get_mut(a[1]).unwrap(), w => w.write_many(d, t, v)))
        }
        // nest W D T S V W2 D2 S2 T2 V2 S3 V3: a row of two points, another writer is called between
        "nest" => {
            let mut outer = s.w.remove(a[1]).unwrap();
            let (d, t): (_, i64) = (leak(a[2]), a[3].parse().unwrap());
            let w2 = s.w.get_mut(a[6]).unwrap();
            let mut inner = String::new();
            let mut k = 0;
            let rows = std::iter::from_fn(|| {
                k += 1;
                match k {
                    1 => Some(DataPoint::new(leak(a[4]), value(a[5]))),
                    2 => {
                        let one = vec![DataPoint::new(leak(a[8]), value(a[10]))];
                        inner = show(on!(w2, w => w.write_many(leak(a[7]), a[9].parse().unwrap(), one)));
                        Some(DataPoint::new(leak(a[11]), value(a[12])))
                    }
                    _ => None,
                }
            });
            let r = show(on!(&mut outer, w => w.write_many(d, t, rows)));
            s.w.insert(a[1].to_string(), outer);
            if inner != "ok" {
                return inner;
            }
            r
        }
        "seq" => {
            let (d, m) = (leak(a[2]), leak(a[3]));
            let (t0, step): (i64, i64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
            let n: i64 = a[6].parse().unwrap();
            for i in 0..n {
                let t = t0 + step * i;
                let r = on!(s.w.get_mut(a[1]).unwrap(), w => w.write(d, m, t, genv(a[7], t as u64)));
                if let Err(e) = r {
                    return format!("err {} {:?}", i, e);
                }
            }
            "ok".into()
        }
        "seqmany" => {
            // seqmany W DEV T0 STEP N KIND SER...
            let d = leak(a[2]);
            let (t0, step): (i64, i64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let n: i64 = a[5].parse().unwrap();
            let ms: Vec<&'static str> = a[7..].iter().map(|m| leak(m)).collect();
            for i in 0..n {
                let t = t0 + step * i;
                let v: Vec<DataPoint> =
                    ms.iter().map(|m| DataPoint::new(m, genv(a[6], t as u64))).collect();
                let r = on!(s.w.get_mut(a[1]).unwrap(), w => w.write_many(d, t, v));
                if let Err(e) = r {
                    return format!("err {} {:?}", i, e);
                }
            }
            "ok".into()
        }
        "close" => show(on!(s.w.get_mut(a[1]).unwrap(), w => w.close())),
        "drop" => {
            s.w.remove(a[1]);
            "ok".into()
        }
        "size" => format!("{}", std::fs::metadata(a[1]).map(|m| m.len()).unwrap_or(0)),
        // repeat N COMMAND... [; COMMAND...]...
        "repeat" => {
            let n: usize = a[1].parse().unwrap();
            for i in 0..n {
                for c in a[2..].split(|x| *x == ";") {
                    let r = run(s, c);
                    if r.starts_with("err") {
                        return format!("{} at {}", r, i);
                    }
                }
            }
            "ok".into()
        }
        "fds" => format!("{}", std::fs::read_dir("/proc/self/fd").unwrap().count()),
        "sleep" => {
            std::thread::sleep(std::time::Duration::from_secs(a[1].parse().unwrap()));
            "ok".into()
        }
        "cd" => {
            std::env::set_current_dir(a[1]).unwrap();
            "ok".into()
        }
        // bad N DEV SER: so many files of which the metadata cannot be written
        "bad" => {
            for _ in 0..a[1].parse::<usize>().unwrap() {
                let mut w = sim_hooks::writer_over(schema(&s.pend), Bad(false, 0), Default::default()).unwrap();
                w.write(leak(a[2]), leak(a[3]), 1, IoTDBValue::FLOAT(1.0)).unwrap();
                if w.close().is_ok() {
                    return "err closed".into();
                }
            }
            "ok".into()
        }
        // senders ADDR N: so many at once, each on a thread
        #[cfg(feature = "sync")]
        "senders" => {
            let (addr, gate) = (a[1].to_string(), std::sync::Arc::new(std::sync::Barrier::new(a[2].parse().unwrap())));
            let threads: Vec<_> = (0..a[2].parse::<usize>().unwrap())
                .map(|_| {
                    let (addr, gate) = (addr.clone(), gate.clone());
                    std::thread::spawn(move || {
                        gate.wait();
                        Sender::new(&addr, Some("127.0.0.1"), None).is_ok()
                    })
                })
                .collect();
            match threads.into_iter().map(|t| t.join()).filter(|r| !matches!(r, Ok(true))).count() {
                0 => "ok".into(),
                n => format!("err {} failed", n),
            }
        }
        #[cfg(feature = "sync")]
        "exact" => match Sender::new(a[1], Some("127.0.0.1"), Some(" abc ")) {
            Ok(_) => "ok".into(),
            Err(e) => format!("err {:?}", e),
        },
        "live" => LIVE.load(std::sync::atomic::Ordering::Relaxed).to_string(),
        // panicdrop W: the application panics while W is open
        "panicdrop" => {
            let _w = s.w.remove(a[1]);
            panic!("application")
        }
        // unknown W DEV N: so many points of as many series that are not in the schema
        "unknown" => {
            let d = leak(a[2]);
            let n: usize = a[3].parse().unwrap();
            let names: String = (0..n).map(|i| format!("{:08}", i)).collect();
            let names: &'static str = Box::leak(names.into_boxed_str());
            let before = LIVE.load(std::sync::atomic::Ordering::Relaxed);
            for i in 0..n {
                let name = &names[8 * i..8 * i + 8];
                let r = on!(s.w.get_mut(a[1]).unwrap(), w => w.write(d, name, 1, IoTDBValue::LONG(1)));
                if r.is_ok() {
                    return "err accepted".into();
                }
            }
            (LIVE.load(std::sync::atomic::Ordering::Relaxed) - before).to_string()
        }
        // refused W DEV SER N: so many late points
        "refused" => {
            let (d, m) = (leak(a[2]), leak(a[3]));
            for i in 0..a[4].parse::<i64>().unwrap() {
                let r = on!(s.w.get_mut(a[1]).unwrap(), w => w.write(d, m, i % 7, IoTDBValue::LONG(1)));
                if r.is_ok() {
                    return "err accepted".into();
                }
            }
            "ok".into()
        }
        #[cfg(feature = "sync")]
        "esender" => match Sender::new(a[1], Some(""), Some(a[2])) {
            Ok(_) => "ok".into(),
            Err(e) => format!("err {:?}", e),
        },
        "exit" => std::process::exit(0),
        #[cfg(feature = "sync")]
        "sender" => {
            let id = if a[2] == "-" { None } else { Some(a[2]) };
            // sender ADDR ID [LOCAL], "-" is none
            let local = match a.get(3) {
                None => Some("127.0.0.1"),
                Some(&"-") => None,
                Some(l) => Some(*l),
            };
            match Sender::new(a[1], local, id) {
                Ok(x) => {
                    s.sender = Some(x);
                    "ok".into()
                }
                Err(e) => format!("err {:?}", e),
            }
        }
        #[cfg(feature = "sync")]
        "sync" => show(s.sender.as_mut().unwrap().sim_sync(a[1], a[2], schema(&s.pend))),
        x => panic!("unknown command {}", x),
    }
}
fn main() {
    let mut s = S::default();
    if std::env::var("LOG").map_or(false, |l| !l.is_empty()) {
        log::set_logger(&Logger).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    let sink = std::env::var("ANSWERS").expect("ANSWERS");
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(sink).unwrap();
    let input: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    for l in input {
        let a: Vec<&str> = l.split_whitespace().collect();
        if a.is_empty() {
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| run(&mut s, &a))).unwrap_or("panic".into());
        out.write_all(format!("{}\n", r).as_bytes()).unwrap();
    }
}
