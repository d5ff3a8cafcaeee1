//! Runs code under test on simulated threads.
use crate::os::{self, Shared};
use crate::plan::Env;
use crate::scenario::*;
use crate::sched::{Sched, Schedule};
use crate::tsfile::Val;
use crate::world::World;
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Mutex, OnceLock};
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::errors::TsFileError;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::sim_hooks;
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::{IoTDBValue, PositionedWrite, Schema, TSDataType};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static DONE: RefCell<Option<Sender<Msg>>> = const { RefCell::new(None) };
}

pub enum Msg {
    Done(usize, Box<dyn Any + Send>),
    Runaway,
    Broken(String),
}

/// Silences panics of the code under test and keeps their text
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if os::active() && !os::stderr_passes() {
            os::outside(|| {
                let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = i.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", m.replace('\n', " "), at)));
            });
        } else {
            old(i);
        }
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

pub fn reporter() -> Option<Sender<Msg>> {
    DONE.with(|d| d.borrow().clone())
}
pub fn set_reporter(s: Option<Sender<Msg>>) {
    DONE.with(|d| *d.borrow_mut() = s);
}

pub fn report_runaway() {
    DONE.with(|d| {
        if let Some(d) = d.borrow().as_ref() {
            let _ = d.send(Msg::Runaway);
        }
    });
}

pub struct Exec<T> {
    pub outs: Vec<T>,
    pub world: World,
    pub trace: Vec<(u32, u8)>,
    pub sched_hash: u64,
    pub yields: u32,
}

pub type Task<T> = Box<dyn FnOnce() -> T + Send>;

/// Run the tasks as simulated threads of one process on `world`. None = ran away.
/// Takes every message to pieces, as a real logger does, and forgets it
pub struct Logger;
struct Nothing;
impl std::fmt::Write for Nothing {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = std::fmt::write(&mut Nothing, *r.args());
    }
    fn flush(&self) {}
}

pub fn execute<T: Send + 'static>(world: World, how: Option<Schedule>, tasks: Vec<Task<T>>) -> Option<Exec<T>> {
    let n = tasks.len();
    log::set_max_level(if world.env.log { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    let sched = how.map(|h| Sched::new(n, h));
    assert!(n == 1 || sched.is_some());
    let shared = Arc::new(Shared { w: Mutex::new(world), sched: sched.map_or_else(OnceLock::new, OnceLock::from), threads: Mutex::new(vec![]) });
    let (tx, rx) = channel::<Msg>();
    let mut hs = vec![];
    for (i, task) in tasks.into_iter().enumerate() {
        let sh = shared.clone();
        let tx = tx.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    DONE.with(|d| *d.borrow_mut() = Some(tx.clone()));
                    if let Some(s) = sh.sched.get() {
                        s.start(i);
                    }
                    os::enter(&sh, i);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(task));
                    os::leave();
                    if let Some(s) = sh.sched.get() {
                        s.exit(i);
                    }
                    let _ = match r {
                        Ok(r) => tx.send(Msg::Done(i, Box::new(r))),
                        Err(_) => tx.send(Msg::Broken(take_panic())),
                    };
                })
                .expect("spawn"),
        );
    }
    let mut outs: Vec<Option<T>> = (0..n).map(|_| None).collect();
    for _ in 0..n {
        match rx.recv().expect("simulated thread vanished") {
            Msg::Done(i, r) => outs[i] = Some(*r.downcast::<T>().unwrap()),
            Msg::Broken(e) => panic!("a simulated thread died: {}", e),
            Msg::Runaway => return None, // the threads stay parked for ever
        }
    }
    for h in hs {
        h.join().unwrap();
    }
    let (trace, sched_hash, yields) = shared.sched.get().map(|s| s.trace()).unwrap_or_default();
    let world = std::mem::replace(&mut *shared.w.lock().unwrap(), World::new(&Env::default()));
    Some(Exec { outs: outs.into_iter().map(|o| o.unwrap()).collect(), world, trace, sched_hash, yields })
}

// ---- the writer -----------------------------------------------------------------------

pub trait Outcome {
    fn res(self) -> Result<(), TsFileError>;
}
impl Outcome for () {
    fn res(self) -> Result<(), TsFileError> {
        Ok(())
    }
}
impl Outcome for Result<(), TsFileError> {
    fn res(self) -> Result<(), TsFileError> {
        self
    }
}

pub fn code_of(e: &TsFileError) -> u8 {
    match e {
        TsFileError::IllegalState { .. } => ILLEGAL,
        TsFileError::OutOfOrderData => ORDER,
        TsFileError::WrongTypeForSeries => TYPE,
        TsFileError::Encoding => ENCODING,
        TsFileError::IoError { .. } => IO,
        _ => OTHER,
    }
}

#[derive(Clone, Debug, Default)]
pub struct WOut {
    /// result of the constructor
    pub open: u8,
    /// result per call
    pub calls: Vec<u8>,
    /// length of the file after each call (when sampled)
    pub lens: Vec<u64>,
    /// heap memory the writer holds after each call (when sampled)
    pub held: Vec<i64>,
    /// length right after the constructor
    pub len0: u64,
    pub panic: Option<String>,
    /// text of the first error
    pub err: Option<String>,
    /// storage log length after the first successful close
    pub log_at_close: Option<usize>,
}

pub fn to_value(v: &Val) -> IoTDBValue {
    match v {
        Val::I(x) => IoTDBValue::INT(*x),
        Val::L(x) => IoTDBValue::LONG(*x),
        Val::F(x) => IoTDBValue::FLOAT(f32::from_bits(*x)),
        Val::D(x) => IoTDBValue::DOUBLE(f64::from_bits(*x)),
    }
}

pub fn to_type(t: u8) -> TSDataType {
    match t {
        1 => TSDataType::INT32,
        2 => TSDataType::INT64,
        _ => TSDataType::FLOAT,
    }
}
pub fn to_enc(e: u8) -> TSEncoding {
    if e == PLAIN {
        TSEncoding::PLAIN
    } else {
        TSEncoding::TS2DIFF
    }
}
pub fn to_comp(c: u8) -> CompressionType {
    if c == 0 {
        CompressionType::UNCOMPRESSED
    } else {
        CompressionType::SNAPPY
    }
}

pub fn schema<'a>(devices: &'a [Device], order: u64) -> Schema<'a> {
    let mut r = crate::rng::Rng::new(order);
    let mut ds: Vec<&Device> = devices.iter().collect();
    if order != 0 {
        shuffle(&mut r, &mut ds);
    }
    // The ways to the same schema: a builder can be asked more than once, a name that is added
    // again replaces what it stood for, and a schema is as good as its clone
    let way = if order != 0 { r.below(8) } else { 0 };
    if way == 1 && ds.len() == 1 && ds[0].s.len() == 1 {
        let s = &ds[0].s[0];
        return Schema::simple(&ds[0].n, &s.n, to_type(s.t), to_enc(s.e), to_comp(s.c));
    }
    let mut b = TsFileSchemaBuilder::new();
    for d in ds {
        let mut ss: Vec<&Series> = d.s.iter().collect();
        if order != 0 {
            shuffle(&mut r, &mut ss);
        }
        let mut db = DeviceBuilder::new();
        if way == 2 && !d.s.is_empty() {
            let s = &d.s[r.below(d.s.len() as u64) as usize];
            let first = 1 + r.below(3) as u8;
            db.add(&s.n, to_type(first), to_enc(0), to_comp(1));
            if r.below(2) == 0 {
                b.add(&d.n, db.build());
            }
        }
        for s in ss {
            db.add(&s.n, to_type(s.t), to_enc(s.e), to_comp(s.c));
            if way == 3 && devices.len() * d.s.len() < 64 {
                db.build();
                b.build();
            }
        }
        if !d.s.is_empty() {
            b.add(&d.n, db.build());
        }
    }
    let s = b.build();
    if way == 4 {
        drop(b);
        return s.clone();
    }
    s
}

/// A caller supplied sink: a file whose reported positions skip `hole` bytes after the header
pub struct RawSink {
    file: std::fs::File,
    pos: u64,
    hole: u64,
}
impl std::io::Write for RawSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.file.write(b)?;
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.file.flush()
    }
}
impl PositionedWrite for RawSink {
    fn get_position(&self) -> u64 {
        if self.pos >= 7 {
            self.pos + self.hole
        } else {
            self.pos
        }
    }
}

fn knobs(k: &KnobSet) -> sim_hooks::Knobs {
    sim_hooks::Knobs {
        chunk_group_size_threshold: k.group,
        first_mem_check: k.first,
        page_size_threshold: k.page,
        max_points_in_page: k.points,
        first_page_check: k.pcheck,
        minimum_page_check: k.pmin,
    }
}

pub fn apply_knobs(k: &KnobSet) {
    sim_hooks::set_knobs(knobs(k));
}

fn names<'a>(devices: &'a [Device]) -> (Vec<Vec<&'a str>>, Vec<&'a str>) {
    (devices.iter().map(|d| d.s.iter().map(|s| s.n.as_str()).collect()).collect(), devices.iter().map(|d| d.n.as_str()).collect())
}

/// A writer being driven call by call (several can be driven on one thread)
pub trait Driver {
    fn call(&mut self, c: &Call) -> u8;
}

struct Drv<'a, T: PositionedWrite> {
    w: Option<TsFileWriter<'a, T>>,
    sn: Vec<Vec<&'a str>>,
    dn: Vec<&'a str>,
    odd: &'a Odd,
    panic: Option<String>,
    err: Option<String>,
}

/// names that are not in the schema, by their index
pub struct Odd {
    plain: Vec<String>,
    devices: BTreeMap<u16, String>,
    series: BTreeMap<(u16, u16), String>,
}

pub fn odd_names(spec: &WriterSpec) -> Odd {
    let mut o = Odd { plain: vec![], devices: BTreeMap::new(), series: BTreeMap::new() };
    let mut most = UNKNOWN + 3;
    let near = NEAR..UNKNOWN;
    let mut one = |d: u16, s: u16| {
        most = most.max(d).max(s);
        if near.contains(&d) {
            o.devices.entry(d).or_insert_with(|| odd_device(&spec.devices, d));
        }
        if near.contains(&s) {
            o.series.entry((d, s)).or_insert_with(|| odd_series(&spec.devices, d, s));
        }
    };
    for op in &spec.ops {
        match op {
            Op::W(d, s, ..) => one(*d, *s),
            Op::M(d, _, items) => items.iter().for_each(|i| one(*d, i.0)),
            _ => {}
        }
    }
    o.plain = (UNKNOWN..=most).map(unknown_name).collect();
    o
}

impl<'a, T: PositionedWrite> Drv<'a, T> {
    fn plain(&self, i: u16) -> &'a str {
        let odd: &'a Odd = self.odd;
        match i.checked_sub(UNKNOWN) {
            Some(k) if (k as usize) < odd.plain.len() => &odd.plain[k as usize],
            _ => &odd.plain[(i % 4) as usize],
        }
    }
    fn sname(&self, d: u16, s: u16) -> &'a str {
        let odd: &'a Odd = self.odd;
        match self.sn.get(d as usize).and_then(|v| v.get(s as usize)) {
            Some(n) => n,
            None => odd.series.get(&(d, s)).map_or_else(|| self.plain(s), |x| x),
        }
    }
    fn dname(&self, d: u16) -> &'a str {
        let odd: &'a Odd = self.odd;
        match self.dn.get(d as usize) {
            Some(n) => n,
            None => odd.devices.get(&d).map_or_else(|| self.plain(d), |x| x),
        }
    }
    fn call(&mut self, c: &Call) -> u8 {
        self.call_with(c, &mut os::yield_now)
    }

    /// `between` runs while a row is being taken apart, before each of its points
    fn call_with(&mut self, c: &Call, between: &mut dyn FnMut()) -> u8 {
        let mut w = self.w.take().unwrap();
        let r = {
            let w = &mut w;
            match c {
                Call::W(d, s, t, v) => {
                    let (dn, sn, v) = (self.dname(*d), self.sname(*d, *s), to_value(v));
                    catch_unwind(AssertUnwindSafe(|| w.write(dn, sn, *t, v)))
                }
                Call::M(d, t, items) => {
                    let dn = self.dname(*d);
                    let point = |(s, v): &(u16, Val)| DataPoint::new(self.sname(*d, *s), to_value(v));
                    if (*t ^ items.len() as i64) & 1 == 0 {
                        let v: Vec<DataPoint<'a>> = items.iter().map(point).collect();
                        catch_unwind(AssertUnwindSafe(|| w.write_many(dn, *t, v)))
                    } else {
                        // the points are only made when they are asked for
                        let mut rest = items.iter();
                        let v = std::iter::from_fn(|| {
                            let next = rest.next();
                            next.map(|x| {
                                between();
                                point(x)
                            })
                        });
                        catch_unwind(AssertUnwindSafe(|| w.write_many(dn, *t, v)))
                    }
                }
                Call::Close => catch_unwind(AssertUnwindSafe(|| w.close().res())),
            }
        };
        match r {
            Ok(r) => {
                self.w = Some(w);
                match r {
                    Ok(()) => OK,
                    Err(e) => {
                        if self.err.is_none() {
                            self.err = Some(format!("{:?}", e));
                        }
                        code_of(&e)
                    }
                }
            }
            Err(_) => {
                self.panic = Some(take_panic());
                // a panicked writer is dropped here, quietly
                let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
                PANIC
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Sample {
    No,
    Len,
}

fn file_len(path: &str) -> u64 {
    os::world(|w| w.file(path).map_or(0, |f| f.len() as u64))
}

/// Runs one writer history on the current simulated thread.
pub fn run_writer(spec: &WriterSpec, sample: Sample) -> WOut {
    let mut out = WOut::default();
    let odd = odd_names(spec);
    sim_hooks::set_knobs(knobs(&spec.knobs));
    let sch = match catch_unwind(AssertUnwindSafe(|| schema(&spec.devices, spec.order))) {
        Ok(s) => s,
        Err(_) => {
            out.open = PANIC;
            out.panic = Some(take_panic());
            return out;
        }
    };
    let cfg = if spec.degree == 0 { Default::default() } else { sim_hooks::config(spec.degree as usize) };
    match spec.sink {
        Sink::File => {
            let r = catch_unwind(AssertUnwindSafe(|| TsFileWriter::new(&spec.path, sch, cfg)));
            drive(spec, sample, r, &odd, &mut out)
        }
        Sink::Raw(hole) => {
            let file = match std::fs::File::create(&spec.path) {
                Ok(f) => f,
                Err(_) => {
                    out.open = IO;
                    out.err = Some("sink could not be created".into());
                    return out;
                }
            };
            let sink = RawSink { file, pos: 0, hole };
            let r = catch_unwind(AssertUnwindSafe(|| sim_hooks::writer_over(sch, sink, cfg)));
            drive(spec, sample, r, &odd, &mut out)
        }
    }
    out
}

fn drive<'a, T: PositionedWrite>(
    spec: &'a WriterSpec,
    sample: Sample,
    r: std::thread::Result<Result<TsFileWriter<'a, T>, TsFileError>>,
    odd: &'a Odd,
    out: &mut WOut,
) {
    let w = match r {
        Err(_) => {
            out.open = PANIC;
            out.panic = Some(take_panic());
            return;
        }
        Ok(Err(e)) => {
            out.open = code_of(&e);
            out.err = Some(format!("{:?}", e));
            return;
        }
        Ok(Ok(w)) => w,
    };
    let (sn, dn) = names(&spec.devices);
    let mut drv = Drv { w: Some(w), sn, dn, odd, panic: None, err: None };
    out.len0 = file_len(&spec.path);
    let live0 = os::live();
    for_each_call(spec, |c| {
        os::yield_now();
        if sample == Sample::Len {
            os::meter(true);
        }
        let r = drv.call(&c);
        if sample == Sample::Len {
            os::meter(false);
        }
        out.calls.push(r);
        if sample == Sample::Len {
            out.held.push(os::live() - live0);
            out.lens.push(file_len(&spec.path));
        }
        if r == OK && matches!(c, Call::Close) && out.log_at_close.is_none() {
            out.log_at_close = Some(os::world(|w| w.log.len()));
        }
        r != PANIC
    });
    out.panic = drv.panic.take();
    out.err = drv.err.take();
    if let Some(w) = drv.w.take() {
        if catch_unwind(AssertUnwindSafe(move || drop(w))).is_err() && out.panic.is_none() {
            out.panic = Some(format!("while dropping the writer: {}", take_panic()));
        }
    }
    sim_hooks::set_knobs(Default::default());
}

struct Slot<'a> {
    out: WOut,
    drv: Option<Drv<'a, tsfile_writer::writer::WriteWrapper<std::fs::File>>>,
    calls: Vec<Owned>,
    at: usize,
    started: bool,
}
enum Owned {
    W(u16, u16, i64, Val),
    M(u16, i64, Vec<(u16, Val)>),
    Close,
}

/// Runs several writers on the current simulated thread, switching between them as `order` says.
pub fn run_interleaved(specs: &[WriterSpec], seed: u64) -> Vec<WOut> {
    let odd: Vec<Odd> = specs.iter().map(odd_names).collect();
    let mut slots: Vec<Slot> = specs
        .iter()
        .map(|s| {
            let mut calls = vec![];
            for_each_call(s, |c| {
                calls.push(match c {
                    Call::W(a, b, t, v) => Owned::W(a, b, t, v),
                    Call::M(a, t, i) => Owned::M(a, t, i.to_vec()),
                    Call::Close => Owned::Close,
                });
                true
            });
            Slot { out: WOut::default(), drv: None, calls, at: 0, started: false }
        })
        .collect();
    let mut r = crate::rng::Rng::new(seed);
    let mut cur = 0usize;
    while let Some(i) = next_slot(&slots, cur, &mut r) {
        cur = i;
        step(specs, &odd, &mut slots, i, &mut r);
    }
    for s in &mut slots {
        if let Some(d) = s.drv.take() {
            s.out.err = d.err.clone();
            if let Some(w) = d.w {
                if catch_unwind(AssertUnwindSafe(move || drop(w))).is_err() {
                    s.out.panic = Some(take_panic());
                }
            }
        }
    }
    sim_hooks::set_knobs(Default::default());
    slots.into_iter().map(|s| s.out).collect()
}

fn next_slot(slots: &[Slot], cur: usize, r: &mut crate::rng::Rng) -> Option<usize> {
    let live: Vec<usize> =
        (0..slots.len()).filter(|&i| !slots[i].started || (slots[i].drv.is_some() && slots[i].at < slots[i].calls.len())).collect();
    if live.is_empty() {
        return None;
    }
    if !live.contains(&cur) || r.pct(40) {
        return Some(*r.pick(&live));
    }
    Some(cur)
}

/// The next call of writer `i`. While a row is being taken apart, others may be called (and theirs..).
fn step<'a>(specs: &'a [WriterSpec], odd: &'a [Odd], slots: &mut Vec<Slot<'a>>, i: usize, r: &mut crate::rng::Rng) {
    let spec = &specs[i];
    sim_hooks::set_knobs(knobs(&spec.knobs));
    let slot = &mut slots[i];
    if !slot.started {
        slot.started = true;
        let cfg = if spec.degree == 0 { Default::default() } else { sim_hooks::config(spec.degree as usize) };
        match catch_unwind(AssertUnwindSafe(|| TsFileWriter::new(&spec.path, schema(&spec.devices, spec.order), cfg))) {
            Err(_) => {
                slot.out.open = PANIC;
                slot.out.panic = Some(take_panic());
            }
            Ok(Err(e)) => {
                slot.out.open = code_of(&e);
                slot.out.err = Some(format!("{:?}", e));
            }
            Ok(Ok(w)) => {
                let (sn, dn) = names(&spec.devices);
                slot.drv = Some(Drv { w: Some(w), sn, dn, odd: &odd[i], panic: None, err: None });
            }
        }
        return;
    }
    // out of its slot, so that it is not called again before this call is over
    let mut d = slot.drv.take().unwrap();
    let c = std::mem::replace(&mut slot.calls[slot.at], Owned::Close);
    slot.at += 1;
    let code = match &c {
        Owned::W(a, b, t, v) => d.call(&Call::W(*a, *b, *t, *v)),
        Owned::Close => d.call(&Call::Close),
        Owned::M(a, t, items) => d.call_with(&Call::M(*a, *t, items), &mut || {
            if r.pct(30) {
                if let Some(k) = next_slot(slots, i, r) {
                    step(specs, odd, slots, k, r);
                    sim_hooks::set_knobs(knobs(&spec.knobs));
                }
            }
        }),
    };
    let slot = &mut slots[i];
    slot.out.calls.push(code);
    if code == PANIC {
        slot.out.panic = d.panic.take();
    } else {
        slot.drv = Some(d);
    }
}
