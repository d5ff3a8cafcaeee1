//! What a simulated user does: schemas, histories of calls, values, and the reference model
//! that says which points must be accepted.
use crate::rng::{mix, Rng};
use crate::tsfile::{Pt, Val, FLOAT, INT32, INT64};
use serde::{Deserialize, Serialize};

fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

pub const PLAIN: u8 = 0;
pub const TS2DIFF: u8 = 4;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Series {
    pub n: String,
    /// data type, encoding, compression
    pub t: u8,
    #[serde(default, skip_serializing_if = "is_default")]
    pub e: u8,
    #[serde(default, skip_serializing_if = "is_default")]
    pub c: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Device {
    pub n: String,
    pub s: Vec<Series>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(rename_all = "lowercase")]
pub enum Sink {
    #[default]
    File,
    /// a caller supplied sink whose positions skip this many bytes after the header
    Raw(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct KnobSet {
    #[serde(default, skip_serializing_if = "is_default")]
    pub group: Option<u32>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub first: Option<u32>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub page: Option<u32>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub points: Option<u32>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub pcheck: Option<u32>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub pmin: Option<u32>,
}

/// How generated values look
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Vk {
    Small,
    Const,
    Any,
    Extreme,
    Ramp,
    Flip,
}

/// How generated timestamps advance
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Tk {
    /// constant step
    Even(i64),
    /// random step up to this
    Jitter(i64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Op {
    /// write(device, series, time, value); indexes past the schema are unknown names
    W(u16, u16, i64, Val),
    /// write_many(device, time, [(series, value)])
    M(u16, i64, Vec<(u16, Val)>),
    /// n single writes to one series
    B { d: u16, s: u16, n: u32, t: i64, tk: Tk, vk: Vk, seed: u64 },
    /// n write_many calls over all series of a device
    R { d: u16, n: u32, t: i64, tk: Tk, vk: Vk, seed: u64 },
    Close,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct WriterSpec {
    pub path: String,
    pub devices: Vec<Device>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub sink: Sink,
    #[serde(default, skip_serializing_if = "is_default")]
    pub degree: u32,
    #[serde(default, skip_serializing_if = "is_default")]
    pub knobs: KnobSet,
    /// order in which devices and series are added to the schema
    #[serde(default, skip_serializing_if = "is_default")]
    pub order: u64,
    pub ops: Vec<Op>,
}

impl WriterSpec {
    pub fn fanout(&self) -> usize {
        if self.degree == 0 {
            256
        } else {
            self.degree as usize
        }
    }
    pub fn hole(&self) -> u64 {
        match self.sink {
            Sink::Raw(h) => h,
            _ => 0,
        }
    }
    pub fn series_count(&self) -> usize {
        self.devices.iter().map(|d| d.s.len()).sum()
    }
    pub fn calls(&self) -> u64 {
        self.ops
            .iter()
            .map(|o| match o {
                Op::B { n, .. } | Op::R { n, .. } => *n as u64,
                _ => 1,
            })
            .sum()
    }
}

pub enum Call<'a> {
    W(u16, u16, i64, Val),
    M(u16, i64, &'a [(u16, Val)]),
    Close,
}

pub fn value(t: u8, vk: Vk, seed: u64, i: u64) -> Val {
    let h = mix(seed ^ mix(i.wrapping_add(77)));
    match t {
        INT32 => Val::I(int(vk, seed, i, h, 32) as i32),
        INT64 => Val::L(int(vk, seed, i, h, 64)),
        FLOAT => Val::F(float(vk, seed, i, h)),
        _ => Val::D(h),
    }
}

fn int(vk: Vk, seed: u64, i: u64, h: u64, bits: u32) -> i64 {
    let lo = if bits == 32 { i32::MIN as i64 } else { i64::MIN };
    let hi = if bits == 32 { i32::MAX as i64 } else { i64::MAX };
    match vk {
        Vk::Small => (h % 201) as i64 - 100,
        Vk::Const => (mix(seed) as i64) % 1000,
        Vk::Any => {
            let w = h >> 58; // also narrow random widths
            if bits == 32 {
                ((mix(h) as i32) >> (w % 32)) as i64
            } else {
                (mix(h) as i64) >> w
            }
        }
        Vk::Extreme => match h % 8 {
            0 => lo,
            1 => hi,
            2 => 0,
            3 => -1,
            4 => lo + 1,
            5 => hi - 1,
            6 => (mix(h) as i64) % 3,
            _ => {
                if bits == 32 {
                    mix(h) as i32 as i64
                } else {
                    mix(h) as i64
                }
            }
        },
        Vk::Ramp => {
            let v = (seed as i64 % 5000).wrapping_add((i as i64).wrapping_mul((seed >> 7) as i64 % 90));
            if bits == 32 {
                v as i32 as i64
            } else {
                v
            }
        }
        Vk::Flip => {
            if i % 2 == 0 {
                hi - (h % 3) as i64
            } else {
                lo + (h % 3) as i64
            }
        }
    }
}

fn float(vk: Vk, seed: u64, i: u64, h: u64) -> u32 {
    match vk {
        Vk::Small => (((h % 2001) as f32 - 1000.0) / 8.0).to_bits(),
        Vk::Const => ((mix(seed) % 100) as f32 + 0.25).to_bits(),
        Vk::Any => {
            // any bits, but not a NaN or infinity
            let b = mix(h) as u32;
            if b & 0x7f80_0000 == 0x7f80_0000 {
                b & 0xbfff_ffff
            } else {
                b
            }
        }
        Vk::Extreme => match h % 11 {
            0 => f32::INFINITY.to_bits(),
            1 => f32::NEG_INFINITY.to_bits(),
            2 => 0x8000_0000, // -0
            3 => 0,
            4 => f32::MAX.to_bits(),
            5 => f32::MIN.to_bits(),
            6 => 1,           // subnormal
            7 => 0x7fc0_0000, // NaN
            8 => 0xffc0_1234, // NaN with payload
            9 => f32::MIN_POSITIVE.to_bits(),
            _ => mix(h) as u32,
        },
        Vk::Ramp => (i as f32 * 0.5 + (seed % 64) as f32).to_bits(),
        Vk::Flip => {
            if i % 2 == 0 {
                f32::MAX.to_bits()
            } else {
                f32::MIN.to_bits()
            }
        }
    }
}

pub fn step(t: i64, tk: Tk, seed: u64, i: u64) -> i64 {
    match tk {
        Tk::Even(s) => t.saturating_add(s),
        Tk::Jitter(m) => t.saturating_add(1 + (mix(seed ^ mix(i ^ 0x55aa)) % m.max(1) as u64) as i64),
    }
}

/// Every call in order; the callback returns false to stop.
pub fn for_each_call(spec: &WriterSpec, f: impl FnMut(Call) -> bool) {
    for_each_in(&spec.devices, &spec.ops, f)
}

pub fn for_each_in(devices: &[Device], ops: &[Op], mut f: impl FnMut(Call) -> bool) {
    for op in ops {
        match op {
            Op::W(d, s, t, v) => {
                if !f(Call::W(*d, *s, *t, *v)) {
                    return;
                }
            }
            Op::M(d, t, items) => {
                if !f(Call::M(*d, *t, items)) {
                    return;
                }
            }
            Op::Close => {
                if !f(Call::Close) {
                    return;
                }
            }
            Op::B { d, s, n, t, tk, vk, seed } => {
                let ty = devices.get(*d as usize).and_then(|x| x.s.get(*s as usize)).map_or(0, |x| x.t);
                let mut ts = *t;
                for i in 0..*n as u64 {
                    if !f(Call::W(*d, *s, ts, value(ty, *vk, *seed, i))) {
                        return;
                    }
                    ts = step(ts, *tk, *seed, i);
                }
            }
            Op::R { d, n, t, tk, vk, seed } => {
                let types: Vec<u8> = devices.get(*d as usize).map_or(vec![], |x| x.s.iter().map(|s| s.t).collect());
                let mut ts = *t;
                let mut items = Vec::with_capacity(types.len());
                for i in 0..*n as u64 {
                    items.clear();
                    for (k, ty) in types.iter().enumerate() {
                        items.push((k as u16, value(*ty, *vk, seed.wrapping_add(k as u64 * 7919), i)));
                    }
                    if !f(Call::M(*d, ts, &items)) {
                        return;
                    }
                    ts = step(ts, *tk, *seed, i);
                }
            }
        }
    }
}

pub fn type_ok(t: u8, v: &Val) -> bool {
    matches!((t, v), (INT32, Val::I(_)) | (INT64, Val::L(_)) | (FLOAT, Val::F(_)))
}
pub fn enc_ok(s: &Series) -> bool {
    s.e == PLAIN || (s.e == TS2DIFF && s.t != FLOAT)
}

// result codes of calls
pub const OK: u8 = 0;
pub const ILLEGAL: u8 = 1;
pub const ORDER: u8 = 2;
pub const TYPE: u8 = 3;
pub const ENCODING: u8 = 4;
pub const IO: u8 = 5;
pub const OTHER: u8 = 6;
pub const PANIC: u8 = 255;

pub fn code_name(c: u8) -> &'static str {
    match c {
        OK => "Ok",
        ILLEGAL => "Err(IllegalState)",
        ORDER => "Err(OutOfOrderData)",
        TYPE => "Err(WrongTypeForSeries)",
        ENCODING => "Err(Encoding)",
        IO => "Err(IoError)",
        PANIC => "panic",
        _ => "Err(other)",
    }
}

/// The reference: what has been accepted so far.
pub struct Model<'a> {
    pub spec: &'a WriterSpec,
    /// accepted points per device and series
    pub acc: Vec<Vec<Vec<Pt>>>,
    last: Vec<Vec<i64>>,
    pub keep_points: bool,
    pub count: u64,
}

/// What the reference says about one call
pub struct Expect {
    /// points of the call that are accepted, in order
    pub accepted: Vec<(u16, Val)>,
    /// bit set of the admissible error codes, 0 = the call must succeed
    pub errors: u16,
    pub why: &'static str,
}

impl<'a> Model<'a> {
    pub fn new(spec: &'a WriterSpec) -> Model<'a> {
        Model {
            spec,
            acc: spec.devices.iter().map(|d| d.s.iter().map(|_| vec![]).collect()).collect(),
            last: spec.devices.iter().map(|d| d.s.iter().map(|_| -1).collect()).collect(),
            keep_points: true,
            count: 0,
        }
    }

    fn judge(&self, d: u16, s: u16, t: i64, v: &Val) -> (u16, &'static str) {
        let dev = match self.spec.devices.get(d as usize) {
            None => return (1 << ILLEGAL, "unknown device"),
            Some(d) => d,
        };
        let ser = match dev.s.get(s as usize) {
            None => return (1 << ILLEGAL, "unknown measurement"),
            Some(s) => s,
        };
        let mut e = 0;
        let mut why = "";
        if !enc_ok(ser) {
            e |= 1 << ENCODING;
            why = "encoding does not support the type";
        }
        if !type_ok(ser.t, v) {
            e |= 1 << TYPE;
            why = "wrong type";
        }
        if t <= self.last[d as usize][s as usize] {
            e |= 1 << ORDER;
            why = if t < 0 { "negative timestamp" } else { "not newer than the last accepted point" };
        }
        (e, why)
    }

    /// accept one point
    pub fn put(&mut self, d: u16, s: u16, t: i64, v: Val) {
        let (d, s) = (d as usize, s as usize);
        if self.keep_points {
            self.acc[d][s].push((t, v));
        }
        self.last[d][s] = self.last[d][s].max(t);
        self.count += 1;
    }

    /// what the reference says about a call
    pub fn verdict(&self, c: &Call) -> Expect {
        let mut x = Expect { accepted: vec![], errors: 0, why: "" };
        match c {
            Call::W(d, s, t, v) => {
                let (e, why) = self.judge(*d, *s, *t, v);
                if e == 0 {
                    x.accepted.push((*s, *v));
                }
                x.errors = e;
                x.why = why;
            }
            Call::M(d, t, items) => {
                if *d as usize >= self.spec.devices.len() {
                    x.errors = 1 << ILLEGAL;
                    x.why = "unknown device";
                    return x;
                }
                let mut seen = std::collections::BTreeSet::new();
                for (s, v) in items.iter() {
                    let (mut e, mut why) = self.judge(*d, *s, *t, v);
                    if seen.contains(s) {
                        e |= 1 << ORDER;
                        why = "same series twice in one row";
                    }
                    if e != 0 {
                        x.errors = e;
                        x.why = why;
                        break;
                    }
                    seen.insert(*s);
                    x.accepted.push((*s, *v));
                }
            }
            Call::Close => {}
        }
        x
    }

    /// verdict, and the accepted points are taken over
    pub fn apply(&mut self, c: &Call) -> Expect {
        let x = self.verdict(c);
        let (d, t) = match c {
            Call::W(d, _, t, _) => (*d, *t),
            Call::M(d, t, _) => (*d, *t),
            Call::Close => return x,
        };
        for (s, v) in &x.accepted {
            self.put(d, *s, t, *v);
        }
        x
    }

    pub fn last(&self, d: usize, s: usize) -> i64 {
        self.last[d][s]
    }
}

// ---- generators -----------------------------------------------------------------------

pub const UNKNOWN: u16 = 60000;

/// from here to UNKNOWN: names that are close to known ones
pub const NEAR: u16 = 55000;
const NEAR_KINDS: u16 = 16;

/// name of a device or measurement index beyond the schema
pub fn unknown_name(i: u16) -> String {
    format!("?{}", i)
}

fn near(base: &str, kind: u16, other: &str, taken: impl Fn(&str) -> bool, i: u16) -> String {
    let mut b = base.to_string();
    match kind {
        0 => b = b.to_uppercase(),
        1 => b = b.to_lowercase(),
        2 => b.push(' '),
        3 => b.insert(0, ' '),
        4 => b.push('.'),
        5 => drop(b.pop()),
        6 => b.push(b.chars().last().unwrap_or('0')),
        7 => b.insert_str(0, "root."),
        8 => b = b.rsplit('.').next().unwrap_or("").to_string(),
        9 => b = format!("`{}`", b),
        10 => b.push('\0'),
        11 => b.clear(),
        12 => b = b.replace('.', "_"),
        13 => b = b.trim().trim_end_matches(char::is_numeric).to_string(),
        14 => b = other.to_string(),
        _ => b = format!("{}.{}", other, b),
    }
    if taken(&b) {
        b = unknown_name(i);
    }
    b
}

fn split(i: u16) -> (usize, u16) {
    let k = i - NEAR;
    ((k / NEAR_KINDS) as usize, k % NEAR_KINDS)
}

/// name of a device index beyond the schema
pub fn odd_device(devices: &[Device], i: u16) -> String {
    if !(NEAR..UNKNOWN).contains(&i) || devices.is_empty() {
        return unknown_name(i);
    }
    let (n, kind) = split(i);
    let base = &devices[n % devices.len()];
    let other = base.s.first().map_or("", |s| &s.n);
    near(&base.n, kind, other, |x| devices.iter().any(|d| d.n == x), i)
}

/// name of a measurement index beyond those of a device
pub fn odd_series(devices: &[Device], d: u16, i: u16) -> String {
    let dev = match devices.get(d as usize) {
        Some(dev) if (NEAR..UNKNOWN).contains(&i) && !dev.s.is_empty() => dev,
        _ => return unknown_name(i),
    };
    let (n, kind) = split(i);
    let next = &devices[(d as usize + 1) % devices.len()];
    let other = match kind {
        14 => next.s.get(n % next.s.len().max(1)).map_or("", |s| &s.n),
        _ => &dev.n,
    };
    near(&dev.s[n % dev.s.len()].n, kind, other, |x| dev.s.iter().any(|s| s.n == x), i)
}

/// an index of a name that is not in the schema; `c`: fit for C
pub fn odd_index(r: &mut Rng, base: usize, c: bool) -> u16 {
    if r.pct(30) {
        return UNKNOWN + r.below(4) as u16;
    }
    let mut kind = r.below(NEAR_KINDS as u64) as u16;
    if c && kind == 10 {
        kind = 2;
    }
    NEAR + (base % 300) as u16 * NEAR_KINDS + kind
}

fn name(r: &mut Rng, style: u64, i: usize, device: bool) -> String {
    let c = if device { 'd' } else { 's' };
    match style {
        0 => format!("{}{}", c, i),
        1 => format!("{}{:03}", c, i),
        2 if device => format!("root.sg{}.{}{}", i % 3, c, i),
        2 => format!("{}{}", c, i),
        3 => {
            // names that are prefixes of one another
            let mut s = String::from("a");
            let mut k = i;
            while k > 0 {
                s.push(['a', '.', '/', 'b', '0', 'z'][k % 6]);
                k /= 6;
            }
            s
        }
        4 => {
            const P: [&str; 8] = ["temperature", "ä", "温度", "σ", "a b", "%s", "`x`", "ß"];
            format!("{}{}", P[i % 8], if i < 8 { String::new() } else { i.to_string() })
        }
        5 => {
            let n = r.range(1, 12);
            let mut s: String = (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect();
            s.push_str(&i.to_string());
            s
        }
        6 => format!("{}{}", "x".repeat(r.range(1, 200) as usize), i),
        7 => {
            // dots inside names, so that device and measurement paths overlap
            const P: [&str; 8] = ["d", "d.a", "d.a.b", "d.b", "a", "a.b", "a.b.c", "b"];
            format!("{}{}", P[i % 8], if i < 8 { String::new() } else { format!(".{}", i) })
        }
        8 => {
            // any printable characters in any place
            let n = r.range(1, 10);
            let s: String = (0..n)
                .map(|_| match r.below(6) {
                    0 => *r.pick(&['_', '$', '-', '#', '@', '.', ' ', '*', '\\', '"', '\'', '/', '~']),
                    1 => char::from_u32(r.range(0xa1, 0x2fff) as u32).unwrap_or('x'),
                    2 => char::from(r.range(b'0' as u64, b'9' as u64) as u8),
                    _ => char::from(r.range(33, 126) as u8),
                })
                .collect();
            if s.starts_with('?') {
                format!("_{}", s)
            } else {
                s
            }
        }
        9 => {
            // the case of letters matters
            const P: [&str; 12] = ["a", "B", "c", "D", "e", "F", "A", "b", "_a", "_B", "aB", "Ab"];
            format!("{}{}", P[i % 12], if i < 12 { String::new() } else { i.to_string() })
        }
        _ => format!("{}{}", c, i),
    }
}

fn special_name(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => " ".into(),
        2 => ".".into(),
        3 => "ends with a dot.".into(),
        4 => "\u{10FFFF}\u{1}\0\n".into(),
        5 => "é".repeat(*r.pick(&[31usize, 32, 63, 64, 65, 127, 128, 4096])),
        _ => "n".repeat(*r.pick(&[14usize, 15, 16, 17, 31, 32, 63, 64, 126, 127, 128, 129, 255, 256, 257, 8191, 8192, 16383, 16384, 16385, 40_000])),
    }
}

pub struct SchemaOpts {
    pub devices: (u64, u64),
    pub series: (u64, u64),
    pub dots: bool,
    pub bad_enc: bool,
}
impl Default for SchemaOpts {
    fn default() -> Self {
        SchemaOpts { devices: (1, 4), series: (1, 5), dots: true, bad_enc: false }
    }
}

pub fn gen_schema(r: &mut Rng, o: &SchemaOpts) -> Vec<Device> {
    let nd = r.range(o.devices.0, o.devices.1);
    let styles: &[u64] = match o.dots {
        true => &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9],
        false => &[0, 0, 1, 2, 4, 5, 6, 9],
    };
    let dstyle = *r.pick(styles);
    let sstyle = *r.pick(styles);
    // now and then one name of a special length (length prefixes change their size there)
    let special = if r.pct(4) { Some(r.u64()) } else { None };
    let mut out: Vec<Device> = vec![];
    for i in 0..nd {
        let mut n = name(r, dstyle, i as usize, true);
        if i == 0 && special.map_or(false, |x| x % 2 == 0) {
            n = special_name(r);
        }
        if out.iter().any(|d| d.n == n) {
            continue;
        }
        let ns = r.range(o.series.0, o.series.1);
        let mut s: Vec<Series> = vec![];
        for k in 0..ns {
            let mut n = name(r, sstyle, k as usize, false);
            if i == 0 && k == 0 && special.map_or(false, |x| x % 2 == 1) {
                n = special_name(r);
            }
            if s.iter().any(|x| x.n == n) {
                continue;
            }
            let t = *r.pick(&[INT32, INT64, FLOAT]);
            let mut e = *r.pick(&[PLAIN, TS2DIFF]);
            if t == FLOAT && e == TS2DIFF && !(o.bad_enc && r.pct(30)) {
                e = PLAIN;
            }
            s.push(Series { n, t, e, c: r.below(2) as u8 });
        }
        out.push(Device { n, s });
    }
    out
}

pub fn gen_knobs(r: &mut Rng) -> KnobSet {
    let mut k = KnobSet::default();
    match r.below(6) {
        0 => {} // as shipped
        1 | 2 => {
            // chunk groups often
            k.group = Some(r.range(200, 6000) as u32);
            k.first = Some(r.range(1, 60) as u32);
        }
        3 => {
            // pages often
            k.page = Some(r.range(40, 2000) as u32);
            k.pcheck = Some(r.range(1, 50) as u32);
            k.pmin = Some(r.range(1, 30) as u32);
        }
        _ => {
            k.group = Some(r.range(300, 20000) as u32);
            k.first = Some(r.range(1, 100) as u32);
            k.page = Some(r.range(40, 1500) as u32);
            k.pcheck = Some(r.range(1, 40) as u32);
            k.pmin = Some(r.range(1, 30) as u32);
            if r.pct(40) {
                k.points = Some(r.range(1, 200) as u32);
            }
        }
    }
    k
}

pub struct HistOpts {
    pub points: u64,
    /// percent of operations that are refused
    pub invalid: u32,
    pub close: bool,
    pub after_close: u64,
    pub extreme: bool,
}
impl Default for HistOpts {
    fn default() -> Self {
        HistOpts { points: 300, invalid: 0, close: true, after_close: 0, extreme: true }
    }
}

pub fn any_vk(r: &mut Rng, extreme: bool) -> Vk {
    if extreme {
        *r.pick(&[Vk::Small, Vk::Const, Vk::Any, Vk::Any, Vk::Extreme, Vk::Ramp, Vk::Flip])
    } else {
        *r.pick(&[Vk::Small, Vk::Const, Vk::Ramp, Vk::Any])
    }
}

/// A history of about `points` points, built against the reference so that validity is chosen.
pub fn gen_ops(r: &mut Rng, spec: &mut WriterSpec, o: &HistOpts) {
    let devices = spec.devices.clone();
    let base = WriterSpec { ops: vec![], ..spec.clone() };
    let mut m = Model::new(&base);
    m.keep_points = false;
    let mut ops: Vec<Op> = vec![];
    let mut left = o.points as i64;
    let t_base: i64 = *r.pick(&[
        0, 0, 1, 1000, 1_600_000_000_000, i64::MAX - 5000, i64::MAX / 2,
        (1 << 31) - 100, (1 << 32) - 100, (1 << 53) - 100, (1 << 62) - 100,
    ]);
    let tk_max: i64 = *r.pick(&[1, 1, 10, 1000, 70_000, 1 << 31, 1 << 33, 1 << 40, 1 << 55]);
    let usable: Vec<(u16, u16)> = devices
        .iter()
        .enumerate()
        .flat_map(|(d, x)| x.s.iter().enumerate().filter(|(_, s)| enc_ok(s)).map(move |(s, _)| (d as u16, s as u16)))
        .collect();
    let mut guard = 0;
    while left > 0 && guard < 4 * o.points + 50 {
        guard += 1;
        if o.invalid > 0 && r.pct(o.invalid) {
            let op = gen_invalid(r, &devices, &m);
            feed(&mut m, &base, &op);
            ops.push(op);
            left -= 1;
            continue;
        }
        if usable.is_empty() {
            left -= 1;
            continue;
        }
        let (d, s) = *r.pick(&usable);
        let last = m.last(d as usize, s as usize);
        let t = if last < 0 {
            if r.pct(60) {
                t_base
            } else {
                r.below(100) as i64
            }
        } else if last == i64::MAX {
            left -= 1;
            continue;
        } else {
            match r.below(20) {
                0 if o.extreme => i64::MAX,
                1 => last + 1,
                _ => step(last, Tk::Jitter(tk_max), r.u64(), 0),
            }
        };
        let vk = any_vk(r, o.extreme);
        let op = match r.below(10) {
            0..=3 => {
                left -= 1;
                Op::W(d, s, t, value(devices[d as usize].s[s as usize].t, vk, r.u64(), 0))
            }
            4..=6 => {
                // one row over a random subset of the device, at a time valid for all of them
                let dev = &devices[d as usize];
                let mut idx: Vec<u16> = (0..dev.s.len() as u16).filter(|k| enc_ok(&dev.s[*k as usize])).collect();
                shuffle(r, &mut idx);
                let n = r.range(0, idx.len().min(20) as u64) as usize;
                idx.truncate(n);
                let mx = idx.iter().map(|k| m.last(d as usize, *k as usize)).max().unwrap_or(-1);
                if mx == i64::MAX {
                    left -= 1;
                    continue;
                }
                let t = if mx < t { t } else { step(mx, Tk::Jitter(tk_max), r.u64(), 1) };
                left -= n.max(1) as i64;
                Op::M(d, t, idx.iter().map(|k| (*k, value(dev.s[*k as usize].t, vk, r.u64(), 0))).collect())
            }
            7 | 8 => {
                let n = r.range(1, (left as u64).min(400).max(1)) as u32;
                let tk = if r.pct(50) { Tk::Even(1 + r.below(tk_max as u64) as i64) } else { Tk::Jitter(tk_max) };
                // stay below the end of time
                let n = n.min(((i64::MAX - t) / tk_max.max(1)).min(1 << 20) as u32 + 1);
                left -= n as i64;
                Op::B { d, s, n, t, tk, vk, seed: r.u64() >> 1 }
            }
            _ => {
                let dev = &devices[d as usize];
                if !dev.s.iter().all(enc_ok) {
                    left -= 1;
                    continue;
                }
                let mx = (0..dev.s.len()).map(|k| m.last(d as usize, k)).max().unwrap();
                if mx == i64::MAX {
                    left -= 1;
                    continue;
                }
                let t = if mx < t { t } else { mx + 1 };
                let n = r.range(1, (left as u64 / dev.s.len() as u64).min(200).max(1)) as u32;
                let tk = Tk::Jitter(tk_max);
                let n = n.min(((i64::MAX - t) / tk_max.max(1)).min(1 << 20) as u32 + 1);
                left -= n as i64 * dev.s.len() as i64;
                Op::R { d, n, t, tk, vk, seed: r.u64() >> 1 }
            }
        };
        feed(&mut m, &base, &op);
        ops.push(op);
    }
    if o.close {
        ops.push(Op::Close);
        for _ in 0..o.after_close {
            let op = match r.below(4) {
                0 => Op::Close,
                1 if !usable.is_empty() => {
                    let (d, _) = *r.pick(&usable);
                    let dev = &devices[d as usize];
                    let t = (0..dev.s.len()).map(|k| m.last(d as usize, k)).max().unwrap().saturating_add(1);
                    Op::M(d, t, (0..dev.s.len()).map(|k| (k as u16, value(dev.s[k].t, Vk::Small, r.u64(), 0))).collect())
                }
                2 if !usable.is_empty() => {
                    let (d, s) = *r.pick(&usable);
                    let t = m.last(d as usize, s as usize).saturating_add(1);
                    Op::B { d, s, n: r.range(1, 300) as u32, t, tk: Tk::Even(1), vk: Vk::Any, seed: r.u64() >> 1 }
                }
                3 if o.invalid > 0 => gen_invalid(r, &devices, &m),
                _ if !usable.is_empty() => {
                    let (d, s) = *r.pick(&usable);
                    let t = m.last(d as usize, s as usize).saturating_add(1);
                    Op::W(d, s, t, value(devices[d as usize].s[s as usize].t, Vk::Small, r.u64(), 0))
                }
                _ => Op::Close,
            };
            ops.push(op);
        }
    }
    spec.ops = ops;
}

fn feed(m: &mut Model, base: &WriterSpec, op: &Op) {
    for_each_in(&base.devices, std::slice::from_ref(op), |c| {
        m.apply(&c);
        true
    });
}

pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

fn wrong_value(r: &mut Rng, t: u8) -> Val {
    let all = [Val::I(5), Val::L(-7), Val::F(1.5f32.to_bits()), Val::D(2.5f64.to_bits())];
    loop {
        let v = *r.pick(&all);
        if !type_ok(t, &v) {
            return v;
        }
    }
}

fn gen_invalid(r: &mut Rng, devices: &[Device], m: &Model) -> Op {
    let d = r.below(devices.len() as u64) as usize;
    let dev = &devices[d];
    let s = r.below(dev.s.len() as u64) as usize;
    let last = m.last(d, s);
    let good = |r: &mut Rng, k: usize| value(dev.s[k].t, Vk::Small, r.u64(), 0);
    let old = |r: &mut Rng| match r.below(6) {
        0 => -1,
        1 => i64::MIN,
        2 => last,
        3 => last.saturating_sub(1).min(last),
        4 => 0.min(last),
        _ => {
            if last > 0 {
                r.below(last as u64) as i64
            } else {
                last
            }
        }
    };
    let fresh = last.saturating_add(1);
    match r.below(8) {
        0 => Op::W(odd_index(r, d, false), s as u16, fresh, good(r, s)),
        1 => {
            let i = odd_index(r, s, false);
            let v = if r.pct(80) { good(r, s % 300 % dev.s.len()) } else { Val::L(1) };
            Op::W(d as u16, i, fresh, v)
        }
        2 | 3 => Op::W(d as u16, s as u16, old(r), good(r, s)),
        4 => {
            let v = wrong_value(r, dev.s[s].t);
            Op::W(d as u16, s as u16, if r.pct(80) { fresh } else { old(r) }, v)
        }
        5 => Op::M(odd_index(r, d, false), fresh, vec![(s as u16, good(r, s))]),
        _ => {
            // a row that fails somewhere
            let mut idx: Vec<usize> = (0..dev.s.len()).collect();
            shuffle(r, &mut idx);
            let n = r.range(1, idx.len().min(12) as u64) as usize;
            idx.truncate(n);
            let t = idx.iter().map(|k| m.last(d, *k)).max().unwrap().saturating_add(1);
            let mut items: Vec<(u16, Val)> = idx.iter().map(|k| (*k as u16, good(r, *k))).collect();
            let at = r.below(n as u64) as usize;
            let mut time = t;
            match r.below(4) {
                0 => items[at].0 = odd_index(r, items[at].0 as usize, false),
                1 => {
                    let k = items[at].0 as usize;
                    items[at].1 = wrong_value(r, dev.s[k].t);
                }
                2 => {
                    let dup = items[at];
                    items.push(dup); // the same series twice in one row
                }
                _ => time = idx.iter().map(|k| m.last(d, *k)).max().unwrap(),
            }
            Op::M(d as u16, time, items)
        }
    }
}
