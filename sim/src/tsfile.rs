//! Independent reader for the file format: sequential scan, index descent, statistics,
//! Bloom filter. Written from the format, not from the writer.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    I(i32),
    L(i64),
    F(u32),
    D(u64),
}

pub type Pt = (i64, Val);
type Res<T> = Result<T, String>;

pub const INT32: u8 = 1;
pub const INT64: u8 = 2;
pub const FLOAT: u8 = 3;

#[derive(Clone, Debug, PartialEq)]
pub struct Stats {
    pub count: u32,
    pub t0: i64,
    pub t1: i64,
    pub min: Val,
    pub max: Val,
    pub first: Val,
    pub last: Val,
    /// i64 for INT32, f64 bits otherwise
    pub sum: u64,
}

#[derive(Clone, Debug)]
pub struct Page {
    pub stats: Option<Stats>,
    pub pts: Vec<Pt>,
    pub plain_len: usize,
    pub stored_len: usize,
}

#[derive(Clone, Debug)]
pub struct Chunk {
    pub dev: String,
    pub meas: String,
    pub off: u64,
    pub end: u64,
    pub dt: u8,
    pub comp: u8,
    pub enc: u8,
    pub multi: bool,
    pub pages: Vec<Page>,
    pub group: usize,
}

impl Chunk {
    pub fn points(&self) -> usize {
        self.pages.iter().map(|p| p.pts.len()).sum()
    }
    pub fn iter(&self) -> impl Iterator<Item = &Pt> {
        self.pages.iter().flat_map(|p| p.pts.iter())
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum Stop {
    /// the separator in front of the metadata section
    Metadata,
    /// the bytes end (inside or between elements)
    Eof,
    Bad(String),
}

#[derive(Debug)]
pub struct Scan {
    pub groups: Vec<(String, u64)>,
    pub chunks: Vec<Chunk>,
    /// offset after the last complete element
    pub end: u64,
    pub stop: Stop,
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

const EOF: &str = "unexpected end";

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        if n > self.b.len() - self.p {
            return Err(EOF.into());
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> Res<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u32(&mut self) -> Res<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn i32(&mut self) -> Res<i32> {
        Ok(self.u32()? as i32)
    }
    pub fn i64(&mut self) -> Res<i64> {
        Ok(i64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn var(&mut self) -> Res<u32> {
        let mut v: u64 = 0;
        let mut s = 0;
        loop {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u64) << s;
            if b & 0x80 == 0 {
                break;
            }
            s += 7;
            if s > 28 {
                return Err("varint too long".into());
            }
        }
        if v > u32::MAX as u64 {
            return Err("varint overflow".into());
        }
        Ok(v as u32)
    }
    pub fn vari(&mut self) -> Res<i32> {
        let u = self.var()?;
        Ok(((u >> 1) as i32) ^ -((u & 1) as i32))
    }
    pub fn str(&mut self) -> Res<String> {
        let n = self.vari()?;
        if n < 0 {
            return Err("negative string length".into());
        }
        String::from_utf8(self.take(n as usize)?.to_vec()).map_err(|_| "string is not UTF-8".into())
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
}

fn value(r: &mut Rd, dt: u8) -> Res<Val> {
    Ok(match dt {
        INT32 => Val::I(r.i32()?),
        INT64 => Val::L(r.i64()?),
        FLOAT => Val::F(r.u32()?),
        _ => return Err(format!("unknown data type {}", dt)),
    })
}

pub fn stats(r: &mut Rd, dt: u8) -> Res<Stats> {
    Ok(Stats {
        count: r.var()?,
        t0: r.i64()?,
        t1: r.i64()?,
        min: value(r, dt)?,
        max: value(r, dt)?,
        first: value(r, dt)?,
        last: value(r, dt)?,
        sum: r.i64()? as u64,
    })
}

thread_local! {
    static SHAPES: std::cell::RefCell<BTreeMap<&'static str, std::collections::BTreeSet<u32>>> = Default::default();
}

/// notes that a file had this value of some dimension
pub fn shape(what: &'static str, v: usize) {
    SHAPES.with(|s| {
        s.borrow_mut().entry(what).or_default().insert(v.min(u32::MAX as usize) as u32);
    });
}

pub fn take_shapes() -> BTreeMap<&'static str, std::collections::BTreeSet<u32>> {
    SHAPES.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

/// bits [pos, pos+width) of `b`, most significant first
fn bits(b: &[u8], pos: usize, width: usize) -> u64 {
    let mut v: u64 = 0;
    let mut at = pos;
    let mut left = width;
    while left > 0 {
        let k = (8 - at % 8).min(left);
        let byte = (b[at / 8] << (at % 8)) >> (8 - k);
        v = if k == 64 { 0 } else { v << k } | byte as u64;
        at += k;
        left -= k;
    }
    v
}

fn ts2diff(b: &[u8], wide: bool, out: &mut Vec<i64>) -> Res<()> {
    let mut r = Rd::new(b);
    while r.left() > 0 {
        let n = r.u32()? as usize;
        let width = r.u32()? as usize;
        if width > if wide { 64 } else { 32 } || n > 1 << 24 {
            return Err(format!("TS2DIFF block header n={} width={}", n, width));
        }
        shape(if wide { "bit widths of 64-bit differences (0-64)" } else { "bit widths of 32-bit differences (0-32)" }, width);
        shape("differences in a block (0-128)", n);
        let (min, first) = if wide {
            (r.i64()?, r.i64()?)
        } else {
            (r.i32()? as i64, r.i32()? as i64)
        };
        let packed = r.take((n * width + 7) / 8)?;
        out.push(first);
        let mut prev = first;
        for i in 0..n {
            let d = bits(packed, i * width, width);
            prev = if wide {
                prev.wrapping_add(min).wrapping_add(d as i64)
            } else {
                (prev as i32).wrapping_add(min as i32).wrapping_add(d as u32 as i32) as i64
            };
            out.push(prev);
        }
    }
    Ok(())
}

fn page_points(body: &[u8], dt: u8, enc: u8) -> Res<Vec<Pt>> {
    let mut r = Rd::new(body);
    let tl = r.var()? as usize;
    let tb = r.take(tl)?;
    let mut times = vec![];
    ts2diff(tb, true, &mut times)?;
    let vb = &body[r.p..];
    let mut vals = Vec::with_capacity(times.len());
    match (dt, enc) {
        (INT32, 0) => {
            let mut v = Rd::new(vb);
            while v.left() > 0 {
                let p = v.p;
                vals.push(Val::I(v.vari()?));
                shape("bytes of a plain 32-bit value", v.p - p);
            }
        }
        (INT64, 0) => {
            let mut v = Rd::new(vb);
            while v.left() > 0 {
                vals.push(Val::L(v.i64()?));
            }
        }
        (FLOAT, 0) => {
            let mut v = Rd::new(vb);
            while v.left() > 0 {
                vals.push(Val::F(v.u32()?));
            }
        }
        (INT32, 4) | (INT64, 4) => {
            let mut x = vec![];
            ts2diff(vb, dt == INT64, &mut x)?;
            vals.extend(x.into_iter().map(|v| if dt == INT64 { Val::L(v) } else { Val::I(v as i32) }));
        }
        _ => return Err(format!("unsupported encoding {} for type {}", enc, dt)),
    }
    if vals.len() != times.len() {
        return Err(format!("page has {} timestamps but {} values", times.len(), vals.len()));
    }
    if times.is_empty() {
        return Err("page without points".into());
    }
    Ok(times.into_iter().zip(vals).collect())
}

/// one chunk starting at its marker
fn chunk(r: &mut Rd, base: u64, dev: &str, group: usize) -> Res<Chunk> {
    let off = base + r.p as u64;
    let marker = r.u8()?;
    let multi = match marker {
        1 => true,
        5 => false,
        m => return Err(format!("chunk marker {}", m)),
    };
    let meas = r.str()?;
    let size = r.var()? as usize;
    let dt = r.u8()?;
    let comp = r.u8()?;
    let enc = r.u8()?;
    let data = r.take(size)?;
    let mut d = Rd::new(data);
    let mut pages = vec![];
    let inner = |e: String| if e == EOF { "chunk data ends inside a page".to_string() } else { e };
    while d.left() > 0 {
        let plain_len = d.var().map_err(inner)? as usize;
        let stored_len = d.var().map_err(inner)? as usize;
        let st = if multi { Some(stats(&mut d, dt).map_err(inner)?) } else { None };
        let body = d.take(stored_len).map_err(inner)?;
        let pts = match comp {
            0 => {
                if plain_len != stored_len {
                    return Err("uncompressed page with different sizes".into());
                }
                page_points(body, dt, enc).map_err(inner)?
            }
            1 => {
                let raw = snap::raw::Decoder::new().decompress_vec(body).map_err(|e| format!("snappy: {}", e))?;
                if raw.len() != plain_len {
                    return Err(format!("page announces {} uncompressed bytes, has {}", plain_len, raw.len()));
                }
                page_points(&raw, dt, enc).map_err(inner)?
            }
            c => return Err(format!("unknown compression {}", c)),
        };
        pages.push(Page { stats: st, pts, plain_len, stored_len });
        if !multi {
            break;
        }
    }
    if d.left() > 0 {
        return Err("single page chunk has bytes after its page".into());
    }
    if pages.is_empty() {
        return Err("chunk without pages".into());
    }
    if multi && pages.len() < 2 {
        return Err("multi page chunk with one page".into());
    }
    let log2 = |n: usize| (usize::BITS - n.leading_zeros()) as usize;
    shape("pages in a chunk", pages.len());
    shape("points in a page", pages[0].pts.len());
    shape("log2 of chunk bytes", log2(size));
    shape("log2 of plain page bytes", log2(pages[0].plain_len as usize));
    shape("log2 of stored page bytes", log2(pages[0].stored_len as usize));
    shape("path bytes mod 16", (dev.len() + 1 + meas.len()) % 16);
    shape("log2 of path bytes", log2(dev.len() + 1 + meas.len()));
    shape("type, encoding, compression", dt as usize * 100 + enc as usize * 10 + comp as usize);
    Ok(Chunk { dev: dev.into(), meas, off, end: base + r.p as u64, dt, comp, enc, multi, pages, group })
}

pub const HEADER: &[u8] = b"TsFile\x03";

/// Sequential scan from the start. `hole` bytes are missing right after the header.
pub fn scan(b: &[u8], hole: u64) -> Scan {
    let mut out = Scan { groups: vec![], chunks: vec![], end: 0, stop: Stop::Eof };
    if b.len() < HEADER.len() {
        if !HEADER.starts_with(b) {
            out.stop = Stop::Bad("header differs".into());
        }
        return out;
    }
    if &b[..7] != HEADER {
        out.stop = Stop::Bad("header differs".into());
        return out;
    }
    let mut r = Rd::new(b);
    r.p = 7;
    out.end = 7 + hole;
    let mut dev: Option<String> = None;
    while r.left() > 0 {
        let start = r.p;
        let e = match b[start] {
            0 => {
                r.p += 1;
                r.str().map(|d| {
                    out.groups.push((d.clone(), start as u64 + hole));
                    dev = Some(d);
                })
            }
            1 | 5 => match &dev {
                None => Err("chunk outside a chunk group".into()),
                Some(d) => chunk(&mut r, hole, d, out.groups.len() - 1).map(|c| out.chunks.push(c)),
            },
            2 => {
                out.stop = Stop::Metadata;
                return out;
            }
            m => Err(format!("marker {}", m)),
        };
        match e {
            Ok(()) => out.end = r.p as u64 + hole,
            Err(e) if e == EOF => return out,
            Err(e) => {
                out.stop = Stop::Bad(format!("at {}: {}", start as u64 + hole, e));
                return out;
            }
        }
    }
    out
}

// ---- metadata ------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Node {
    pub entries: Vec<(String, i64)>,
    pub end: i64,
    pub kind: u8,
}

#[derive(Clone, Debug)]
pub struct Series {
    pub dev: String,
    pub meas: String,
    pub kind: u8,
    pub dt: u8,
    pub off: u64,
    pub stats: Stats,
    pub chunks: Vec<(i64, Option<Stats>)>,
}

pub struct Bloom {
    pub bits: Vec<u8>,
    pub size: u32,
    pub hashes: u32,
}

pub struct File<'a> {
    b: &'a [u8],
    hole: u64,
    pub meta: u64,
    pub footer: u64,
    pub root: Node,
    pub bloom: Bloom,
    pub data: Scan,
    pub depth: u32,
}

fn node(r: &mut Rd) -> Res<Node> {
    let n = r.var()? as usize;
    if n > 1 << 20 {
        return Err("index node too large".into());
    }
    let mut entries = Vec::new();
    for _ in 0..n {
        let name = r.str()?;
        entries.push((name, r.i64()?));
    }
    Ok(Node { entries, end: r.i64()?, kind: r.u8()? })
}

pub const INTERNAL_DEVICE: u8 = 0;
pub const LEAF_DEVICE: u8 = 1;
pub const INTERNAL_MEASUREMENT: u8 = 2;
pub const LEAF_MEASUREMENT: u8 = 3;

pub fn has_tail_magic(b: &[u8]) -> bool {
    b.len() >= 13 && b.ends_with(b"TsFile")
}

impl<'a> File<'a> {
    /// Everything a reader needs to trust the file: header, data section, trailer, footer.
    pub fn open(b: &'a [u8], hole: u64) -> Res<File<'a>> {
        if b.len() < 7 + 4 + 6 || &b[..7] != HEADER {
            return Err("no TsFile header".into());
        }
        if !b.ends_with(b"TsFile") {
            return Err("no TsFile trailer".into());
        }
        let end = b.len() - 10;
        let size = u32::from_be_bytes(b[end..end + 4].try_into().unwrap()) as usize;
        if size > end - 7 {
            return Err(format!("footer length {} exceeds the file", size));
        }
        let start = end - size;
        let mut r = Rd::new(&b[..end]);
        r.p = start;
        let e = |x: String| format!("footer: {}", x);
        let root = node(&mut r).map_err(e)?;
        let meta = r.i64().map_err(e)?;
        let n = r.var().map_err(e)? as usize;
        let bits = r.take(n).map_err(e)?.to_vec();
        let bloom = Bloom { bits, size: r.var().map_err(e)?, hashes: r.var().map_err(e)? };
        if r.left() != 0 {
            return Err(format!("footer length {} leaves {} bytes", size, r.left()));
        }
        let data = scan(b, hole);
        match &data.stop {
            Stop::Metadata => {}
            s => return Err(format!("data section: {:?} at {}", s, data.end)),
        }
        if meta < 0 || meta as u64 != data.end {
            return Err(format!("metadata offset {} but data section ends at {}", meta, data.end));
        }
        shape("chunk groups", data.groups.len());
        shape("log2 of Bloom filter bits", usize::BITS as usize - (bloom.size as usize).leading_zeros() as usize);
        shape("hash functions of the Bloom filter", bloom.hashes as usize);
        Ok(File { b, hole, meta: meta as u64, footer: start as u64 + hole, root, bloom, data, depth: 0 })
    }

    /// reader over the metadata section between two file offsets
    fn sect(&self, from: i64, to: i64) -> Res<Rd<'a>> {
        if from < self.meta as i64 + 1 || to > self.footer as i64 || from > to {
            return Err(format!("index range {}..{} outside the metadata section {}..{}", from, to, self.meta + 1, self.footer));
        }
        let mut r = Rd::new(&self.b[..(to as u64 - self.hole) as usize]);
        r.p = (from as u64 - self.hole) as usize;
        Ok(r)
    }

    fn series(&self, r: &mut Rd, dev: &str) -> Res<Series> {
        let off = r.p as u64 + self.hole;
        let kind = r.u8()?;
        let meas = r.str()?;
        let dt = r.u8()?;
        let n = r.var()? as usize;
        let st = stats(r, dt)?;
        let list = r.take(n)?;
        let mut l = Rd::new(list);
        let mut chunks = vec![];
        while l.left() > 0 {
            let o = l.i64()?;
            let s = if kind & 1 == 1 { Some(stats(&mut l, dt)?) } else { None };
            chunks.push((o, s));
        }
        shape("chunks of a series", chunks.len());
        if chunks.is_empty() {
            return Err(format!("{}.{}: no chunks", dev, meas));
        }
        if (kind & 1 == 1) != (chunks.len() > 1) || kind > 1 {
            return Err(format!("{}.{}: type byte {} with {} chunks", dev, meas, kind, chunks.len()));
        }
        Ok(Series { dev: dev.into(), meas, kind, dt, off, stats: st, chunks })
    }

    fn child_end(n: &Node, i: usize) -> i64 {
        if i + 1 < n.entries.len() {
            n.entries[i + 1].1
        } else {
            n.end
        }
    }

    /// ordered search: the entry that can contain `key`
    fn locate(n: &Node, key: &str) -> Option<usize> {
        // number of entries <= key, found by bisection as a reader does
        let (mut lo, mut hi) = (0usize, n.entries.len());
        while lo < hi {
            let m = (lo + hi) / 2;
            if n.entries[m].0.as_str() <= key {
                lo = m + 1;
            } else {
                hi = m;
            }
        }
        lo.checked_sub(1)
    }

    /// what a reader finds for one series by descending the index
    pub fn find(&self, dev: &str, meas: &str) -> Res<Option<Series>> {
        let mut n = self.root.clone();
        let mut depth = 0;
        loop {
            depth += 1;
            if depth > 40 {
                return Err("index too deep".into());
            }
            let i = match Self::locate(&n, if n.kind <= LEAF_DEVICE { dev } else { meas }) {
                None => return Ok(None),
                Some(i) => i,
            };
            if n.kind == LEAF_DEVICE && n.entries[i].0 != dev {
                return Ok(None);
            }
            let mut r = self.sect(n.entries[i].1, Self::child_end(&n, i))?;
            if n.kind == LEAF_MEASUREMENT {
                while r.left() > 0 {
                    let s = self.series(&mut r, dev)?;
                    if s.meas == meas {
                        return Ok(Some(s));
                    }
                }
                return Ok(None);
            }
            n = node(&mut r)?;
        }
    }

    /// every series, by walking the whole tree and checking its shape
    pub fn all(&self, degree: usize) -> Res<Vec<Series>> {
        let mut out = vec![];
        if self.root.entries.is_empty() {
            return Ok(out);
        }
        if self.root.kind > LEAF_DEVICE {
            return Err(format!("root of the index has type {}", self.root.kind));
        }
        self.walk(&self.root, None, degree, &mut out, 0)?;
        for w in out.windows(2) {
            if (&w[0].dev, &w[0].meas) >= (&w[1].dev, &w[1].meas) {
                return Err(format!("index order: {}.{} before {}.{}", w[0].dev, w[0].meas, w[1].dev, w[1].meas));
            }
        }
        Ok(out)
    }

    fn walk(&self, n: &Node, dev: Option<&str>, degree: usize, out: &mut Vec<Series>, depth: u32) -> Res<()> {
        if depth > 40 {
            return Err("index too deep".into());
        }
        if n.entries.is_empty() {
            return Err("empty index node".into());
        }
        shape("depth of the index", depth as usize);
        shape(["entries of an inner device node", "entries of a device leaf", "entries of an inner series node", "entries of a series leaf"][n.kind as usize & 3], n.entries.len());
        if n.entries.len() > degree {
            return Err(format!("index node with {} entries, fan-out is {}", n.entries.len(), degree));
        }
        for w in n.entries.windows(2) {
            if w[0].0 >= w[1].0 {
                return Err(format!("index entries not sorted: {:?} before {:?}", w[0].0, w[1].0));
            }
        }
        for (i, (name, off)) in n.entries.iter().enumerate() {
            let end = Self::child_end(n, i);
            let mut r = self.sect(*off, end)?;
            if n.kind == LEAF_MEASUREMENT {
                let dev = dev.ok_or("measurement leaf without device")?;
                let mut k = 0;
                while r.left() > 0 {
                    let s = self.series(&mut r, dev)?;
                    if k == 0 && s.meas != *name {
                        return Err(format!("index entry {:?} points to series {:?}", name, s.meas));
                    }
                    out.push(s);
                    k += 1;
                }
                if k == 0 || k > degree {
                    return Err(format!("index entry {:?} covers {} series", name, k));
                }
                continue;
            }
            let c = node(&mut r)?;
            let ok = match n.kind {
                INTERNAL_DEVICE => c.kind <= LEAF_DEVICE,
                LEAF_DEVICE => c.kind == INTERNAL_MEASUREMENT || c.kind == LEAF_MEASUREMENT,
                INTERNAL_MEASUREMENT => c.kind == INTERNAL_MEASUREMENT || c.kind == LEAF_MEASUREMENT,
                _ => false,
            };
            if !ok {
                return Err(format!("index node of type {} below type {}", c.kind, n.kind));
            }
            if n.kind != LEAF_DEVICE && c.entries.first().map(|e| &e.0) != Some(name) {
                return Err(format!("index entry {:?} points to a node starting at {:?}", name, c.entries.first()));
            }
            let d = if n.kind == LEAF_DEVICE { Some(name.as_str()) } else { dev };
            self.walk(&c, d, degree, out, depth + 1)?;
        }
        Ok(())
    }

    /// the chunk whose header is at a file offset
    pub fn chunk_at(&self, off: i64) -> Option<&Chunk> {
        self.data.chunks.binary_search_by(|c| c.off.cmp(&(off as u64))).ok().map(|i| &self.data.chunks[i])
    }

    pub fn bloom_has(&self, path: &str) -> Res<bool> {
        let b = &self.bloom;
        if b.size == 0 || b.size > i32::MAX as u32 || b.hashes == 0 || b.hashes > 8 {
            return Err(format!("Bloom filter of {} bits with {} hash functions", b.size, b.hashes));
        }
        const SEEDS: [u64; 8] = [5, 7, 11, 19, 31, 37, 43, 59];
        for s in &SEEDS[..b.hashes as usize] {
            let h = murmur(path.as_bytes(), *s) as i32;
            let bit = (h.unsigned_abs() as u64 % b.size as u64) as usize;
            if b.bits.get(bit / 8).map_or(true, |x| x & (1 << (bit % 8)) == 0) {
                return Ok(false);
            }
        }
        Ok(true)
    }
}

/// MurmurHash3 x64 128, both halves added, as IoTDB's Murmur128Hash does for ASCII keys
pub fn murmur(key: &[u8], seed: u64) -> u64 {
    const C1: u64 = 0x87c3_7b91_1142_53d5;
    const C2: u64 = 0x4cf5_ad43_2745_937f;
    fn fmix(mut k: u64) -> u64 {
        k ^= k >> 33;
        k = k.wrapping_mul(0xff51_afd7_ed55_8ccd);
        k ^= k >> 33;
        k = k.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        k ^ (k >> 33)
    }
    let (mut h1, mut h2) = (seed, seed);
    let mut it = key.chunks_exact(16);
    for c in &mut it {
        let k1 = u64::from_le_bytes(c[..8].try_into().unwrap());
        let k2 = u64::from_le_bytes(c[8..].try_into().unwrap());
        h1 ^= k1.wrapping_mul(C1).rotate_left(31).wrapping_mul(C2);
        h1 = h1.rotate_left(27).wrapping_add(h2).wrapping_mul(5).wrapping_add(0x52dc_e729);
        h2 ^= k2.wrapping_mul(C2).rotate_left(33).wrapping_mul(C1);
        h2 = h2.rotate_left(31).wrapping_add(h1).wrapping_mul(5).wrapping_add(0x3849_5ab5);
    }
    let t = it.remainder();
    let (mut k1, mut k2) = (0u64, 0u64);
    for (i, b) in t.iter().enumerate() {
        if i < 8 {
            k1 |= (*b as u64) << (8 * i);
        } else {
            k2 |= (*b as u64) << (8 * (i - 8));
        }
    }
    if t.len() > 8 {
        h2 ^= k2.wrapping_mul(C2).rotate_left(33).wrapping_mul(C1);
    }
    if !t.is_empty() {
        h1 ^= k1.wrapping_mul(C1).rotate_left(31).wrapping_mul(C2);
    }
    h1 ^= key.len() as u64;
    h2 ^= key.len() as u64;
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1 = fmix(h1);
    h2 = fmix(h2);
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1.wrapping_add(h2)
}
