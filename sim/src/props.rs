//! The oracles: one function per property, each running simulated executions of the real code
//! and judging what they did. `Err` carries the violation.
use crate::case::*;
use crate::exec::*;
use crate::plan::*;
use crate::rng::{mix, Rng, Sig};
use crate::scenario::*;
use crate::tsfile::{self, File, Pt, Stats, Stop, Val};
use crate::world::World;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type V = Result<(), String>;

pub fn check(case: &Case, m: &mut Meter) -> V {
    m.cases += 1;
    match case.prop.as_str() {
        "C01" => c01(case, m),
        "C02" => c02(case, m),
        "C03" => c03(case, m),
        "C04" => c04(case, m),
        "C05" => c05(case, m),
        "C06" => c06(case, m),
        "C07" => c07(case, m),
        "C08" => c08(case, m),
        "C09" => c09(case, m),
        "C10" => c10(case, m),
        "C11" => c11(case, m),
        "C12" => crate::capi::c12(case, m),
        "C17" => crate::leak::c17(case, m),
        "C13" | "C14" | "C15" | "C16" | "C18" => crate::sync::check(case, m),
        p => panic!("no property {}", p),
    }
}

// ---- running ----------------------------------------------------------------------------

pub struct Run {
    pub out: WOut,
    pub world: World,
    pub bytes: Vec<u8>,
    pub sig: u64,
}

/// account for one finished world
pub fn note(m: &mut Meter, w: &World, extra: u64) -> u64 {
    m.runs += 1;
    m.sys += w.calls;
    m.sim_ns += w.elapsed;
    if w.env.log {
        m.probe("runs with a logger that takes every message");
    }
    for (k, v) in &w.fired {
        *m.fired.entry(k.to_string()).or_default() += v;
    }
    let mut s = w.log_hash;
    s.add(extra);
    m.log = m.log.wrapping_add(s.0);
    m.sigs.insert(s.0);
    s.0
}

pub const HANG: &str = "does not terminate (millions of storage or network calls, or threads waiting for each other)";

pub fn out_hash(o: &WOut) -> u64 {
    let mut s = Sig::new();
    s.add(o.open as u64);
    s.bytes(&o.calls);
    s.0
}

pub fn run_in(world: World, spec: &Arc<WriterSpec>, sample: Sample, m: &mut Meter) -> Result<Run, String> {
    let sp = spec.clone();
    let e = execute(world, None, vec![Box::new(move || run_writer(&sp, sample))]).ok_or(HANG)?;
    let out = e.outs.into_iter().next().unwrap();
    let sig = note(m, &e.world, out_hash(&out));
    m.calls += out.calls.len() as u64;
    let bytes = e.world.file(&spec.path).cloned().unwrap_or_default();
    m.bytes += bytes.len() as u64;
    if !e.world.fired.is_empty() {
        m.nontrivial.insert(sig);
    }
    Ok(Run { out, world: e.world, bytes, sig })
}

pub fn run_spec(spec: &Arc<WriterSpec>, env: &Env, sample: Sample, m: &mut Meter) -> Result<Run, String> {
    run_in(World::new(env), spec, sample, m)
}

/// What the code did, put against the reference
pub struct Actual {
    pub acc: Vec<Vec<Vec<Pt>>>,
    /// points of calls that failed for a reason the reference does not know (I/O)
    pub maybe: Vec<Vec<Vec<Pt>>>,
    /// first result the reference does not allow
    pub deviation: Option<String>,
    /// (call index, result) of every close
    pub closes: Vec<(usize, u8)>,
    pub closed_ok: bool,
    /// writes accepted after a successful close
    pub late: Option<String>,
    pub any_err: bool,
    pub points: u64,
    pub refused: u64,
    /// accepted points after each call (when wanted)
    pub cum: Vec<u64>,
}

pub fn describe(c: &Call, spec: &WriterSpec) -> String {
    let dn = |d: u16| spec.devices.get(d as usize).map_or_else(|| odd_device(&spec.devices, d), |x| x.n.clone());
    let sn = |d: u16, s: u16| {
        let x = spec.devices.get(d as usize).and_then(|x| x.s.get(s as usize));
        x.map_or_else(|| odd_series(&spec.devices, d, s), |x| x.n.clone())
    };
    match c {
        Call::W(d, s, t, v) => format!("write({:?}, {:?}, {}, {:?})", dn(*d), sn(*d, *s), t, v),
        Call::M(d, t, i) => {
            let mut l: Vec<String> = i.iter().take(6).map(|(s, v)| format!("{:?}={:?}", sn(*d, *s), v)).collect();
            if i.len() > 6 {
                l.push(format!("... {} values", i.len()));
            }
            format!("write_many({:?}, {}, [{}])", dn(*d), t, l.join(", "))
        }
        Call::Close => "close()".into(),
    }
}

pub fn actual(spec: &WriterSpec, out: &WOut, cum: bool) -> Actual {
    let mut md = Model::new(spec);
    let mut a = Actual {
        acc: vec![],
        maybe: spec.devices.iter().map(|d| d.s.iter().map(|_| vec![]).collect()).collect(),
        deviation: None,
        closes: vec![],
        closed_ok: false,
        late: None,
        any_err: out.open != OK,
        points: 0,
        refused: 0,
        cum: vec![],
    };
    let mut i = 0;
    let mut loose = false;
    for_each_call(spec, |c| {
        if i >= out.calls.len() {
            return false;
        }
        let r = out.calls[i];
        let idx = i;
        i += 1;
        if let Call::Close = c {
            a.closes.push((idx, r));
            if r == OK {
                a.closed_ok = true;
            } else {
                a.any_err = true;
                loose = true;
            }
        } else {
            let x = md.verdict(&c);
            if a.closed_ok {
                if r == OK && a.late.is_none() {
                    a.late = Some(format!("call {}: {} returned Ok after close", idx, describe(&c, spec)));
                }
            } else if !loose {
                let fits = if x.errors == 0 { r == OK } else { r != OK && r < 16 && (x.errors >> r) & 1 == 1 };
                if !fits {
                    let want = if x.errors == 0 {
                        "must be accepted".to_string()
                    } else {
                        let names: Vec<&str> = (1..16).filter(|k| (x.errors >> k) & 1 == 1).map(|k| code_name(k as u8)).collect();
                        format!("must be refused with {} ({})", names.join(" or "), x.why)
                    };
                    a.deviation = Some(format!("call {}: {} {}, but returned {}", idx, describe(&c, spec), want, code_name(r)));
                    loose = true;
                }
            }
            if r != OK {
                if x.errors == 0 && !a.closed_ok {
                    a.any_err = true;
                }
                a.refused += 1;
            }
            let strict = !loose && !a.closed_ok;
            if strict || (r != OK && x.errors != 0 && r < 16 && (x.errors >> r) & 1 == 1 && !a.closed_ok && a.deviation.is_none()) {
                md.apply(&c);
            } else {
                // take the code's word
                let known = |d: u16, s: u16| spec.devices.get(d as usize).map_or(false, |x| (s as usize) < x.s.len());
                match &c {
                    Call::W(d, s, t, v) => {
                        if r == OK && known(*d, *s) {
                            md.put(*d, *s, *t, *v);
                        } else if known(*d, *s) && !a.closed_ok {
                            a.maybe[*d as usize][*s as usize].push((*t, *v));
                        }
                    }
                    Call::M(d, t, items) => {
                        for (s, v) in items.iter() {
                            if r == OK && known(*d, *s) {
                                md.put(*d, *s, *t, *v);
                            } else if known(*d, *s) && !a.closed_ok {
                                a.maybe[*d as usize][*s as usize].push((*t, *v));
                            }
                        }
                    }
                    Call::Close => {}
                }
            }
        }
        if cum {
            a.cum.push(md.count);
        }
        true
    });
    a.points = md.count;
    a.acc = md.acc;
    a
}

pub fn panicked(out: &WOut) -> V {
    match &out.panic {
        Some(p) => Err(format!("panic in {}: {}", if out.open == PANIC { "the constructor".to_string() } else { format!("call {}", out.calls.len().saturating_sub(1)) }, p)),
        None => Ok(()),
    }
}

/// panic, constructor and close of a history without faults
pub fn healthy(r: &Run, a: &Actual) -> V {
    panicked(&r.out)?;
    if r.out.open != OK {
        return Err(format!("constructor failed without a fault: {}", r.out.err.clone().unwrap_or_default()));
    }
    if let Some((i, c)) = a.closes.first() {
        if *c != OK {
            return Err(format!("close (call {}) failed without a fault: {}", i, r.out.err.clone().unwrap_or_default()));
        }
    }
    Ok(())
}

// ---- contents ---------------------------------------------------------------------------

pub struct Got {
    pub dt: u8,
    pub enc: Vec<u8>,
    pub comp: Vec<u8>,
    pub pts: Vec<Pt>,
}

pub fn content(f: &File, degree: usize) -> Result<BTreeMap<(String, String), Got>, String> {
    let mut out = BTreeMap::new();
    for s in f.all(degree)? {
        let mut g = Got { dt: s.dt, enc: vec![], comp: vec![], pts: vec![] };
        for (off, _) in &s.chunks {
            let c = f.chunk_at(*off).ok_or_else(|| format!("{}.{}: no chunk header at offset {}", s.dev, s.meas, off))?;
            if c.meas != s.meas || c.dev != s.dev {
                return Err(format!("{}.{}: offset {} holds a chunk of {}.{}", s.dev, s.meas, off, c.dev, c.meas));
            }
            if c.dt != s.dt {
                return Err(format!("{}.{}: index says type {}, chunk says {}", s.dev, s.meas, s.dt, c.dt));
            }
            g.enc.push(c.enc);
            g.comp.push(c.comp);
            g.pts.extend(c.iter().copied());
        }
        out.insert((s.dev, s.meas), g);
    }
    Ok(out)
}

pub fn diff(want: &[Pt], got: &[Pt]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(a), Some(b)) if a == b => {}
            (Some(a), Some(b)) => return Some(format!("point {} is {:?} instead of {:?}", i, b, a)),
            (Some(a), None) => return Some(format!("{} of {} points missing, first missing {:?}", want.len() - i, want.len(), a)),
            (None, Some(b)) => return Some(format!("{} points too many, first {:?}", got.len() - i, b)),
            (None, None) => {}
        }
    }
    None
}

/// the closed file holds exactly the accepted points
pub fn same_content(spec: &WriterSpec, acc: &[Vec<Vec<Pt>>], f: &File) -> V {
    let mut got = content(f, spec.fanout())?;
    for (d, dev) in spec.devices.iter().enumerate() {
        for (s, ser) in dev.s.iter().enumerate() {
            let want = &acc[d][s];
            let g = got.remove(&(dev.n.clone(), ser.n.clone()));
            match (want.is_empty(), g) {
                (true, None) => {}
                (true, Some(g)) => return Err(format!("{}.{}: nothing was accepted but the file holds {:?}", dev.n, ser.n, g.pts.first())),
                (false, None) => return Err(format!("{}.{}: all {} accepted points are missing", dev.n, ser.n, want.len())),
                (false, Some(g)) => {
                    if let Some(e) = diff(want, &g.pts) {
                        return Err(format!("{}.{}: {}", dev.n, ser.n, e));
                    }
                    if g.dt != ser.t {
                        return Err(format!("{}.{}: data type {} instead of {}", dev.n, ser.n, g.dt, ser.t));
                    }
                    if let Some(e) = g.enc.iter().find(|e| **e != ser.e) {
                        return Err(format!("{}.{}: encoding {} instead of {}", dev.n, ser.n, e, ser.e));
                    }
                    if let Some(c) = g.comp.iter().find(|c| **c != ser.c) {
                        return Err(format!("{}.{}: compression {} instead of {}", dev.n, ser.n, c, ser.c));
                    }
                }
            }
        }
    }
    if let Some(((d, s), _)) = got.into_iter().next() {
        return Err(format!("the file holds a series {}.{} that is not in the schema", d, s));
    }
    Ok(())
}

pub fn open_closed<'a>(spec: &WriterSpec, b: &'a [u8]) -> Result<File<'a>, String> {
    File::open(b, spec.hole()).map_err(|e| format!("the closed file cannot be read: {}", e))
}

fn layout_probes(f: &File, m: &mut Meter, sig: u64) {
    let ch = &f.data.chunks;
    if f.data.groups.len() > 1 {
        m.probe("files with several chunk groups");
    }
    let multi = ch.iter().filter(|c| c.pages.len() > 1).count();
    if multi > 0 {
        m.probe("files with multi-page chunks");
        m.add("multi-page chunks", multi as u64);
    }
    m.add("chunks read back", ch.len() as u64);
    m.add("pages read back", ch.iter().map(|c| c.pages.len() as u64).sum());
    let mut by: BTreeMap<(&str, &str), u32> = BTreeMap::new();
    for c in ch {
        *by.entry((&c.dev, &c.meas)).or_default() += 1;
    }
    if by.values().any(|v| *v > 1) {
        m.probe("files with a series in several chunks");
    }
    if ch.iter().any(|c| c.comp == 1) {
        m.probe("files with compressed chunks");
    }
    if !ch.is_empty() {
        m.nontrivial.insert(sig);
    }
}

// ---- C01 --------------------------------------------------------------------------------

fn c01(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let r = run_spec(&spec, &case.env, Sample::No, m)?;
    let a = actual(&spec, &r.out, false);
    m.points += a.points;
    healthy(&r, &a)?;
    if !a.closed_ok {
        return Ok(());
    }
    let f = open_closed(&spec, &r.bytes)?;
    same_content(&spec, &a.acc, &f)?;
    layout_probes(&f, m, r.sig);
    m.checks += 1;
    Ok(())
}

// ---- C02 --------------------------------------------------------------------------------

fn c02(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let r = run_spec(&spec, &case.env, Sample::No, m)?;
    let a = actual(&spec, &r.out, false);
    m.points += a.points;
    m.add("refused calls", a.refused);
    if let Some(d) = &a.deviation {
        let mut d = d.clone();
        if let Some(p) = &r.out.panic {
            d.push_str(&format!(" ({})", p));
        }
        return Err(d);
    }
    healthy(&r, &a)?;
    if !a.closed_ok {
        return Ok(());
    }
    let f = open_closed(&spec, &r.bytes)?;
    same_content(&spec, &a.acc, &f).map_err(|e| format!("accepted points and file differ: {}", e))?;
    layout_probes(&f, m, r.sig);
    // the same history without the refused calls
    let mut md = Model::new(&spec);
    md.keep_points = false;
    let mut partial = false;
    let mut removed = 0;
    let mut ops = vec![];
    let mut closed = false;
    for op in &spec.ops {
        match op {
            Op::W(..) | Op::M(..) => {
                for_each_in(&spec.devices, std::slice::from_ref(op), |c| {
                    let x = md.apply(&c);
                    if x.errors == 0 {
                        ops.push(op.clone());
                    } else {
                        removed += 1;
                        if !x.accepted.is_empty() {
                            partial = true;
                            if let Call::M(d, t, _) = c {
                                ops.push(Op::M(d, t, x.accepted.clone()));
                            }
                        }
                    }
                    true
                });
            }
            Op::Close => {
                closed = true;
                ops.push(op.clone());
            }
            _ => {
                let mut bad = false;
                for_each_in(&spec.devices, std::slice::from_ref(op), |c| {
                    bad |= md.apply(&c).errors != 0;
                    true
                });
                if bad {
                    return Ok(()); // bursts are generated valid; a minimised one may not be
                }
                ops.push(op.clone());
            }
        }
        if closed {
            break;
        }
    }
    m.checks += 1;
    if removed == 0 {
        return Ok(());
    }
    m.probe("histories with refused calls");
    if partial {
        m.probe("histories with a partly accepted row");
    }
    let twin = Arc::new(WriterSpec { ops, ..(*spec).clone() });
    let r2 = run_spec(&twin, &case.env, Sample::No, m)?;
    let a2 = actual(&twin, &r2.out, false);
    healthy(&r2, &a2)?;
    if let Some(d) = a2.deviation {
        return Err(format!("without the refused calls: {}", d));
    }
    if r.bytes != r2.bytes {
        return Err(format!(
            "{} refused calls changed the file: {} bytes instead of {}, first difference at {}",
            removed,
            r.bytes.len(),
            r2.bytes.len(),
            first_diff(&r.bytes, &r2.bytes)
        ));
    }
    Ok(())
}

pub fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

// ---- C03 --------------------------------------------------------------------------------

pub fn structure(spec: &WriterSpec, acc: &[Vec<Vec<Pt>>], f: &File, m: &mut Meter) -> V {
    let degree = spec.fanout();
    let all = f.all(degree)?;
    let mut want: Vec<(&str, &str, u8)> = vec![];
    for (d, dev) in spec.devices.iter().enumerate() {
        for (s, ser) in dev.s.iter().enumerate() {
            if !acc[d][s].is_empty() {
                want.push((&dev.n, &ser.n, ser.t));
            }
        }
    }
    want.sort();
    let have: Vec<(&str, &str, u8)> = all.iter().map(|s| (s.dev.as_str(), s.meas.as_str(), s.dt)).collect();
    if want != have {
        let miss = want.iter().find(|w| !have.contains(w));
        let more = have.iter().find(|h| !want.contains(h));
        return Err(format!("the index lists {} series instead of {}; missing {:?}, unexpected {:?}", have.len(), want.len(), miss, more));
    }
    // index and data section describe the same chunks
    let mut seen = 0;
    for s in &all {
        let mut last = 0;
        let mut direct = f.data.chunks.iter().filter(|c| c.dev == s.dev && c.meas == s.meas);
        for (off, _) in &s.chunks {
            let c = f.chunk_at(*off).ok_or_else(|| format!("{}.{}: no chunk header at offset {}", s.dev, s.meas, off))?;
            if (c.dev.as_str(), c.meas.as_str(), c.dt) != (s.dev.as_str(), s.meas.as_str(), s.dt) {
                return Err(format!("{}.{}: offset {} holds a chunk of {}.{} type {}", s.dev, s.meas, off, c.dev, c.meas, c.dt));
            }
            if c.off < last {
                return Err(format!("{}.{}: chunk offsets are not increasing", s.dev, s.meas));
            }
            last = c.off;
            match direct.next() {
                Some(x) if x.off == c.off => {}
                o => return Err(format!("{}.{}: index chunk at {} but the data section has {:?}", s.dev, s.meas, off, o.map(|x| x.off))),
            }
            seen += 1;
        }
        if let Some(x) = direct.next() {
            return Err(format!("{}.{}: the chunk at {} is not in the index", s.dev, s.meas, x.off));
        }
    }
    if seen != f.data.chunks.len() {
        return Err(format!("{} chunks in the data section, {} in the index", f.data.chunks.len(), seen));
    }
    for c in &f.data.chunks {
        if c.points() == 0 {
            return Err(format!("chunk without points at {}", c.off));
        }
        if c.multi != (c.pages.len() > 1) {
            return Err(format!("chunk at {} has {} pages but says {}", c.off, c.pages.len(), if c.multi { "several" } else { "one" }));
        }
    }
    // ordered search finds every series, and nothing else
    let stride = (want.len() / 400).max(1);
    for (i, (d, s, _)) in want.iter().enumerate() {
        if i % stride != 0 && i + 1 != want.len() {
            continue;
        }
        match f.find(d, s)? {
            None => return Err(format!("ordered search does not find {}.{}", d, s)),
            Some(x) => {
                let y = &all[i];
                if x.off != y.off {
                    return Err(format!("ordered search for {}.{} lands at {} instead of {}", d, s, x.off, y.off));
                }
            }
        }
        m.add("index lookups", 1);
    }
    let known = |d: &str, s: &str| want.iter().any(|w| w.0 == d && w.1 == s);
    let mut probe = |d: &str, s: &str| -> V {
        if !known(d, s) {
            if let Some(x) = f.find(d, s)? {
                return Err(format!("search for {}.{}, which was never written, finds {}.{}", d, s, x.dev, x.meas));
            }
        }
        Ok(())
    };
    for dev in spec.devices.iter().take(30) {
        for ser in dev.s.iter().take(8) {
            for n in [format!("{}0", ser.n), format!("{}.", ser.n), ser.n[..ser.n.len() - ser.n.chars().last().map_or(0, |c| c.len_utf8())].to_string(), ser.n.clone()] {
                probe(&dev.n, &n)?;
            }
            probe(&format!("{}0", dev.n), &ser.n)?;
            probe(&format!("{}.{}", dev.n, ser.n), "")?;
        }
    }
    probe("", "")?;
    probe("\u{ffff}", "s0")?;
    // Bloom filter
    for (d, s, _) in &want {
        let p = format!("{}.{}", d, s);
        if p.is_ascii() {
            if !f.bloom_has(&p)? {
                return Err(format!("the Bloom filter denies the written series {}", p));
            }
            m.add("Bloom lookups", 1);
        }
    }
    // The filter is built for 5 % of wrong answers; about the double is taken for certain here
    if want.iter().all(|w| w.0.is_ascii() && w.1.is_ascii()) {
        let mut hits = 0;
        for i in 0..300 {
            hits += f.bloom_has(&format!("#no#{}.such#{}", i, i * 7))? as u64;
        }
        let w = m.probes.entry("most Bloom hits of 300 absent names (max over workers summed)".into()).or_default();
        *w = (*w).max(hits);
        if hits > 60 {
            return Err(format!("the Bloom filter reports {} of 300 absent names as present", hits));
        }
    }
    if f.bloom.bits.len() > (f.bloom.size as usize + 7) / 8 {
        return Err(format!("Bloom filter of {} bits stored in {} bytes", f.bloom.size, f.bloom.bits.len()));
    }
    if f.root.kind == tsfile::INTERNAL_DEVICE {
        m.probe("files with a multi-level device index");
    }
    if want.len() > 40 {
        m.probe("files with a large Bloom filter");
    }
    Ok(())
}

fn c03(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let r = run_spec(&spec, &case.env, Sample::No, m)?;
    let a = actual(&spec, &r.out, false);
    m.points += a.points;
    healthy(&r, &a)?;
    if !a.closed_ok {
        return Ok(());
    }
    let f = open_closed(&spec, &r.bytes)?;
    structure(&spec, &a.acc, &f, m)?;
    if spec.hole() > u32::MAX as u64 {
        m.probe("files with offsets beyond 4 GiB");
    }
    layout_probes(&f, m, r.sig);
    m.checks += 1;
    Ok(())
}

// ---- C04 --------------------------------------------------------------------------------

fn num(v: &Val) -> f64 {
    match v {
        Val::I(x) => *x as f64,
        Val::L(x) => *x as f64,
        Val::F(x) => f32::from_bits(*x) as f64,
        Val::D(x) => f64::from_bits(*x),
    }
}

pub fn stats_match(st: &Stats, pts: &[&Pt], what: &str) -> V {
    let n = pts.len();
    let fail = |f: &str, want: String, got: String| Err(format!("{}: {} is {} instead of {} ({} points)", what, f, got, want, n));
    if st.count as usize != n {
        return fail("count", n.to_string(), st.count.to_string());
    }
    if n == 0 {
        return Ok(());
    }
    let (a, b) = (pts[0], pts[n - 1]);
    let t0 = pts.iter().map(|p| p.0).min().unwrap();
    let t1 = pts.iter().map(|p| p.0).max().unwrap();
    if st.t0 != t0 {
        return fail("first timestamp", t0.to_string(), st.t0.to_string());
    }
    if st.t1 != t1 {
        return fail("last timestamp", t1.to_string(), st.t1.to_string());
    }
    if st.first != a.1 {
        return fail("first value", format!("{:?}", a.1), format!("{:?}", st.first));
    }
    if st.last != b.1 {
        return fail("last value", format!("{:?}", b.1), format!("{:?}", st.last));
    }
    match a.1 {
        Val::I(_) => {
            let v: Vec<i32> = pts.iter().map(|p| if let Val::I(x) = p.1 { x } else { 0 }).collect();
            let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
            if st.min != Val::I(lo) {
                return fail("minimum", lo.to_string(), format!("{:?}", st.min));
            }
            if st.max != Val::I(hi) {
                return fail("maximum", hi.to_string(), format!("{:?}", st.max));
            }
            let sum: i64 = v.iter().map(|x| *x as i64).sum();
            if st.sum as i64 != sum {
                return fail("sum", sum.to_string(), (st.sum as i64).to_string());
            }
        }
        Val::L(_) => {
            let v: Vec<i64> = pts.iter().map(|p| if let Val::L(x) = p.1 { x } else { 0 }).collect();
            let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
            if st.min != Val::L(lo) {
                return fail("minimum", lo.to_string(), format!("{:?}", st.min));
            }
            if st.max != Val::L(hi) {
                return fail("maximum", hi.to_string(), format!("{:?}", st.max));
            }
        }
        _ => {
            let v: Vec<f32> = pts.iter().map(|p| num(&p.1) as f32).filter(|x| !x.is_nan()).collect();
            if !v.is_empty() {
                let lo = v.iter().copied().fold(f32::INFINITY, f32::min);
                let hi = v.iter().copied().fold(f32::NEG_INFINITY, f32::max);
                if num(&st.min) != lo as f64 {
                    return fail("minimum", lo.to_string(), num(&st.min).to_string());
                }
                if num(&st.max) != hi as f64 {
                    return fail("maximum", hi.to_string(), num(&st.max).to_string());
                }
            }
        }
    }
    if !matches!(a.1, Val::I(_)) {
        let got = f64::from_bits(st.sum);
        let (mut sum, mut comp, mut abs) = (0f64, 0f64, 0f64);
        let (mut pinf, mut ninf, mut nan) = (false, false, false);
        for p in pts {
            let x = num(&p.1);
            if x.is_nan() {
                nan = true;
            } else if x == f64::INFINITY {
                pinf = true;
            } else if x == f64::NEG_INFINITY {
                ninf = true;
            } else {
                let y = x - comp;
                let t = sum + y;
                comp = (t - sum) - y;
                sum = t;
                abs += x.abs();
            }
        }
        let ok = if nan || (pinf && ninf) {
            got.is_nan()
        } else if pinf {
            got == f64::INFINITY
        } else if ninf {
            got == f64::NEG_INFINITY
        } else {
            (got - sum).abs() <= abs * (n as f64 + 4.0) * 4.5e-16
        };
        if !ok {
            return fail("sum", sum.to_string(), got.to_string());
        }
    }
    Ok(())
}

pub fn statistics(f: &File, degree: usize, m: &mut Meter) -> V {
    for s in f.all(degree)? {
        let mut all: Vec<&Pt> = vec![];
        for (off, st) in &s.chunks {
            let c = f.chunk_at(*off).ok_or_else(|| format!("{}.{}: no chunk header at offset {}", s.dev, s.meas, off))?;
            let mut here: Vec<&Pt> = vec![];
            for (i, p) in c.pages.iter().enumerate() {
                let pts: Vec<&Pt> = p.pts.iter().collect();
                if let Some(st) = &p.stats {
                    stats_match(st, &pts, &format!("{}.{} chunk at {} page {}", s.dev, s.meas, off, i))?;
                    m.add("page statistics checked", 1);
                }
                here.extend(pts);
            }
            if let Some(st) = st {
                stats_match(st, &here, &format!("{}.{} chunk at {}", s.dev, s.meas, off))?;
                m.add("chunk statistics checked", 1);
            }
            all.extend(here);
        }
        stats_match(&s.stats, &all, &format!("{}.{} series", s.dev, s.meas))?;
        m.add("series statistics checked", 1);
    }
    Ok(())
}

fn c04(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let r = run_spec(&spec, &case.env, Sample::No, m)?;
    let a = actual(&spec, &r.out, false);
    m.points += a.points;
    healthy(&r, &a)?;
    if !a.closed_ok {
        return Ok(());
    }
    let f = open_closed(&spec, &r.bytes)?;
    statistics(&f, spec.fanout(), m)?;
    layout_probes(&f, m, r.sig);
    m.checks += 1;
    Ok(())
}

// ---- C05 --------------------------------------------------------------------------------

/// accepted points are all there, and nothing that no call passed in
fn bounded_content(spec: &WriterSpec, a: &Actual, f: &File) -> V {
    let got = content(f, spec.fanout())?;
    for (d, dev) in spec.devices.iter().enumerate() {
        for (s, ser) in dev.s.iter().enumerate() {
            let none = vec![];
            let g = got.get(&(dev.n.clone(), ser.n.clone())).map_or(&none, |g| &g.pts);
            let acc = &a.acc[d][s];
            let mut k = 0;
            let maybe: std::collections::HashSet<&Pt> = a.maybe[d][s].iter().collect();
            let mut last = i64::MIN;
            for (i, p) in g.iter().enumerate() {
                if i > 0 && p.0 <= last {
                    return Err(format!("{}.{}: timestamps not increasing at {}", dev.n, ser.n, p.0));
                }
                last = p.0;
                if k < acc.len() && acc[k] == *p {
                    k += 1;
                } else if !maybe.contains(p) {
                    return Err(format!("{}.{}: the file holds {:?}, accepted next was {:?}", dev.n, ser.n, p, acc.get(k)));
                }
            }
            if k < acc.len() {
                return Err(format!("{}.{}: {} of {} accepted points are missing, first {:?}", dev.n, ser.n, acc.len() - k, acc.len(), acc[k]));
            }
        }
    }
    Ok(())
}

fn c05(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let r = run_spec(&spec, &case.env, Sample::No, m)?;
    let a = actual(&spec, &r.out, false);
    m.points += a.points;
    let path = r.world.abs(&spec.path);
    let mut hard = None;
    for (_, op, node) in &r.world.hard {
        let ours = r.world.first_name.get(*node).map_or(false, |n| *n == path);
        if *op == OpK::Write && ours || *op == OpK::Open {
            hard = Some(*op);
        }
    }
    let any_fault = !r.world.hard.is_empty();
    panicked(&r.out).map_err(|e| if any_fault { format!("after an I/O failure: {}", e) } else { e })?;
    if hard.is_some() {
        m.probe("runs in which storage refused data");
        if !a.any_err && a.closes.is_empty() {
            // the history never closed the file: nothing had to be reported yet, except by
            // the call that met the failure
        }
        if !a.any_err {
            return Err(format!("storage refused data ({:?}) but every call returned Ok", hard.unwrap()));
        }
    }
    if !any_fault {
        if r.out.open != OK || a.any_err {
            return Err(format!("an error without any storage failure: {}", r.out.err.clone().unwrap_or_default()));
        }
    }
    let mut failed = false;
    for (i, c) in &a.closes {
        if *c == OK {
            if failed {
                return Err(format!("close (call {}) returned Ok after an earlier close had failed", i));
            }
            let f = open_closed(&spec, &r.bytes).map_err(|e| format!("close returned Ok, but {}", e))?;
            bounded_content(&spec, &a, &f).map_err(|e| format!("close returned Ok, but {}", e))?;
            if hard.is_some() {
                m.probe("closes that succeeded after a failure");
            } else {
                m.probe("closes that succeeded");
            }
        } else {
            failed = true;
            m.probe("closes that failed");
        }
    }
    m.checks += 1;
    Ok(())
}

// ---- C06 --------------------------------------------------------------------------------

fn c06(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let r = run_spec(&spec, &case.env, Sample::No, m)?;
    let a = actual(&spec, &r.out, false);
    m.points += a.points;
    healthy(&r, &a)?;
    positions(&spec, &r)?;
    for (k, v) in case.variants.iter().enumerate() {
        let (ops, extra) = with_refused(&spec, v.refused);
        let sp = Arc::new(WriterSpec {
            ops,
            order: v.order,
            path: v.path.clone(),
            sink: if v.raw { Sink::Raw(0) } else { Sink::File },
            ..(*spec).clone()
        });
        let mut r2 = run_spec(&sp, &v.env, Sample::No, m)?;
        panicked(&r2.out).map_err(|e| format!("variant {}: {}", k, e))?;
        for &i in extra.iter().rev() {
            if i < r2.out.calls.len() && r2.out.calls.remove(i) == OK {
                return Err(format!("variant {}: call {}, which makes no sense, is accepted", k, i));
            }
        }
        m.add("refused calls mixed in", extra.len() as u64);
        if r2.out.open != r.out.open || r2.out.calls != r.out.calls {
            let i = r.out.calls.iter().zip(&r2.out.calls).position(|(a, b)| a != b);
            return Err(format!("variant {}: results differ at call {:?}: {}", k, i, r2.out.err.clone().unwrap_or_default()));
        }
        if r2.bytes != r.bytes {
            return Err(format!(
                "variant {} gives a different file: {} bytes instead of {}, first difference at {}",
                k,
                r2.bytes.len(),
                r.bytes.len(),
                first_diff(&r.bytes, &r2.bytes)
            ));
        }
        m.nontrivial.insert(r2.sig);
        m.probe("pairs of runs compared byte for byte");
    }
    m.checks += 1;
    Ok(())
}

/// the same history with calls in between that have to be refused, and at which calls these are
fn with_refused(spec: &WriterSpec, seed: u64) -> (Vec<Op>, Vec<usize>) {
    if seed == 0 || spec.devices.is_empty() {
        return (spec.ops.clone(), vec![]);
    }
    let mut r = Rng::new(seed);
    let pct = *r.pick(&[3, 20, 60]);
    let most = *r.pick(&[1, 3, 3, 40]);
    let (mut ops, mut at, mut n) = (vec![], vec![], 0);
    for o in &spec.ops {
        if r.pct(pct) {
            for _ in 0..r.range(1, most) {
                let d = r.below(spec.devices.len() as u64) as u16;
                let dev = &spec.devices[d as usize];
                let s = r.below(dev.s.len().max(1) as u64) as u16;
                let odd = odd_index(&mut r, s as usize, false);
                let before = *r.pick(&[-1, -1, -2, i64::MIN]);
                let v = dev.s.get(s as usize).map_or(Val::I(1), |x| value(x.t, Vk::Small, 7, 0));
                ops.push(match r.below(6) {
                    0 => Op::W(odd, s, 5, v),
                    1 => Op::W(d, odd, 5, v),
                    2 => Op::M(odd, i64::MAX, vec![(s, v)]),
                    3 => Op::M(d, 5, vec![(odd, v)]),
                    4 if !dev.s.is_empty() => Op::M(d, before, vec![(s, v)]),
                    _ if dev.s.is_empty() => Op::W(d, odd, before, v),
                    _ => Op::W(d, s, before, v),
                });
                at.push(n);
                n += 1;
            }
        }
        n += match o {
            Op::B { n, .. } | Op::R { n, .. } => *n as usize,
            _ => 1,
        };
        ops.push(o.clone());
    }
    (ops, at)
}

/// recorded positions are positions in the bytes storage accepted
fn positions(spec: &WriterSpec, r: &Run) -> V {
    let n = match r.world.node_of(&spec.path) {
        Some(n) => n as u32,
        None => return Ok(()),
    };
    let total: i64 = r.world.log.iter().filter(|c| c.op == OpK::Write && c.node == n && c.ret > 0).map(|c| c.ret).sum();
    if r.world.log.len() < r.world.log_cap && total != r.bytes.len() as i64 {
        return Err(format!("storage accepted {} bytes, the file has {}", total, r.bytes.len()));
    }
    if r.out.calls.iter().any(|c| *c != OK) || !matches!(spec.ops.last(), Some(Op::Close)) {
        return Ok(());
    }
    let f = open_closed(spec, &r.bytes)?;
    content(&f, spec.fanout()).map(|_| ()).map_err(|e| format!("recorded positions do not match the bytes storage accepted: {}", e))
}

// ---- C07 --------------------------------------------------------------------------------

/// every chunk completely inside `len` bytes of `b` is recovered, as a prefix of the accepted points
fn recover(spec: &WriterSpec, full: &[Vec<Vec<Pt>>], b: &[u8]) -> Result<u64, String> {
    let s = tsfile::scan(b, spec.hole());
    if let Stop::Bad(e) = &s.stop {
        return Err(format!("scan of the {} surviving bytes: {}", b.len(), e));
    }
    let mut at: BTreeMap<(&str, &str), usize> = BTreeMap::new();
    let mut n = 0;
    for c in &s.chunks {
        let (d, k) = match spec
            .devices
            .iter()
            .enumerate()
            .find(|(_, d)| d.n == c.dev)
            .and_then(|(i, d)| d.s.iter().position(|s| s.n == c.meas).map(|k| (i, k)))
        {
            Some(x) => x,
            None => return Err(format!("recovered a chunk of the unknown series {}.{}", c.dev, c.meas)),
        };
        let p = at.entry((&c.dev, &c.meas)).or_default();
        for x in c.iter() {
            match full[d][k].get(*p) {
                Some(w) if w == x => {}
                w => return Err(format!("recovered point {} of {}.{} is {:?}, accepted was {:?}", p, c.dev, c.meas, x, w)),
            }
            *p += 1;
            n += 1;
        }
    }
    Ok(n)
}

fn append_only(spec: &WriterSpec, w: &World) -> V {
    let node = match w.node_of(&spec.path) {
        Some(n) => n as u32,
        None => return Ok(()),
    };
    let mut len = 0u64;
    let mut wrote = false;
    for c in &w.log {
        match c.op {
            OpK::Write if c.node == node && c.ret > 0 => {
                if c.off != len {
                    return Err(format!("a write at offset {} while the file has {} bytes", c.off, len));
                }
                len += c.ret as u64;
                wrote = true;
            }
            OpK::Truncate if c.node == node && c.ret == 0 && wrote => {
                return Err(format!("the file is truncated to {} after data was written", c.off));
            }
            _ => {}
        }
    }
    Ok(())
}

fn c07(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let base = Env { crash: None, ..case.env.clone() };
    let r = run_spec(&spec, &base, Sample::Len, m)?;
    let a = actual(&spec, &r.out, false);
    m.points += a.points;
    healthy(&r, &a)?;
    if a.deviation.is_some() {
        return Ok(()); // C02 decides this
    }
    append_only(&spec, &r.world)?;
    let b = &r.bytes;
    let full = tsfile::scan(b, spec.hole());
    if let Stop::Bad(e) = &full.stop {
        return Err(format!("sequential scan of the whole file: {}", e));
    }
    let total = recover(&spec, &a.acc, b)?;
    if a.closed_ok && total != a.points {
        return Err(format!("sequential scan of the closed file finds {} of {} points", total, a.points));
    }
    // every prefix: no trailer before the end
    let mut i = 0;
    while let Some(p) = find(b, b"TsFile", i) {
        i = p + 1;
        let end = p + 6;
        if end < b.len() && end > 7 && (!tsfile::has_tail_magic(&b[..end]) || File::open(&b[..end], spec.hole()).is_err()) {
            // not a trailer: inside data or names
            if end >= 13 && trailer_shape(&b[..end]) {
                return Err(format!("the first {} of {} bytes end like a finished file", end, b.len()));
            }
        } else if end < b.len() && end > 7 {
            return Err(format!("the first {} of {} bytes pass for a complete file", end, b.len()));
        }
    }
    if a.closed_ok && !tsfile::has_tail_magic(b) {
        return Err("the closed file has no trailer".into());
    }
    if !a.closed_ok && complete(b, &spec) {
        return Err("the file was not closed, but passes for a complete one".into());
    }
    // sampled prefixes: recovery
    let mut rng = Rng::new(case.seed ^ 0x707);
    let n = if b.len() > 200_000 { 6 } else { 24 };
    for k in 0..n {
        let len = match k % 4 {
            0 if !full.chunks.is_empty() => rng.pick(&full.chunks).end.saturating_sub(spec.hole()) as usize,
            1 if !full.chunks.is_empty() => {
                let c = rng.pick(&full.chunks);
                (c.end.saturating_sub(spec.hole()) as usize).saturating_sub(1 + rng.below(3) as usize)
            }
            _ => rng.below(b.len() as u64 + 1) as usize,
        }
        .min(b.len());
        let s = tsfile::scan(&b[..len], spec.hole());
        let want = full.chunks.iter().filter(|c| c.end - spec.hole() <= len as u64).count();
        if s.chunks.len() != want {
            return Err(format!("scan of the first {} bytes recovers {} chunks, {} are complete", len, s.chunks.len(), want));
        }
        recover(&spec, &a.acc, &b[..len])?;
        m.add("prefixes recovered", 1);
    }
    // real crashes
    for v in &case.variants {
        let r2 = run_spec(&spec, &v.env, Sample::No, m)?;
        if !v.env.faults.is_empty() {
            let a2 = actual(&spec, &r2.out, false);
            if a2.closed_ok {
                continue;
            }
            m.probe("files that could not be closed");
            m.nontrivial.insert(r2.sig);
            append_only(&spec, &r2.world)?;
            recover(&spec, &a.acc, &r2.bytes)?;
            if complete(&r2.bytes, &spec) {
                return Err(format!("close did not succeed, but its {} bytes pass for a complete file", r2.bytes.len()));
            }
            continue;
        }
        if !r2.world.crashed {
            continue;
        }
        m.probe("crashed processes");
        m.nontrivial.insert(r2.sig);
        let c = r2.world.file(&spec.path);
        let c = match c {
            Some(c) => c,
            None => continue,
        };
        append_only(&spec, &r2.world)?;
        let done = recover(&spec, &a.acc, c)?;
        if done > 0 {
            m.probe("crashes with recoverable data");
        }
        if c.len() < b.len() && complete(c, &spec) {
            return Err(format!("a crash left {} of {} bytes that pass for a complete file", c.len(), b.len()));
        }
    }
    m.checks += 1;
    Ok(())
}

fn complete(b: &[u8], spec: &WriterSpec) -> bool {
    tsfile::has_tail_magic(b) && File::open(b, spec.hole()).is_ok()
}

/// ends with the magic and a footer length that stays inside the file
fn trailer_shape(b: &[u8]) -> bool {
    let end = b.len() - 10;
    let n = u32::from_be_bytes(b[end..end + 4].try_into().unwrap()) as usize;
    n > 0 && n + 10 + 7 <= b.len() && n > 14
}

fn find(b: &[u8], pat: &[u8], from: usize) -> Option<usize> {
    if from >= b.len() {
        return None;
    }
    b[from..].windows(pat.len()).position(|w| w == pat).map(|p| p + from)
}

// ---- C08 --------------------------------------------------------------------------------

fn c08(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let r = run_spec(&spec, &case.env, Sample::Len, m)?;
    let a = actual(&spec, &r.out, false);
    m.points += a.points;
    if a.closes.first().map_or(false, |c| c.1 == OK) {
        let at = r.out.log_at_close.unwrap();
        let node = r.world.node_of(&spec.path).map(|n| n as u32);
        if let Some(c) = r.world.log.iter().skip(at).find(|c| {
            Some(c.node) == node && c.ret >= 0 && (c.op == OpK::Truncate || c.op == OpK::Write && c.ret > 0)
                || c.ret >= 0 && matches!(c.op, OpK::Rename | OpK::Unlink)
        }) {
            return Err(format!("the file changed after a successful close: {:?} of {} bytes at {}", c.op, c.len, c.off));
        }
        if let Some(l) = &a.late {
            return Err(l.clone());
        }
        panicked(&r.out).map_err(|e| format!("after close: {}", e))?;
        let f = open_closed(&spec, &r.bytes)?;
        same_content(&spec, &a.acc, &f)?;
        if a.closes.len() > 1 {
            m.probe("histories with several closes");
        }
        if a.refused > 0 {
            m.probe("histories with refused late writes");
        }
        m.nontrivial.insert(r.sig);
        m.checks += 1;
    } else {
        healthy(&r, &a)?;
    }
    Ok(())
}

// ---- C09 --------------------------------------------------------------------------------

fn c09(case: &Case, m: &mut Meter) -> V {
    let specs: Vec<Arc<WriterSpec>> = case.w.iter().map(|w| Arc::new(w.clone())).collect();
    let (outs, world, hash) = match case.one_thread {
        Some(seed) => {
            let sp: Vec<WriterSpec> = case.w.clone();
            let e = execute(World::new(&case.env), None, vec![Box::new(move || run_interleaved(&sp, seed))]).ok_or(HANG)?;
            (e.outs.into_iter().next().unwrap(), e.world, mix(seed))
        }
        None => {
            let how = case.schedule.clone().unwrap();
            let mut tasks: Vec<Task<WOut>> = vec![];
            for s in &specs {
                let s = s.clone();
                let fine = case.fine;
                tasks.push(Box::new(move || {
                    crate::os::fine(fine);
                    let o = run_writer(&s, Sample::No);
                    crate::os::fine(false);
                    o
                }));
            }
            let e = execute(World::new(&case.env), Some(how), tasks).ok_or(HANG)?;
            m.add("thread switches", e.trace.len() as u64);
            m.add("yield points", e.yields as u64);
            m.schedules.insert(e.sched_hash);
            m.trace = e.trace.clone();
            (e.outs, e.world, e.sched_hash)
        }
    };
    let mut x = Sig::new();
    x.add(hash);
    for o in &outs {
        x.add(out_hash(o));
    }
    let sig = note(m, &world, x.0);
    m.nontrivial.insert(sig);
    for (i, s) in specs.iter().enumerate() {
        let solo = run_spec(s, &case.env, Sample::No, m)?;
        let a = actual(s, &solo.out, false);
        m.points += a.points;
        let o = &outs[i];
        if let (Some(p), None) = (&o.panic, &solo.out.panic) {
            return Err(format!("writer {} panics only when others are open: {}", i, p));
        }
        if o.open != solo.out.open || o.calls != solo.out.calls {
            let at = o.calls.iter().zip(&solo.out.calls).position(|(a, b)| a != b);
            return Err(format!(
                "writer {}: results differ from its solo run at call {:?} ({} / {})",
                i,
                at,
                o.err.clone().unwrap_or_default(),
                solo.out.err.clone().unwrap_or_default()
            ));
        }
        let b = world.file(&s.path).cloned().unwrap_or_default();
        if b != solo.bytes {
            return Err(format!(
                "writer {}: file differs from its solo run, {} bytes instead of {}, first difference at {}",
                i,
                b.len(),
                solo.bytes.len(),
                first_diff(&b, &solo.bytes)
            ));
        }
        if solo.world.hard.is_empty() {
            healthy(&solo, &a)?;
            if a.closed_ok && a.deviation.is_none() {
                let f = open_closed(s, &b)?;
                same_content(s, &a.acc, &f)?;
            }
        } else {
            m.probe("writers with failing storage next to healthy ones");
        }
    }
    m.checks += 1;
    Ok(())
}

// ---- C10 --------------------------------------------------------------------------------

fn c10(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let r = run_spec(&spec, &case.env, Sample::Len, m)?;
    let a = actual(&spec, &r.out, true);
    m.points += a.points;
    healthy(&r, &a)?;
    if a.deviation.is_some() {
        return Ok(());
    }
    let s = tsfile::scan(&r.bytes, spec.hole());
    if let Stop::Bad(e) = &s.stop {
        return Err(format!("sequential scan: {}", e));
    }
    // points recoverable once the file has a given length
    let mut ends: Vec<(u64, u64)> = vec![(0, 0)];
    let mut n = 0;
    let mut bytes = 0u64;
    for c in &s.chunks {
        n += c.points() as u64;
        // names are not data
        bytes += c.end - c.off - c.meas.len() as u64;
        ends.push((c.end - spec.hole(), n));
    }
    if n == 0 {
        return Ok(());
    }
    let threshold = spec.knobs.group.unwrap_or(128 << 20) as f64;
    let first = spec.knobs.first.unwrap_or(100) as f64;
    let per = bytes as f64 / n as f64;
    // one page per series may be in the air as well
    let row = spec.devices.iter().map(|d| d.s.len()).max().unwrap_or(1) as f64;
    // the writer extrapolates from what it saw; on tiny pages the headers it cannot foresee weigh most
    let factor = if spec.knobs.page.map_or(false, |p| p < 500) { 4.0 } else { 2.5 };
    let bound = factor * threshold / per + 2.0 * first + 2.0 * row + 260.0;
    let series: usize = spec.devices.iter().map(|d| d.s.len()).sum();
    // points that change in size are counted in bytes, flush by flush
    let byte_bound = factor * threshold + 24.0 * (2.0 * first + 2.0 * row + 260.0) + 260.0 * series as f64;
    let size_of = |c: &tsfile::Chunk| (c.end - c.off - c.meas.len() as u64) as f64;
    let steady = spec.ops.iter().filter(|o| matches!(o, Op::B { n, .. } | Op::R { n, .. } if *n > 1)).count() < 2;
    let mut prev_len = r.out.len0;
    let mut prev_acc = 0u64;
    let mut worst = 0.0f64;
    let mut flushes = 0;
    for i in 0..r.out.lens.len() {
        let len = r.out.lens[i];
        let k = ends.partition_point(|e| e.0 <= len) - 1;
        let have = ends[k].1;
        let acc = a.cum[i];
        if steady && acc > have {
            worst = worst.max((acc - have) as f64 / bound);
        }
        if steady && (acc.saturating_sub(have)) as f64 > bound {
            return Err(format!(
                "after call {} {} accepted points are not recoverable; at {:.1} bytes per point and a threshold of {} bytes at most about {:.0} may be",
                i,
                acc - have,
                per,
                threshold,
                bound
            ));
        }
        if len > prev_len {
            flushes += 1;
            let from = ends.partition_point(|e| e.0 <= prev_len) - 1;
            let size: f64 = s.chunks[from..k].iter().map(size_of).sum();
            worst = worst.max(size / byte_bound);
            if size > byte_bound {
                return Err(format!(
                    "call {} flushed {} bytes of points at once; with a threshold of {} bytes at most about {:.0} may be buffered",
                    i, size, threshold, byte_bound
                ));
            }
            if have < prev_acc {
                return Err(format!("call {} flushed, but {} of the {} points accepted before it are not on storage", i, prev_acc - have, prev_acc));
            }
        }
        prev_len = len;
        prev_acc = acc;
    }
    if flushes > 1 {
        m.probe("histories with flushes before close");
        m.nontrivial.insert(r.sig);
    }
    m.add("flushes", flushes);
    // memory: what is buffered, encoders and page buffers per series, index entries of flushed chunks
    let mut names = vec![0u64];
    for c in &s.chunks {
        names.push(names.last().unwrap() + (c.meas.len() + c.dev.len()) as u64);
    }
    let mut most = 0.0f64;
    let mut before = r.out.held.first().copied().unwrap_or(0);
    for (i, &held) in r.out.held.iter().enumerate() {
        if r.out.calls[i] == OK {
            before = held;
        } else if held > before + 16_384 {
            return Err(format!("refused calls up to call {} left {} bytes of memory behind", i, held - before));
        }
        let closing = i + 1 == r.out.held.len();
        if closing {
            break;
        }
        let k = ends.partition_point(|e| e.0 <= r.out.lens[i]) - 1;
        let may = 6.0 * threshold + 160_000.0 * series as f64 + 1000.0 * k as f64 + 4.0 * names[k] as f64 + 100_000.0;
        most = most.max(held as f64 / may);
        if held as f64 > may {
            return Err(format!(
                "after call {} the writer holds {} bytes of memory; with {} series, a threshold of {} bytes and {} chunks flushed at most about {:.0} are needed",
                i, held, series, threshold, k, may
            ));
        }
    }
    if bytes as f64 > 2.0 * (6.0 * threshold + 160_000.0 * series as f64 + 1000.0 * s.chunks.len() as f64 + 4.0 * *names.last().unwrap() as f64 + 100_000.0) {
        m.probe("histories with more than twice the data memory may hold");
    }
    let w = m.probes.entry("largest share of the memory bound used, percent".into()).or_default();
    *w = (*w).max((most * 100.0) as u64);
    let w = m.probes.entry("largest share of the bound used, percent".into()).or_default();
    *w = (*w).max((worst * 100.0) as u64);
    m.checks += 1;
    Ok(())
}

// ---- C11 --------------------------------------------------------------------------------

/// would opening this path for writing work, going by the initial file system alone?
fn can_open(w: &World, raw: &str, max_open: Option<u32>) -> bool {
    if raw.is_empty() || raw.contains('\0') || raw.ends_with('/') || raw.ends_with("/.") || raw.ends_with("/..") || raw == "." || raw == ".." || max_open == Some(0) {
        return false;
    }
    let p = w.abs(raw);
    if p == "/" || p.split('/').any(|c| c.len() > 255) {
        return false;
    }
    // directories that are missing are made on the way, also those that '..' leaves again
    let comps: Vec<&str> = raw.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    let mut at = if raw.starts_with('/') { String::new() } else { w.cwd.clone() };
    let ro = |at: &str| w.names.get(if at.is_empty() { "/" } else { at }).map_or(false, |&n| w.nodes[n].ro);
    for c in &comps[..comps.len() - 1] {
        if *c == ".." {
            at.truncate(at.rfind('/').unwrap_or(0));
            continue;
        }
        if c.len() > 255 {
            return false;
        }
        let parent = ro(&at);
        at.push('/');
        at.push_str(c);
        match w.names.get(&at) {
            Some(&n) if !w.nodes[n].dir => return false,
            Some(_) => {}
            None if parent => return false,
            None => {}
        }
    }
    let ro = ro(&at);
    match w.names.get(&p) {
        Some(&n) => !w.nodes[n].dir && !w.nodes[n].ro,
        None => !ro,
    }
}

fn c11(case: &Case, m: &mut Meter) -> V {
    let spec = Arc::new(case.w[0].clone());
    let before = World::new(&case.env);
    let expect = can_open(&before, &spec.path, case.env.max_open);
    let files: Vec<(String, Vec<u8>, bool)> = before.names.iter().map(|(p, n)| (p.clone(), before.nodes[*n].data.clone(), before.nodes[*n].dir)).collect();
    let r = run_in(before, &spec, Sample::No, m)?;
    panicked(&r.out)?;
    let p = r.world.abs(&spec.path);
    let hard = !r.world.hard.is_empty();
    let refused = r.world.hard.iter().any(|h| h.1 == OpK::Write || h.1 == OpK::Open);
    if !hard {
        m.probe(if expect { "opens without fault" } else { "opens that cannot work" });
        if expect && r.out.open != OK {
            return Err(format!("the constructor failed although nothing prevents it: {}", r.out.err.clone().unwrap_or_default()));
        }
    }
    if !expect && r.out.open == OK {
        return Err("the constructor returned Ok although the file cannot be opened".into());
    }
    if refused && r.out.open == OK && spec.ops.is_empty() {
        return Err("creating or writing the file failed but the constructor returned Ok".into());
    }
    if r.out.open == OK {
        match r.world.file(&p) {
            None => return Err("the constructor returned Ok but there is no file".into()),
            Some(b) => {
                if spec.ops.is_empty() && b.as_slice() != tsfile::HEADER {
                    return Err(format!("the new file holds {} bytes {:?} instead of the header", b.len(), &b[..b.len().min(16)]));
                }
                if !b.starts_with(tsfile::HEADER) {
                    return Err("the new file does not start with the header".into());
                }
            }
        }
        m.probe("opens that succeeded");
        // the rest of a short life
        if !spec.ops.is_empty() && !hard {
            let a = actual(&spec, &r.out, false);
            healthy(&r, &a)?;
            if a.closed_ok && a.deviation.is_none() {
                let f = open_closed(&spec, &r.bytes)?;
                same_content(&spec, &a.acc, &f)?;
            }
        }
    } else {
        m.probe("opens that failed");
        m.nontrivial.insert(r.sig);
    }
    // nothing else was touched; a file that could not be opened is as before
    let opened = r.world.log.iter().any(|c| c.op == OpK::Truncate && c.ret == 0);
    for (q, data, dir) in &files {
        let now = r.world.names.get(q).map(|n| &r.world.nodes[*n]);
        match now {
            None => return Err(format!("{} disappeared", q)),
            Some(n) => {
                if n.dir != *dir {
                    return Err(format!("{} changed its kind", q));
                }
                if (*q != p || !opened) && n.data != *data {
                    return Err(format!("{} was changed although it was not (successfully) opened", q));
                }
            }
        }
    }
    if files.iter().any(|f| f.0 == p && !f.1.is_empty()) && r.out.open == OK {
        m.probe("existing files replaced");
    }
    m.checks += 1;
    Ok(())
}
