//! One seed, one case: the generators of the simulated workloads, environments and faults.
use crate::case::*;
use crate::exec::*;
use crate::plan::*;
use crate::props::*;
use crate::rng::{mix, Rng};
use crate::scenario::*;
use crate::tsfile::{FLOAT, INT32, INT64};
use crate::world::World;
use std::sync::Arc;

/// size of the search: 0 = quick, 1 = thorough
pub fn gen(prop: &str, seed: u64, deep: bool) -> Case {
    let p: u64 = prop.bytes().map(|b| b as u64).fold(0, |a, b| a * 131 + b);
    let mut r = Rng::new(mix(seed) ^ p.wrapping_mul(0x9e3779b97f4a7c15));
    let mut c = Case { prop: prop.into(), seed, ..Default::default() };
    match prop {
        "C01" => c01(&mut c, &mut r, deep),
        "C02" => c02(&mut c, &mut r, deep),
        "C03" => c03(&mut c, &mut r, deep),
        "C04" => c04(&mut c, &mut r, deep),
        "C05" => c05(&mut c, &mut r, deep),
        "C06" => c06(&mut c, &mut r, deep),
        "C07" => c07(&mut c, &mut r, deep),
        "C08" => c08(&mut c, &mut r, deep),
        "C09" => c09(&mut c, &mut r, deep),
        "C10" => c10(&mut c, &mut r, deep),
        "C11" => c11(&mut c, &mut r),
        "C12" => c12(&mut c, &mut r, deep),
        "C13" => c13(&mut c, &mut r),
        "C14" => c14(&mut c, &mut r, deep),
        "C15" => c15(&mut c, &mut r, deep),
        "C16" => c16(&mut c, &mut r),
        "C17" => c17(&mut c, &mut r, deep),
        "C18" => c18(&mut c, &mut r, deep),
        _ => panic!("no property {}", prop),
    }
    c
}

fn frag(r: &mut Rng) -> Frag {
    Frag {
        seed: r.u64() >> 1,
        short: *r.pick(&[0, 20, 200, 700, 1000]),
        eintr: *r.pick(&[0, 10, 100, 400]),
        max: *r.pick(&[1, 1, 2, 7, 64, 5000]),
    }
}

/// no byte-by-byte writes for large files
fn coarse(env: &mut Env) {
    if let Some(f) = &mut env.frag {
        f.max = f.max.max(64);
        f.short = f.short.min(200);
        f.eintr = f.eintr.min(100);
    }
}

/// an environment without failures: seeds, clock, transparent I/O disturbances
fn calm(r: &mut Rng) -> Env {
    Env {
        hash_seed: r.u64() >> 1,
        clock: if r.pct(30) { (r.u64() >> 4) as i64 - (1 << 59) } else { 0 },
        clock_jump: if r.pct(20) { 1 << r.range(10, 50) } else { 0 },
        frag: if r.pct(40) { Some(frag(r)) } else { None },
        log: r.pct(10),
        ..Default::default()
    }
}

fn points(r: &mut Rng, deep: bool) -> u64 {
    match r.below(100) {
        0..=9 => r.range(0, 5),
        10..=69 => r.range(1, 300),
        70..=94 => r.range(200, 3000),
        _ => r.range(2000, if deep { 60_000 } else { 15_000 }),
    }
}

fn spec(r: &mut Rng, o: &SchemaOpts) -> WriterSpec {
    let devices = gen_schema(r, o);
    WriterSpec {
        path: r.pick(&["out.tsfile", "data/out.tsfile", "a/b/c/out.tsfile", "/tmp/x.tsfile", "ö ü.tsfile"]).to_string(),
        devices,
        sink: Sink::File,
        degree: if r.pct(25) { r.range(2, 9) as u32 } else { 0 },
        knobs: gen_knobs(r),
        order: if r.pct(50) { r.u64() >> 1 } else { 0 },
        ops: vec![],
    }
}

/// a path that is allowed, but not the usual one
fn odd_path(r: &mut Rng) -> String {
    let part = |r: &mut Rng| -> String {
        match r.below(9) {
            0 => "n".repeat(*r.pick(&[1, 60, 99, 100, 101, 127, 128, 200, 254, 255])),
            1 => format!("{}f", " ".repeat(r.range(1, 3) as usize)),
            2 => format!("f.tsfile{}", r.pick(&[" ", "\t", "\n", "\r\n", "\u{a0}"])),
            3 => r.pick(&["~", "%41", "$HOME", "-", "*", "a\\b", "'q\"", "C:", ".hidden", "...", "UPPER", "f.TSFILE"]).to_string(),
            4 => r.pick(&["é", "e\u{301}", "温度", "\u{feff}f", "\u{1F600}"]).to_string(),
            5 => r.pick(&["f.tmp", "f.lock", "f.tsfile.tmp", "f.tsfile.part", "f~", "f.tsfile.tsfile"]).to_string(),
            _ => (0..r.range(1, 20)).map(|_| char::from(r.range(33, 126) as u8)).map(|c| if c == '/' || c == '.' { '_' } else { c }).collect(),
        }
    };
    let n = if r.pct(10) { r.range(3, 12) } else { r.range(1, 2) };
    let p: Vec<String> = (0..n).map(|_| part(r)).collect();
    let before = *r.pick(&["", "", "", "/", "./", "d/../", "./d/./../"]);
    let p = p.join(*r.pick(&["/", "/", "/", "//", "/./"]));
    // the directory that is made on the way is not the file
    format!("{}{}{}", before, p, if p == "d" && before.contains('d') { "_" } else { "" })
}

fn raw(r: &mut Rng, w: &mut WriterSpec, hole: bool) {
    w.path = "raw.tsfile".into();
    w.sink = Sink::Raw(if hole { *r.pick(&[0, 1 << 20, (1u64 << 32) - 300, 1 << 33, 1 << 45]) } else { 0 });
}

fn few(n: u64) -> SchemaOpts {
    SchemaOpts { devices: (1, n), series: (1, n + 1), ..Default::default() }
}

/// the whole file at the shipped thresholds with a chunk-group flush in the middle
fn huge(r: &mut Rng, w: &mut WriterSpec) {
    w.knobs = KnobSet::default();
    w.devices = vec![Device {
        n: "root.sg.d1".into(),
        s: vec![
            Series { n: "s1".into(), t: INT64, e: PLAIN, c: 0 },
            Series { n: "s2".into(), t: *r.pick(&[INT32, FLOAT]), e: PLAIN, c: 1 },
        ],
    }];
    w.ops = vec![
        Op::R { d: 0, n: 5_600_000, t: 1, tk: Tk::Even(1), vk: Vk::Any, seed: r.u64() >> 1 },
        Op::R { d: 0, n: 1000, t: 10_000_000, tk: Tk::Jitter(50), vk: Vk::Any, seed: r.u64() >> 1 },
        Op::Close,
    ];
}

/// a page that looks small when it is measured and then swells far beyond the page size
fn swell(r: &mut Rng, w: &mut WriterSpec) {
    w.knobs = KnobSet::default();
    w.devices.truncate(1);
    w.devices[0].s = vec![Series { n: "s".into(), t: *r.pick(&[INT32, INT64]), e: TS2DIFF, c: r.below(2) as u8 }];
    let calm = if r.pct(5) { r.range(1_040_000, 1_060_000) } else { r.range(8_000, 40_000) } as u32;
    let wild = r.range(100, 40_000) as u32;
    w.ops = vec![
        Op::B { d: 0, s: 0, n: calm, t: 5, tk: Tk::Even(1), vk: Vk::Const, seed: r.u64() >> 1 },
        Op::B { d: 0, s: 0, n: wild, t: 2_000_000, tk: Tk::Jitter(*r.pick(&[100, 1 << 20, 1 << 46])), vk: *r.pick(&[Vk::Any, Vk::Extreme, Vk::Const]), seed: r.u64() >> 1 },
        Op::Close,
    ];
}

/// one series whose chunks are only a few points long, so that there are very many of them
fn many(r: &mut Rng, w: &mut WriterSpec) {
    w.devices.truncate(1);
    w.devices[0].s.truncate(2);
    for s in &mut w.devices[0].s {
        if !enc_ok(s) {
            s.e = PLAIN;
        }
    }
    w.knobs.group = Some(r.range(1, 60) as u32);
    w.knobs.first = Some(1);
    let n = r.range(500, 6000) as u32;
    let tk = *r.pick(&[Tk::Even(1), Tk::Jitter(1000), Tk::Jitter(1 << 30)]);
    let (vk, seed) = (any_vk(r, true), r.u64() >> 1);
    let d = 0;
    w.ops = vec![
        if r.pct(50) { Op::B { d, s: 0, n, t: 0, tk, vk, seed } } else { Op::R { d, n, t: 0, tk, vk, seed } },
        Op::Close,
    ];
}

/// a very large index, of three levels where the fan-out is below the shipped one
fn vast(r: &mut Rng, w: &mut WriterSpec) {
    w.knobs = KnobSet::default();
    w.degree = *r.pick(&[0, 128, 200]);
    let wide = r.pct(50);
    let n = r.range(40_100, 42_000);
    let series = |i: u64| Series { n: format!("s{}", i), t: [INT32, INT64, FLOAT][i as usize % 3], e: PLAIN, c: (i % 2) as u8 };
    w.devices = if wide {
        vec![Device { n: "root.v".into(), s: (0..n).map(series).collect() }]
    } else {
        (0..n).map(|i| Device { n: format!("root.v.d{}", i), s: vec![series(i)] }).collect()
    };
    w.ops = (0..w.devices.len()).map(|d| Op::R { d: d as u16, n: 1, t: 3, tk: Tk::Even(1), vk: Vk::Small, seed: d as u64 }).collect();
    w.ops.push(Op::Close);
}

/// one series fed in bulk at the shipped thresholds, so that several pages fill up
fn bulk(r: &mut Rng, w: &mut WriterSpec, max: u64) {
    if r.pct(20) {
        return swell(r, w);
    }
    w.knobs = KnobSet::default();
    if w.devices[0].s.is_empty() {
        return;
    }
    for s in &mut w.devices[0].s {
        if !enc_ok(s) {
            s.e = PLAIN;
        }
    }
    let vk = any_vk(r, true);
    let n = r.range(max / 8, max);
    let (mut left, mut t, mut ops) = (n, *r.pick(&[0, 1_600_000_000_000]), vec![]);
    while left > 0 {
        let k = r.range(1, left);
        let tk = *r.pick(&[Tk::Even(1), Tk::Even(1000), Tk::Jitter(1000), Tk::Jitter(1 << 20)]);
        let vk = if r.pct(50) { vk } else { any_vk(r, true) };
        let seed = r.u64() >> 1;
        ops.push(if r.pct(20) {
            Op::R { d: 0, n: (k / w.devices[0].s.len() as u64).max(1) as u32, t, tk, vk, seed }
        } else {
            Op::B { d: 0, s: 0, n: k as u32, t, tk, vk, seed }
        });
        t += (k as i64 + 1) << 20;
        left -= k;
    }
    ops.push(Op::Close);
    w.ops = ops;
}

fn c01(c: &mut Case, r: &mut Rng, deep: bool) {
    let mut w = spec(r, &SchemaOpts::default());
    if r.pct(10) {
        w.path = odd_path(r);
    }
    if r.pct(10) {
        w.devices = gen_schema(r, &SchemaOpts { devices: (1, 40), series: (1, 12), ..Default::default() });
    }
    if r.pct(10) {
        raw(r, &mut w, true);
    }
    let n = points(r, deep);
    gen_ops(r, &mut w, &HistOpts { points: n, ..Default::default() });
    if r.below(150) == 0 {
        bulk(r, &mut w, 100_000);
    } else if r.below(200) == 0 {
        many(r, &mut w);
    }
    c.env = calm(r);
    if w.ops.len() == 2 {
        coarse(&mut c.env);
    }
    if if deep { c.seed % 20_011 == 7 } else { c.seed % 60_000 == 7_421 } {
        huge(r, &mut w);
        c.env.frag = None;
    }
    c.w = vec![w];
}

fn c02(c: &mut Case, r: &mut Rng, deep: bool) {
    let bad_enc = r.pct(25);
    let mut w = spec(r, &SchemaOpts { bad_enc, ..few(3) });
    let n = points(r, deep).min(4000);
    let invalid = *r.pick(&[3, 10, 30, 60]);
    gen_ops(r, &mut w, &HistOpts { points: n, invalid, ..Default::default() });
    c.env = calm(r);
    c.w = vec![w];
}

fn c03(c: &mut Case, r: &mut Rng, deep: bool) {
    let style = r.below(10);
    let o = match style {
        0 => SchemaOpts { devices: (200, 300), series: (1, 2), ..Default::default() },
        1 => SchemaOpts { devices: (1, 3), series: (200, 530), ..Default::default() },
        2 => SchemaOpts { devices: (257, 600), series: (1, 1), ..Default::default() },
        3 | 4 => SchemaOpts { devices: (10, 80), series: (1, 10), ..Default::default() },
        _ => SchemaOpts { devices: (1, 14), series: (1, 14), ..Default::default() },
    };
    let mut w = spec(r, &o);
    w.degree = match style {
        0..=2 => *r.pick(&[0, 0, 16, 255]),
        _ => *r.pick(&[0, 2, 2, 3, 3, 4, 5, 7, 16]),
    };
    if r.pct(4) {
        // paths with a hash of i32::MIN, which has no magnitude
        let n = *r.pick(&["s932617395", "s1718270406", "s2994119561"]);
        w.devices.retain(|d| d.n != "d");
        w.devices.push(Device { n: "d".into(), s: vec![Series { n: n.into(), t: INT64, e: PLAIN, c: 0 }] });
    }
    if r.pct(30) {
        raw(r, &mut w, true);
    }
    let n = points(r, deep).min(2000);
    gen_ops(r, &mut w, &HistOpts { points: n, close: false, ..Default::default() });
    // touch nearly every series once
    let miss = *r.pick(&[0, 0, 5, 30]);
    let late = i64::MAX - 10;
    let mut more = vec![];
    for d in 0..w.devices.len() as u16 {
        if r.pct(miss) || w.devices[d as usize].s.is_empty() {
            continue;
        }
        if r.pct(miss) {
            let s = r.below(w.devices[d as usize].s.len() as u64) as u16;
            more.push(Op::B { d, s, n: 1, t: late, tk: Tk::Even(1), vk: Vk::Any, seed: r.u64() >> 1 });
        } else {
            more.push(Op::R { d, n: r.range(1, 3) as u32, t: late - 10, tk: Tk::Even(1), vk: Vk::Any, seed: r.u64() >> 1 });
        }
    }
    shuffle(r, &mut more);
    let front = r.pct(50);
    if front {
        for op in &mut more {
            match op {
                Op::B { t, .. } | Op::R { t, .. } => *t = 0,
                _ => {}
            }
        }
        w.ops = more;
    } else {
        w.ops.retain(|o| !touches_late(o, late - 10));
        w.ops.extend(more);
    }
    w.ops.push(Op::Close);
    drop_refused(&mut w);
    if r.below(150) == 0 {
        many(r, &mut w);
    }
    if c.seed % 1_500 == 421 {
        // chunks of megabytes
        w.devices.truncate(1);
        w.devices[0].s.truncate(2);
        bulk(r, &mut w, 500_000);
    }
    c.env = calm(r);
    if c.seed % 1_500 == 421 {
        coarse(&mut c.env);
    }
    if if deep { c.seed % 5_003 == 7 } else { c.seed % 5_000 == 2_421 } {
        vast(r, &mut w);
        c.env.frag = None;
        c.w = vec![w];
        return;
    }
    if style < 3 || w.ops.len() == 2 {
        coarse(&mut c.env);
    }
    c.w = vec![w];
}

fn touches_late(o: &Op, at: i64) -> bool {
    match o {
        Op::W(_, _, t, _) | Op::M(_, t, _) => *t >= at,
        Op::B { t, .. } | Op::R { t, .. } => *t >= at,
        Op::Close => false,
    }
}

/// keep only operations the reference accepts entirely
fn drop_refused(w: &mut WriterSpec) {
    let base = WriterSpec { ops: vec![], ..w.clone() };
    let mut m = Model::new(&base);
    m.keep_points = false;
    let ops = std::mem::take(&mut w.ops);
    for op in ops {
        let mut trial_bad = false;
        let mut done: Vec<(u16, i64, Vec<(u16, crate::tsfile::Val)>)> = vec![];
        for_each_in(&base.devices, std::slice::from_ref(&op), |c| {
            let x = m.apply(&c);
            if x.errors != 0 {
                trial_bad = true;
                return false;
            }
            let (d, t) = match c {
                Call::W(d, _, t, _) | Call::M(d, t, _) => (d, t),
                Call::Close => return true,
            };
            done.push((d, t, x.accepted));
            true
        });
        if !trial_bad {
            w.ops.push(op);
        } else {
            // the accepted part stays
            for (d, t, items) in done {
                w.ops.push(Op::M(d, t, items));
            }
        }
    }
}

fn c04(c: &mut Case, r: &mut Rng, deep: bool) {
    let mut w = spec(r, &few(3));
    if r.pct(60) && w.knobs.page.is_none() {
        w.knobs.page = Some(r.range(40, 600) as u32);
        w.knobs.pcheck = Some(r.range(1, 30) as u32);
        w.knobs.pmin = Some(r.range(1, 20) as u32);
    }
    let n = points(r, deep);
    gen_ops(r, &mut w, &HistOpts { points: n, ..Default::default() });
    if r.below(100) == 0 {
        bulk(r, &mut w, 70_000);
    } else if r.below(150) == 0 {
        many(r, &mut w);
    }
    c.env = calm(r);
    if w.ops.len() == 2 {
        coarse(&mut c.env);
    }
    c.w = vec![w];
}

/// what a history does in a world without faults
fn twin(w: &WriterSpec, env: &Env) -> Option<Run> {
    let e = Env { faults: vec![], capacity: None, crash: None, max_open: None, frag: env.frag.clone(), ..env.clone() };
    let mut m = Meter::default();
    run_spec(&Arc::new(w.clone()), &e, Sample::Len, &mut m).ok()
}

fn counts(w: &WriterSpec, run: &Run) -> (u32, u64) {
    let n = run.world.node_of(&w.path).map_or(u32::MAX, |n| n as u32);
    let mut writes = run.world.log.iter().filter(|c| c.op == OpK::Write && c.node == n).count() as u32;
    if run.world.log.len() >= run.world.log_cap {
        // more calls than the log keeps: all of them
        writes = run.world.calls_of(OpK::Write);
    }
    (writes, run.bytes.len() as u64)
}

const WRITE_ERRORS: [i32; 17] = [
    libc::ENOSPC, libc::ENOSPC, libc::ENOSPC, libc::EIO, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EROFS, libc::EAGAIN, libc::EPIPE,
    libc::ENOMEM, libc::EBADF, libc::ETIMEDOUT, libc::EPERM, libc::ENXIO, libc::ESTALE, libc::EINVAL,
];

fn c05(c: &mut Case, r: &mut Rng, deep: bool) {
    let mut w = spec(r, &few(3));
    if r.pct(10) {
        w.devices = gen_schema(r, &SchemaOpts { devices: (3, 20), series: (1, 4), ..Default::default() });
    }
    if r.pct(15) {
        raw(r, &mut w, false);
    }
    if r.pct(60) {
        w.knobs.group = Some(r.range(100, 3000) as u32);
        w.knobs.first = Some(r.range(1, 30) as u32);
    }
    let n = points(r, deep).min(1500);
    gen_ops(r, &mut w, &HistOpts { points: n, ..Default::default() });
    for _ in 0..r.below(3) {
        w.ops.push(Op::Close);
    }
    let mut env = calm(r);
    if r.pct(60) {
        env.frag = None;
    }
    let (writes, bytes) = match twin(&w, &env) {
        Some(t) => counts(&w, &t),
        None => (50, 1000),
    };
    let at = |r: &mut Rng| -> u32 {
        // the header, anywhere, or the end of the file
        match r.below(10) {
            0 => r.below(3) as u32,
            1..=5 => r.below(writes.max(1) as u64) as u32,
            _ => {
                let back = 1 + r.below(1 + writes.min(80) as u64) as u32;
                writes.saturating_sub(back)
            }
        }
    };
    match r.below(12) {
        0..=4 => {
            for _ in 0..r.range(1, 3) {
                let nth = at(r);
                let count = *r.pick(&[1, 1, 1, 2, 5, u32::MAX]);
                let act = if r.pct(15) { Act::Zero } else { Act::Errno(*r.pick(&WRITE_ERRORS)) };
                env.faults.push(Fault { op: OpK::Write, nth, count, path: Some(".tsfile".into()), act });
            }
        }
        5..=8 => {
            env.capacity = Some(match r.below(4) {
                0 => r.below(8),
                1 => bytes.saturating_sub(1 + r.below(60.min(bytes.max(1)))),
                _ => r.below(bytes + 1),
            });
            if r.pct(40) {
                env.freed_at = Some(at(r));
            }
        }
        9 => {
            env.faults.push(Fault { op: OpK::Open, nth: 0, count: 1, path: Some(".tsfile".into()), act: Act::Errno(*r.pick(&[libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EROFS, libc::EIO])) });
        }
        10 => {
            // short writes first, then a failure
            let nth = at(r);
            env.faults.push(Fault { op: OpK::Write, nth, count: 1, path: None, act: Act::Short(r.range(1, 3) as u32) });
            env.faults.push(Fault { op: OpK::Write, nth: nth + 1, count: *r.pick(&[1, 3, u32::MAX]), path: None, act: Act::Errno(*r.pick(&WRITE_ERRORS)) });
        }
        _ => {} // no failure at all: nothing may be reported
    }
    console(r, &mut env);
    c.env = env;
    c.w = vec![w];
}

fn c06(c: &mut Case, r: &mut Rng, deep: bool) {
    let o = match r.below(6) {
        0 => SchemaOpts { devices: (2, 40), series: (1, 8), ..Default::default() },
        1 => SchemaOpts { devices: (1, 6), series: (2, 60), ..Default::default() },
        _ => SchemaOpts::default(),
    };
    let mut w = spec(r, &o);
    let n = points(r, deep).min(3000);
    let invalid = *r.pick(&[0, 0, 0, 10]);
    gen_ops(r, &mut w, &HistOpts { points: n, invalid, ..Default::default() });
    if r.below(200) == 0 {
        bulk(r, &mut w, 60_000);
    }
    c.env = Env { hash_seed: r.u64() >> 1, ..Default::default() };
    for k in 0..r.range(1, 3) {
        let mut v = Variant { env: calm(r), order: if r.pct(70) { r.u64() >> 1 } else { w.order }, path: w.path.clone(), raw: false, refused: if r.pct(30) { 1 + (r.u64() >> 1) } else { 0 } };
        if k == 0 || r.pct(50) {
            v.env.frag = Some(frag(r));
        }
        match r.below(4) {
            0 => {
                v.path = if r.pct(50) { odd_path(r) } else { "other/place/file.bin".into() };
            }
            1 => {
                v.path = "raw.tsfile".into();
                v.raw = true;
            }
            2 => {
                // the path already holds something longer
                let p = World::new(&Env::default()).abs(&w.path);
                if let Some(i) = p.rfind('/') {
                    let mut at = String::new();
                    for part in p[1..i.max(1)].split('/').filter(|x| !x.is_empty()) {
                        at = format!("{}/{}", at, part);
                        v.env.fs.push((at.clone(), NodeInit::Dir));
                    }
                }
                v.env.fs.push((p, NodeInit::Blob(r.range(1, 20000) as u32, 5)));
            }
            _ => {}
        }
        c.variants.push(v);
    }
    c.w = vec![w];
}

fn c07(c: &mut Case, r: &mut Rng, deep: bool) {
    let mut w = spec(r, &few(3));
    if r.pct(80) {
        w.knobs.group = Some(r.range(100, 4000) as u32);
        w.knobs.first = Some(r.range(1, 40) as u32);
    }
    if r.pct(10) {
        raw(r, &mut w, true);
    }
    let n = points(r, deep).min(3000);
    let close = r.pct(85);
    gen_ops(r, &mut w, &HistOpts { points: n, close, ..Default::default() });
    c.env = calm(r);
    if let Some(f) = &mut c.env.frag {
        f.max = f.max.max(3);
    }
    let t = twin(&w, &c.env);
    let muts = t.as_ref().map_or(10, |t| t.world.mutations);
    for _ in 0..r.range(2, if deep { 10 } else { 5 }) {
        let call = match r.below(5) {
            0 => r.below(6) as u32,
            1 => muts.saturating_sub(1 + r.below(30) as u32),
            _ => r.below(muts.max(1) as u64) as u32,
        };
        let bytes = *r.pick(&[0, 1, 2, 3, 5, 17, 100, 100000]);
        let mut env = c.env.clone();
        if w.sink == Sink::File && r.pct(20) {
            // a failure that may pass, after which the writer is dropped
            let act = Act::Errno(*r.pick(&WRITE_ERRORS));
            env.faults.push(Fault { op: OpK::Write, nth: call, count: *r.pick(&[1, 1, 2, 5, u32::MAX]), path: None, act });
        } else {
            env.crash = Some(Crash { call, bytes });
        }
        c.variants.push(Variant { env, order: w.order, path: w.path.clone(), raw: false, refused: 0 });
    }
    c.w = vec![w];
}

fn c08(c: &mut Case, r: &mut Rng, deep: bool) {
    let mut w = spec(r, &few(3));
    if r.pct(15) {
        raw(r, &mut w, false);
    }
    if r.pct(60) {
        w.knobs.group = Some(r.range(60, 1500) as u32);
        w.knobs.first = Some(r.range(1, 20) as u32);
    }
    let n = points(r, deep).min(1500);
    let invalid = *r.pick(&[0, 0, 10]);
    let after_close = r.range(1, 8);
    gen_ops(r, &mut w, &HistOpts { points: n, invalid, after_close, ..Default::default() });
    let mut env = calm(r);
    if r.pct(20) {
        // storage trouble after (or around) the close
        let (writes, bytes) = twin(&w, &env).map_or((10, 100), |t| counts(&w, &t));
        if r.pct(50) {
            env.faults.push(Fault { op: OpK::Write, nth: writes, count: u32::MAX, path: None, act: Act::Errno(libc::ENOSPC) });
        } else {
            env.capacity = Some(bytes);
        }
    }
    c.env = env;
    c.w = vec![w];
}

fn c09(c: &mut Case, r: &mut Rng, deep: bool) {
    let n = r.range(2, if deep { 5 } else { 4 });
    let same = r.pct(40);
    let mut first: Option<Vec<Device>> = None;
    for i in 0..n {
        let mut w = spec(r, &few(2));
        if same {
            if let Some(f) = &first {
                w.devices = f.clone();
            }
        }
        first = Some(w.devices.clone());
        w.path = if r.pct(50) { format!("w{}.tsfile", i) } else { format!("dir{}/w{}.tsfile", r.below(2), i) };
        if r.pct(50) {
            w.knobs.group = Some(r.range(100, 2000) as u32);
            w.knobs.first = Some(r.range(1, 30) as u32);
        }
        let pts = r.range(1, if deep { 600 } else { 200 });
        let invalid = *r.pick(&[0, 0, 10]);
        let after_close = r.below(2);
        let close = r.pct(90);
        gen_ops(r, &mut w, &HistOpts { points: pts, invalid, after_close, close, ..Default::default() });
        c.w.push(w);
    }
    c.env = calm(r);
    if r.pct(30) {
        let i = r.below(n) as usize;
        let (writes, _) = twin(&c.w[i], &c.env).map_or((10, 100), |t| counts(&c.w[i], &t));
        // fragmentation differs between the runs, so count calls only without it
        c.env.frag = None;
        let count = *r.pick(&[1, 1, u32::MAX]);
        c.env.faults.push(Fault { op: OpK::Write, nth: r.below(writes.max(1) as u64) as u32, count, path: Some(format!("w{}.", i)), act: Act::Errno(*r.pick(&WRITE_ERRORS)) });
    }
    if r.pct(35) && c.w.iter().all(|w| w.sink == Sink::File) {
        c.one_thread = Some(r.u64() >> 1);
    } else {
        c.fine = r.pct(60);
        c.schedule = Some(Schedule_random(r));
    }
}

#[allow(non_snake_case)]
fn Schedule_random(r: &mut Rng) -> crate::sched::Schedule {
    crate::sched::Schedule::Random { seed: r.u64() >> 1, pm: *r.pick(&[5, 30, 100, 300, 700]), fine: *r.pick(&[10, 100, 1000, 5000]) }
}

fn c10(c: &mut Case, r: &mut Rng, deep: bool) {
    let mut w = spec(r, &few(2));
    w.knobs.group = Some(r.range(500, 40_000) as u32);
    w.knobs.first = match r.below(3) {
        0 => None,
        _ => Some(r.range(1, 150) as u32),
    };
    if r.pct(50) {
        w.knobs.page = Some(r.range(100, 3000) as u32);
        w.knobs.pcheck = Some(r.range(1, 60) as u32);
        w.knobs.pmin = Some(r.range(1, 40) as u32);
    }
    let mut vk = *r.pick(&[Vk::Any, Vk::Any, Vk::Small, Vk::Ramp]);
    let seed = r.u64() >> 1;
    let mut total = if deep { r.range(500, 40_000) } else { r.range(300, 8000) };
    let long = r.below(60) == 0;
    if long {
        // far more data than memory may hold
        w.devices.truncate(1);
        w.devices[0].s.truncate(r.range(1, 2) as usize);
        w.knobs.group = Some(r.range(4000, 30_000) as u32);
        w.knobs.page = None;
        w.knobs.pcheck = None;
        w.knobs.pmin = None;
        total = r.range(100_000, 250_000) * w.devices[0].s.len() as u64;
    } else if r.below(400) == 0 {
        // pages beyond 64 KiB
        w.knobs.page = Some(r.range(66_000, 300_000) as u32);
        w.knobs.group = Some(r.range(70_000, 600_000) as u32);
        w.knobs.pcheck = None;
        w.knobs.pmin = None;
        total = r.range(100_000, 300_000);
    }
    let tk = *r.pick(&[Tk::Even(1), Tk::Even(1000), Tk::Jitter(50), Tk::Jitter(1 << 30)]);
    if long {
        vk = Vk::Any;
    }
    let mut ops = vec![];
    let kind = if !long && r.pct(20) { 3 } else { r.below(3) };
    if kind == 3 {
        // headers of very small pages would weigh more than any point
        w.knobs.page = w.knobs.page.map(|p| p.max(500));
        w.knobs.pcheck = w.knobs.pcheck.map(|p| p.max(30));
        w.knobs.pmin = w.knobs.pmin.map(|p| p.max(30));
        if r.pct(30) {
            // wide rows
            w.devices = gen_schema(r, &SchemaOpts { devices: (1, 2), series: (8, 60), ..Default::default() });
            w.knobs.group = Some(r.range(10_000, 100_000) as u32);
            total = r.range(5_000, if deep { 80_000 } else { 40_000 });
        }
    }
    if kind == 2 && !long && r.pct(20) {
        // very many devices at the same times
        w.devices = gen_schema(r, &SchemaOpts { devices: (10, 120), series: (1, 3), ..Default::default() });
        w.knobs.group = Some(r.range(5_000, 60_000) as u32);
    }
    let nd = w.devices.len() as u16;
    let per: u64 = w.devices.iter().map(|d| d.s.len() as u64).sum();
    match kind {
        3 => {
            // points that change in size: quiet series that wake up, and the other way round
            let mut t = 0i64;
            for p in 0..r.range(2, 6) {
                let (tk, vk) = if (p + seed) % 2 == 0 || r.pct(10) {
                    (Tk::Even(r.range(1, 3) as i64), *r.pick(&[Vk::Const, Vk::Const, Vk::Flip, Vk::Small]))
                } else {
                    (*r.pick(&[Tk::Jitter(1 << 40), Tk::Jitter(1 << 30), Tk::Even(1)]), *r.pick(&[Vk::Any, Vk::Extreme]))
                };
                let n = r.range(10, total * 2).min(total);
                let d = r.below(nd as u64) as u16;
                if r.pct(60) {
                    let s = r.below(w.devices[d as usize].s.len() as u64) as u16;
                    ops.push(Op::B { d, s, n: n as u32, t, tk, vk, seed: seed ^ p });
                } else {
                    let n = (n / w.devices[d as usize].s.len() as u64).max(1);
                    ops.push(Op::R { d, n: n as u32, t, tk, vk, seed: seed ^ p });
                }
                t += (n as i64 + 1) << 41;
            }
        }
        0 => {
            // one series only
            let d = r.below(nd as u64) as u16;
            let s = r.below(w.devices[d as usize].s.len() as u64) as u16;
            if per > 1 && r.pct(30) {
                // another one is far ahead
                let (d2, s2) = loop {
                    let d2 = r.below(nd as u64) as u16;
                    let s2 = r.below(w.devices[d2 as usize].s.len() as u64) as u16;
                    if (d2, s2) != (d, s) {
                        break (d2, s2);
                    }
                };
                let x = &w.devices[d2 as usize].s[s2 as usize];
                if enc_ok(x) {
                    ops.push(Op::W(d2, s2, *r.pick(&[1 << 62, i64::MAX]), value(x.t, Vk::Small, seed, 0)));
                }
            }
            ops.push(Op::B { d, s, n: total as u32, t: 0, tk, vk, seed });
        }
        1 => {
            // one device, whole rows
            let d = r.below(nd as u64) as u16;
            let n = (total / w.devices[d as usize].s.len() as u64).max(1);
            ops.push(Op::R { d, n: n as u32, t: 0, tk, vk, seed });
        }
        _ => {
            // all devices in turn
            let rounds = (total / per).clamp(1, if long { 30_000 } else { 3000 });
            for k in 0..rounds {
                for d in 0..nd {
                    let t = k as i64 * 1000;
                    ops.push(Op::R { d, n: 1, t, tk: Tk::Even(1), vk, seed: seed ^ (k << 20) });
                }
            }
        }
    }
    if r.pct(10) {
        // very many refused calls
        let at = r.below(ops.len() as u64 + 1) as usize;
        let device = r.pct(30);
        let n = r.range(500, 5500) as u16;
        let v = crate::tsfile::Val::I(1);
        ops.splice(at..at, (0..n).map(|k| if device { Op::W(UNKNOWN + k, 0, 1, v) } else { Op::W(0, UNKNOWN + k, 1, v) }));
    }
    if r.pct(30) {
        ops.push(Op::Close);
    }
    w.ops = ops;
    c.env = calm(r);
    if let Some(f) = &mut c.env.frag {
        f.max = f.max.max(64);
    }
    if if deep { c.seed % 20_011 == 7 } else { c.seed % 20_000 == 7_421 } {
        huge(r, &mut w);
        c.env.frag = None;
    }
    c.w = vec![w];
}

fn c11(c: &mut Case, r: &mut Rng) {
    let mut w = spec(r, &few(2));
    w.path = match r.below(16) {
        0 => "x".into(),
        1 => "/x.tsfile".into(),
        2 => "".into(),
        3 => "dir/".into(),
        4 => ".".into(),
        5 => "..".into(),
        6 => "/".into(),
        7 => format!("{}/f", "n".repeat(*r.pick(&[254, 255, 256, 300]))),
        8 => "n".repeat(*r.pick(&[255, 256])),
        9 => "a//b/./c/../f".into(),
        10 => "f/under/file.tsfile".into(),
        11 => "../out/f".into(),
        12 => "nul\0inside".into(),
        13 | 14 => odd_path(r),
        _ => "data/deep/f.tsfile".into(),
    };
    let mut env = calm(r);
    let fs = &mut env.fs;
    if r.pct(40) {
        fs.push(("data".into(), if r.pct(25) { NodeInit::RoDir } else { NodeInit::Dir }));
        if r.pct(60) {
            fs.push(("data/deep".into(), match r.below(4) {
                0 => NodeInit::RoDir,
                1 => NodeInit::File("in the way".into()),
                _ => NodeInit::Dir,
            }));
        }
    }
    if r.pct(50) {
        let init = match r.below(5) {
            0 => NodeInit::Dir,
            1 => NodeInit::RoFile("precious".into()),
            2 => NodeInit::Blob(r.range(1, 5000) as u32, 3),
            3 => NodeInit::File("TsFile".into()),
            _ => NodeInit::File(String::new()),
        };
        let p = match w.path.as_str() {
            "data/deep/f.tsfile" => {
                if fs.iter().any(|f| f.0 == "data/deep" && matches!(f.1, NodeInit::Dir | NodeInit::RoDir)) {
                    Some("data/deep/f.tsfile".to_string())
                } else {
                    None
                }
            }
            "f/under/file.tsfile" => Some("f".to_string()),
            "x" | "/x.tsfile" => Some(w.path.clone()),
            p if !p.contains('/') && !p.is_empty() && !p.starts_with('.') && !p.contains('\0') && p.len() < 255 => Some(w.path.clone()),
            "dir/" => Some("dir".to_string()),
            _ => None,
        };
        if let Some(p) = p {
            fs.push((p, init));
        }
    }
    fs.push(("bystander".into(), NodeInit::File("keep me".into())));
    if r.pct(15) {
        fs.push(("/sim".into(), NodeInit::RoDir));
    }
    match r.below(10) {
        0 | 1 => env.faults.push(Fault { op: OpK::Open, nth: 0, count: *r.pick(&[1, u32::MAX]), path: None, act: Act::Errno(*r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EROFS, libc::EIO])) }),
        2 => env.faults.push(Fault { op: OpK::Mkdir, nth: r.below(3) as u32, count: *r.pick(&[1, u32::MAX]), path: None, act: Act::Errno(*r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EIO])) }),
        3 | 4 => env.faults.push(Fault { op: OpK::Write, nth: r.below(3) as u32, count: *r.pick(&[1, u32::MAX]), path: None, act: Act::Errno(*r.pick(&WRITE_ERRORS)) }),
        5 => env.capacity = Some(r.below(9)),
        6 => env.max_open = Some(0),
        7 => env.faults.push(Fault { op: OpK::Stat, nth: 0, count: u32::MAX, path: None, act: Act::Errno(libc::EACCES) }),
        _ => {}
    }
    w.ops = vec![];
    if r.pct(40) {
        gen_ops(r, &mut w, &HistOpts { points: 10, ..Default::default() });
    }
    c.env = env;
    c.w = vec![w];
}

fn c12(c: &mut Case, r: &mut Rng, deep: bool) {
    c.bufs = Some(r.u64() >> 1);
    c.env = calm(r);
    let mut w = c_writer(r, deep);
    if r.pct(15) {
        // a second or third file at the same time
        for i in 1..=r.range(1, 2) {
            let mut v = c_writer(r, deep);
            if r.pct(50) {
                v.devices = w.devices.clone();
            }
            v.path = format!("more/{}.tsfile", i);
            c.w.push(v);
        }
    } else if r.pct(12) {
        // storage fails somewhere
        w.path = "c.tsfile".into();
        drop_refused(&mut w);
        single(&mut w);
        let (writes, bytes) = twin(&w, &c.env).map_or((50, 1000), |t| counts(&w, &t));
        if r.pct(50) {
            let nth = if r.pct(50) { writes.saturating_sub(1 + r.below(1 + writes.min(60) as u64) as u32) } else { r.below(writes.max(1) as u64) as u32 };
            let act = if r.pct(15) { Act::Zero } else { Act::Errno(*r.pick(&WRITE_ERRORS)) };
            c.env.faults.push(Fault { op: OpK::Write, nth, count: *r.pick(&[1, 1, 3, u32::MAX]), path: Some(".tsfile".into()), act });
        } else {
            c.env.capacity = Some(if r.pct(50) { bytes.saturating_sub(1 + r.below(60.min(bytes.max(1)))) } else { r.below(bytes + 1) });
        }
    }
    c.w.insert(0, w);
}

/// the C interface knows single points only
fn single(w: &mut WriterSpec) {
    w.ops = std::mem::take(&mut w.ops)
        .into_iter()
        .flat_map(|o| match o {
            Op::R { d, n, t, tk, vk, seed } => vec![Op::B { d, s: 0, n, t, tk, vk, seed }],
            Op::M(d, t, i) => i.into_iter().map(|(s, v)| Op::W(d, s, t, v)).collect(),
            o => vec![o],
        })
        .collect();
}

fn c_writer(r: &mut Rng, deep: bool) -> WriterSpec {
    let names = ["s", "s1", "temperature", "sensor with blanks", "a", "zz", "ss"];
    let c_name = |r: &mut Rng| -> String {
        match r.below(4) {
            0 => "ü".repeat(r.range(0, 200) as usize),
            1 => "n".repeat(*r.pick(&[0usize, 1, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 1100])),
            2 => "%s%n\\\"'`;".into(),
            _ => text(r).replace('\0', "").chars().take(300).collect(),
        }
    };
    let dn = if r.pct(70) { r.pick(&["d", "d1", "root.sg.d1", "device number one", "s"]).to_string() } else { c_name(r) };
    let sn = if r.pct(70) { r.pick(&names).to_string() } else { c_name(r) };
    let mut w = WriterSpec {
        path: if r.pct(10) { odd_path(r) } else { r.pick(&["c.tsfile", "out/c.tsfile"]).to_string() },
        devices: vec![Device { n: dn, s: vec![Series { n: sn, t: INT32, e: *r.pick(&[PLAIN, TS2DIFF]), c: r.below(2) as u8 }] }],
        sink: Sink::File,
        degree: 0,
        knobs: gen_knobs(r),
        order: 0,
        ops: vec![],
    };
    let n = points(r, deep).min(4000);
    gen_ops(r, &mut w, &HistOpts { points: n, ..Default::default() });
    single(&mut w);
    if r.pct(30) {
        // one call that must be refused
        let at = r.below(w.ops.len() as u64 + 1) as usize;
        let op = match r.below(4) {
            0 => Op::W(odd_index(r, 0, true), 0, i64::MAX - 1, crate::tsfile::Val::I(1)),
            1 => Op::W(0, odd_index(r, 0, true), i64::MAX - 1, crate::tsfile::Val::I(1)),
            2 => Op::W(0, 0, -5, crate::tsfile::Val::I(1)),
            _ => Op::W(0, 0, 0, crate::tsfile::Val::I(1)),
        };
        w.ops.insert(at, op);
        if !w.ops.iter().any(|o| matches!(o, Op::Close)) {
            w.ops.push(Op::Close);
        }
    }
    if r.below(400) == 0 {
        let e = w.devices[0].s[0].e;
        bulk(r, &mut w, 40_000);
        w.devices[0].s[0].t = INT32;
        w.devices[0].s[0].e = e;
        for o in &mut w.ops {
            if let Op::R { d, n, t, tk, vk, seed } = o.clone() {
                *o = Op::B { d, s: 0, n, t, tk, vk, seed };
            }
        }
    }
    w
}

/// texts a user may pass as an identity, an address or a name
fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => " leading and trailing ".into(),
        2 => "ein-name mit ö\n\ttab".into(),
        3 => "ABCDEF0123456789abcdef0123456789".into(),
        4 => "F".repeat(32),
        5 => "123e4567-e89b-12d3-a456-426614174000".into(),
        6 => "x".repeat(*r.pick(&[1usize, 31, 33, 64, 127, 128, 255, 256, 1000, 70_000])),
        7 => "0".into(),
        8 => "00000000000000000000000000000000".into(),
        9 => "温度\u{1F600}\0inside".into(),
        _ => {
            let n = r.range(1, 40);
            let hex = r.pct(50);
            (0..n)
                .map(|_| match hex {
                    true => *r.pick(&['0', '9', 'a', 'f', 'A', 'E', '-']),
                    _ => char::from(r.range(32, 126) as u8),
                })
                .collect()
        }
    }
}

fn identity(r: &mut Rng) -> String {
    if r.pct(40) {
        (0..32).map(|_| *r.pick(&['0', '1', '7', 'a', 'c', 'f'])).collect()
    } else {
        text(r)
    }
}

fn reply(r: &mut Rng) -> Reply {
    match r.below(21) {
        0..=3 => Reply::Code(*r.pick(&[-1, -1, -2, 0, 0, 2, -3, 100, 200, 300, 500, 257, i32::MIN, i32::MAX])),
        4 => Reply::Exception,
        5 => Reply::WrongSeq(*r.pick(&[1, -1, 7, i32::MIN])),
        6 => Reply::WrongName,
        7 => Reply::WrongType,
        8 => Reply::NoResult,
        9 => Reply::MissingCode,
        10 => Reply::MissingMsg,
        11..=13 => Reply::Truncate(r.below(200) as u32),
        14 => Reply::Reset,
        15 => Reply::Eof,
        16 => Reply::Dup,
        17 => Reply::OkStrict,
        18 => Reply::OkExtra,
        19 => Reply::Garbage(r.u64()),
        _ => Reply::CorruptStore,
    }
}

fn remote(r: &mut Rng, env: &mut Env) -> String {
    if r.pct(20) {
        // by name: one address or several, or a name nobody knows
        if !r.pct(4) {
            for _ in 0..*r.pick(&[1, 1, 2, 2, 3]) {
                env.hosts.push(r.pick(&["127.0.0.1", "::1", "10.1.2.3", "192.168.100.200", "2001:db8::17:2", "172.16.0.9"]).to_string());
            }
        }
        return r.pick(&["localhost:5555", "receiver.example.org:6667", "iotdb:65535", "a-b.c:1"]).to_string();
    }
    r.pick(&["127.0.0.1:5555", "10.1.2.3:6667", "[::1]:5555", "[2001:db8::17:2]:65535", "192.168.100.200:1"]).to_string()
}

fn session(r: &mut Rng) -> Session {
    let mut env = calm(r);
    Session {
        remote: remote(r, &mut env),
        local: if r.pct(70) { r.pick(&["127.0.0.1", "192.168.1.17", "fe80::1", "0.0.0.0", "host.example.org"]).to_string() } else { text(r) },
        any_local: false,
        more: 0,
        uuid: Some(identity(r)),
        env,
        send: vec![],
    }
}

fn net_faults(r: &mut Rng, requests: u64, sent: u64) -> NetPlan {
    let mut n = NetPlan::default();
    if r.pct(50) {
        n.frag = Some(frag(r));
    }
    if r.pct(30) {
        n.msg = text(r);
    }
    if r.pct(15) {
        n.slow = *r.pick(&[20, 900, 5_000, 31_000, 70_000, 700_000, 4_000_000]);
    }
    match r.below(12) {
        0 => {
            n.connect = vec![*r.pick(&[libc::ECONNREFUSED, libc::ETIMEDOUT, libc::EHOSTUNREACH])];
        }
        1 | 2 => {
            n.cut_send = Some(r.below(sent));
        }
        3 | 4 => {
            n.cut_recv = Some(r.below(requests * 60));
            n.cut_eof = r.pct(50);
        }
        5..=9 => {
            let k = r.below(requests) as usize;
            n.replies = vec![Reply::Ok; k];
            n.replies.push(reply(r));
            if r.pct(10) {
                n.replies.push(reply(r));
            }
        }
        _ => {}
    }
    n
}

fn bad_length(r: &mut Rng, n: &mut NetPlan, requests: u64) {
    if r.below(200) == 0 {
        let k = r.below(requests) as usize;
        n.replies.resize(k, Reply::Ok);
        n.replies.push(Reply::BadLength(r.below(3) as u8));
    }
}

fn ifaces(r: &mut Rng) -> Vec<Iface> {
    let mut v = vec![];
    for k in 0..r.below(4) {
        let n = if r.pct(20) { "lo".to_string() } else { r.pick(&["eth0", "wlan0", "br-0a1b2c", "tun0", "e"]).to_string() };
        match r.below(4) {
            0 => v.push(Iface { n, ip: None, bare: r.pct(50) }),
            _ => {
                // the kernel lists the hardware row first, addresses after it
                if r.pct(50) {
                    v.push(Iface { n: n.clone(), ip: None, bare: false });
                }
                let ip = match r.below(4) {
                    0 => "127.0.0.1".to_string(),
                    1 => format!("10.{}.0.{}", k, r.below(256)),
                    2 => std::net::Ipv6Addr::from((r.u64() as u128) << 64 | r.u64() as u128).to_string(),
                    _ => r.pick(&["fe80::1", "::1", "0.0.0.0", "255.255.255.255", "192.168.1.17"]).to_string(),
                };
                v.push(Iface { n, ip: Some(ip), bare: false });
            }
        }
    }
    v
}

/// standard output may be full or gone
fn console(r: &mut Rng, env: &mut Env) {
    if r.pct(4) {
        env.console = *r.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO]);
    }
}

fn c13(c: &mut Case, r: &mut Rng) {
    let mut s = session(r);
    if r.pct(15) {
        s.any_local = true;
        s.env.ifaces = ifaces(r);
        s.env.no_ifaces = r.pct(5);
    }
    if r.pct(20) {
        s.uuid = None;
    }
    let len = s.uuid.as_ref().map_or(32, |u| u.len()) + s.local.len();
    s.env.net = vec![net_faults(r, 1, 120 + len as u64)];
    bad_length(r, &mut s.env.net[0], 1);
    if s.env.hosts.len() > 1 && r.pct(40) {
        // not every address of the name can be reached
        let e: Vec<i32> = (0..r.range(1, s.env.hosts.len() as u64)).map(|_| *r.pick(&[libc::ECONNREFUSED, libc::ETIMEDOUT, libc::EHOSTUNREACH, libc::ENETUNREACH])).collect();
        s.env.net[0].connect = e;
    }
    if r.pct(10) {
        s.env.faults.push(Fault { op: *r.pick(&[OpK::Send, OpK::Recv]), nth: r.below(4) as u32, count: 1, path: None, act: Act::Errno(*r.pick(&[libc::EPIPE, libc::ECONNRESET, libc::ETIMEDOUT, libc::EIO])) });
    }
    console(r, &mut s.env);
    c.sessions = vec![s];
}

fn sync_schema(r: &mut Rng, max: u64) -> Vec<Device> {
    let bad_enc = r.pct(30);
    gen_schema(r, &SchemaOpts { devices: (0, max), series: (0, max + 2), bad_enc, ..Default::default() })
}

/// A schema log repeats the storage group for every series: no logs of hundreds of megabytes.
fn trim_group(t: &mut Transfer) {
    let n: usize = t.schema.iter().map(|d| d.s.len()).sum();
    if n * t.group.len() > 20_000_000 {
        t.group = "root.sg".to_string();
    }
}

fn transfer(r: &mut Rng, env: &mut Env, deep: bool) -> Transfer {
    let mut t = Transfer {
        file: r
            .pick(&["x.tsfile", "1654074550252-1-0-0.tsfile", "data/y.tsfile", "/tmp/z", "a b/c d.tsfile", "ünï.tsfile", "deep/er/and/deeper/x-1.tsfile", ".hidden", "no-extension", "0_0_x.tsfile", "0_0_0_0_1-1-0-0.tsfile", "data/mlog.bin", "1_2_x.tsfile", "a.tsfile.tsfile"])
            .to_string(),
        group: if r.pct(80) { r.pick(&["root.sg", "root", "root.a.b.c", "root.größe"]).to_string() } else { text(r) },
        schema: sync_schema(r, 4),
        order: if r.pct(50) { r.u64() >> 1 } else { 0 },
        produce: None,
        change: None,
    };
    trim_group(&mut t);
    let parent = match t.file.rfind('/') {
        Some(i) => Some(t.file[..i].to_string()),
        None => None,
    };
    match r.below(10) {
        0..=2 => {
            let mut w = spec(r, &few(2));
            w.path = t.file.clone();
            let n = r.range(1, 300);
            gen_ops(r, &mut w, &HistOpts { points: n, ..Default::default() });
            t.schema = w.devices.clone();
            t.produce = Some(w);
        }
        3 => {} // no such file
        _ => {
            if let Some(p) = parent {
                env.fs.push((p, NodeInit::Dir));
            }
            let n = match r.below(6) {
                _ if r.u64() % 5_000 == 0 => 16_777_216 + r.range(0, 1 << 20) as u32,
                _ if r.u64() % 300 == 0 => r.range(1 << 20, 3 << 20) as u32,
                0 => 0,
                1 => 1,
                5 if deep => r.range(1 << 16, 1 << 20) as u32,
                2 => *r.pick(&[127, 128, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100_000, 300_000]),
                _ => r.range(1, 40_000) as u32,
            };
            env.fs.push((t.file.clone(), NodeInit::Blob(n, r.u64() >> 1)));
        }
    }
    t
}

fn c14(c: &mut Case, r: &mut Rng, deep: bool) {
    let mut s = session(r);
    let mut ts = vec![];
    for k in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        if k > 0 && r.pct(30) {
            // the same again
            let t: &Transfer = &ts[0];
            let mut t = Transfer { produce: None, ..t.clone() };
            if r.pct(60) {
                // but the file is another one by now, often of the same length
                let n = match s.env.fs.iter().find(|f| f.0 == t.file) {
                    Some((_, NodeInit::Blob(n, _))) if r.pct(60) => Some(*n),
                    Some(_) => Some(r.range(0, 5_000) as u32),
                    None => None,
                };
                t.change = n.map(|n| (n, r.u64() >> 1));
            }
            ts.push(t);
        } else {
            let mut t = transfer(r, &mut s.env, deep);
            if ts.iter().any(|x: &Transfer| x.file == t.file) {
                // one path, one content
                t.produce = None;
            }
            ts.push(t);
        }
    }
    let t = ts[0].clone();
    let len: u64 = s.env.fs.iter().map(|f| if let NodeInit::Blob(n, _) = f.1 { n as u64 } else { 0 }).sum();
    if let Some(f) = &mut s.env.frag {
        f.max = f.max.max(7).max((len / 3_000) as u32);
    }
    let rounds = ts.len() as u64;
    let mut n = net_faults(r, 10 * rounds, 1200 * rounds + len);
    bad_length(r, &mut n, 10 * rounds);
    if r.pct(15) {
        // everything goes well
        n = NetPlan { frag: n.frag, msg: n.msg, slow: n.slow, ..Default::default() };
    }
    if let Some(f) = &mut n.frag {
        f.max = f.max.max(20).max((len / 3_000) as u32);
    }
    s.env.net = vec![n];
    if r.pct(15) {
        s.env.faults.push(Fault {
            op: *r.pick(&[OpK::Read, OpK::Read, OpK::Open, OpK::Send, OpK::Recv]),
            nth: r.below(20) as u32,
            count: *r.pick(&[1, u32::MAX]),
            path: None,
            act: Act::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::ECONNRESET])),
        });
    }
    // a digest with leading zeroes, now and then
    if r.pct(6) {
        if let Some(f) = s.env.fs.iter_mut().find(|f| f.0 == t.file) {
            if let NodeInit::Blob(n, seed) = &mut f.1 {
                *n = (*n).min(300);
                for k in 0..4000 {
                    *seed = seed.wrapping_add(k) >> 1;
                    let mut q = Rng::new(*seed);
                    let b: Vec<u8> = (0..*n).map(|_| q.u64() as u8).collect();
                    use sha2::Digest;
                    if sha2::Sha256::digest(&b)[0] < if *n % 2 == 0 { 16 } else { 1 } {
                        break;
                    }
                }
            }
        }
    }
    s.send = ts;
    console(r, &mut s.env);
    c.sessions = vec![s];
}

fn c15(c: &mut Case, r: &mut Rng, deep: bool) {
    let mut s = session(r);
    s.env.fs.push(("x".into(), NodeInit::Blob(r.range(0, 50) as u32, 1)));
    let max = match r.below(10) {
        0 => 0,
        1 if deep => 200,
        1 => 60,
        2 => 12,
        _ => 4,
    };
    let schema = sync_schema(r, max.max(1));
    let mut schema = if max == 0 { vec![] } else { schema };
    if r.below(400) == 0 {
        // hundreds to thousands of plans in one record
        schema = gen_schema(r, &SchemaOpts { devices: (1, 40), series: (20, 300), bad_enc: true, ..Default::default() });
    }
    if r.pct(20) {
        if let Some(d) = schema.last_mut() {
            let i = d.s.len();
            let long = *r.pick(&[100usize, 127, 128, 300, 5000]);
            d.s.push(Series { n: format!("{}{}", "l".repeat(long), i), t: INT64, e: PLAIN, c: 0 });
        }
    }
    let group = match r.below(6) {
        0 => format!("root.{}", "g".repeat(r.range(1, 300) as usize)),
        1 => text(r),
        _ => r.pick(&["root.sg", "root", "root.größe"]).to_string(),
    };
    s.send = vec![Transfer { file: "x".into(), group, schema, order: if r.pct(60) { r.u64() >> 1 } else { 0 }, produce: None, change: None }];
    trim_group(&mut s.send[0]);
    if r.pct(20) {
        // a second schema, after the first
        let schema = sync_schema(r, 4);
        s.send.push(Transfer { file: "x".into(), group: "root.sg2".into(), schema, order: r.u64() >> 1, produce: None, change: None });
    }
    if r.pct(50) {
        s.env.net = vec![NetPlan { frag: Some(frag(r)), ..Default::default() }];
    }
    c.sessions = vec![s];
}

fn c16(c: &mut Case, r: &mut Rng) {
    let n = r.range(1, 5);
    // one of the sessions may be several senders that are started at the same time
    let crowd = if r.pct(30) { r.below(n.min(3)) } else { n };
    for i in 0..n {
        let mut s = session(r);
        s.uuid = if r.pct(15) { Some(identity(r)) } else { None };
        if i == 0 {
            match r.below(6) {
                0 => {
                    let stored = match r.below(4) {
                        0 | 1 => "00112233445566778899aabbccddeeff".into(),
                        2 => r.pick(&["0123456789ABCDEF0123456789abcdef", "123e4567-e89b-12d3-a456-426614174000", "ffffffffffffffffffffffffffffffff", "someone chose this identity by hand, long ago"]).to_string(),
                        // two senders that replace a damaged identity are not claimed to agree
                        _ if crowd < n => "00112233445566778899aabbccddeeff".into(),
                        _ => (0..r.range(0, 31)).map(|_| 'b').collect(),
                    };
                    s.env.fs.push(("uuid.lock".into(), NodeInit::File(stored)));
                }
                1 => s.env.fs.push(("bystander".into(), NodeInit::File("x".into()))),
                2 if r.pct(30) => s.env.fs.push(("/sim".into(), NodeInit::RoDir)),
                _ => {}
            }
        }
        if i == crowd {
            s.more = r.range(1, 3) as u32;
            s.uuid = None;
            c.schedule = Some(Schedule_random(r));
            if r.pct(20) {
                s.env.crash = Some(Crash { call: r.below(12) as u32, bytes: *r.pick(&[0, 1, 16, 31, 32]) });
            }
            c.sessions.push(s);
            continue;
        }
        match r.below(10) {
            0..=3 => {
                s.env.crash = Some(Crash { call: r.below(6) as u32, bytes: *r.pick(&[0, 1, 7, 16, 31, 32, 1000]) });
            }
            4 => s.env.capacity = Some(*r.pick(&[0, 1, 16, 31, 32])),
            5 => s.env.faults.push(Fault {
                op: *r.pick(&[OpK::Open, OpK::Write, OpK::Read, OpK::Rename, OpK::Link, OpK::Unlink, OpK::Fsync, OpK::Stat]),
                nth: r.below(3) as u32,
                count: *r.pick(&[1, 2, u32::MAX]),
                path: None,
                act: Act::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE])),
            }),
            _ => {}
        }
        if r.pct(20) {
            s.env.net = vec![net_faults(r, 1, 160)];
        }
        console(r, &mut s.env);
        c.sessions.push(s);
    }
}

fn c17(c: &mut Case, r: &mut Rng, deep: bool) {
    match r.below(10) {
        0..=2 => c05(c, r, deep),
        3 => c11(c, r),
        4 => c08(c, r, deep),
        5 => {
            let mut w = c_writer(r, deep);
            drop_refused(&mut w);
            single(&mut w);
            c.bufs = Some(r.u64() >> 1);
            c.env = calm(r);
            c.w = vec![w];
        }
        k => {
            match k {
                6 => c13(c, r),
                7 => {
                    c16(c, r);
                    let k = r.below(c.sessions.len() as u64) as usize;
                    let mut s = c.sessions.remove(k);
                    s.more = 0;
                    s.env.crash = None;
                    c.schedule = None;
                    c.sessions = vec![s];
                }
                _ => c14(c, r, deep),
            }
            for t in &mut c.sessions[0].send {
                t.produce = None;
                t.change = None;
            }
        }
    }
}

fn c18(c: &mut Case, r: &mut Rng, deep: bool) {
    let n = r.range(1, 3);
    let mut fs: Vec<(String, NodeInit)> = vec![];
    for i in 0..n {
        let mut k = Case::default();
        c14(&mut k, r, deep);
        let mut s = k.sessions.remove(0);
        if r.pct(60) {
            s.uuid = None;
        }
        for t in &mut s.send {
            t.produce = None;
            t.change = None;
        }
        if r.pct(40) {
            s.env.crash = Some(Crash { call: r.below(8) as u32, bytes: *r.pick(&[0, 1, 16, 31, 32]) });
        }
        if r.pct(15) {
            s.env.faults.push(Fault {
                op: *r.pick(&[OpK::Open, OpK::Write, OpK::Read, OpK::Rename, OpK::Link, OpK::Unlink, OpK::Stat]),
                nth: r.below(4) as u32,
                count: *r.pick(&[1, 2, u32::MAX]),
                path: None,
                act: Act::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE])),
            });
        }
        for f in std::mem::take(&mut s.env.fs) {
            if !fs.iter().any(|g| g.0 == f.0) {
                fs.push(f);
            }
        }
        // files as a user has them lying about, near the ones that are sent
        for _ in 0..r.below(4) {
            let near = s.send.first().map_or("x".to_string(), |t| t.file.clone());
            let name = match r.below(6) {
                0 => "mlog.bin".to_string(),
                1 => format!("{}.resource", near),
                2 => format!("{}.tmp", near),
                3 => format!("0_0_{}", near.rsplit('/').next().unwrap()),
                4 => "uuid".into(),
                _ => "notes.txt".into(),
            };
            if !fs.iter().any(|g| g.0 == name) {
                fs.push((name, NodeInit::File("keep this".into())));
            }
        }
        if i == 0 && r.pct(35) {
            let stored = match r.below(4) {
                0 => "short".into(),
                1 => String::new(),
                _ => "00112233445566778899aabbccddeeff".to_string(),
            };
            fs.push(("uuid.lock".into(), NodeInit::File(stored)));
        }
        c.sessions.push(s);
    }
    c.sessions[0].env.fs = fs;
}
