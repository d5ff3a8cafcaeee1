//! C12: the C interface, called as C code calls it.
use crate::case::*;
use crate::exec::*;
use crate::os;
use crate::props::*;
use crate::rng::Rng;
use crate::scenario::*;
const PLAIN: u8 = 0;
const TS2DIFF: u8 = 4;
use crate::tsfile::{Pt, Val, FLOAT, INT32, INT64};
use crate::world::World;
use std::ffi::CString;
use std::os::raw::c_char;
use std::sync::Arc;

#[derive(Default, Clone, Debug)]
struct COut {
    calls: u32,
    /// what became of the refused call: (survived, wrote a diagnostic)
    refused: Option<(bool, bool)>,
    text: String,
    /// a call that must be refused whatever the history
    hopeless: Option<(&'static str, bool, bool)>,
}

/// A call with arguments that mean nothing, in a process of its own
fn hopeless(r: &mut Rng, text: &mut String) -> (&'static str, bool, bool) {
    let none = std::ptr::null::<c_char>();
    let bad = [&b"\xff\xfe\0"[..], b"d\xff\0", b"\xc3\0", b"a\xe6\xb8\0", b"\xed\xa0\x80\0", b"ok\x80tail\0"];
    let bad = r.pick(&bad).as_ptr() as *const c_char;
    let (d, s, p) = (c"d".as_ptr(), c"s".as_ptr(), c"hopeless.tsfile".as_ptr());
    let odd = *r.pick(&[none, bad]);
    let code = |r: &mut Rng, good: &[u8]| loop {
        let c = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 255]);
        if !good.contains(&c) {
            return c;
        }
    };
    let kind = r.below(11);
    let (t, e, z) = (code(r, &[INT32, INT64, FLOAT]), code(r, &[PLAIN, TS2DIFF]), code(r, &[0, 1]));
    let time = *r.pick(&[-1, i64::MIN, -1000]);
    let wrong = *r.pick(&[INT64, FLOAT]);
    let schema = |t| tsfile_writer_c::schema_simple(d, s, t, PLAIN, 0);
    let open = |t| tsfile_writer_c::file_writer_new(p, schema(t));
    let what = [
        "schema_simple without a valid device name",
        "schema_simple without a valid measurement name",
        "schema_simple with an unknown data type",
        "schema_simple with an unknown encoding",
        "schema_simple with an unknown compression",
        "file_writer_new without a valid path",
        "file_writer_new without a schema",
        "file_writer_new for a directory",
        "file_writer_write_int32 without a writer",
        "file_writer_write_int32 to a series of another type",
        "file_writer_write_int32 at a negative time",
    ][kind as usize];
    let (survived, said) = in_child(text, || {
        match kind {
            0 => drop(tsfile_writer_c::schema_simple(odd, s, INT32, PLAIN, 0)),
            1 => drop(tsfile_writer_c::schema_simple(d, odd, INT32, PLAIN, 0)),
            2 => drop(tsfile_writer_c::schema_simple(d, s, t, PLAIN, 0)),
            3 => drop(tsfile_writer_c::schema_simple(d, s, INT32, e, 0)),
            4 => drop(tsfile_writer_c::schema_simple(d, s, INT32, PLAIN, z)),
            5 => drop(tsfile_writer_c::file_writer_new(odd, schema(INT32))),
            6 => drop(tsfile_writer_c::file_writer_new(p, std::ptr::null_mut())),
            7 => drop(tsfile_writer_c::file_writer_new(c"/".as_ptr(), schema(INT32))),
            8 => drop(tsfile_writer_c::file_writer_write_int32(std::ptr::null_mut(), d, s, 1, 1)),
            9 => drop(tsfile_writer_c::file_writer_write_int32(open(wrong), d, s, 1, 1)),
            _ => drop(tsfile_writer_c::file_writer_write_int32(open(INT32), d, s, time, 1)),
        };
    });
    (what, survived, said)
}

/// One file being written through the C interface
struct Slot<'a> {
    spec: &'a WriterSpec,
    calls: Vec<(u16, u16, i64, i32)>,
    at: usize,
    md: Model<'a>,
    w: Option<*mut tsfile_writer::writer::tsfile_writer::TsFileWriter<'static, tsfile_writer::writer::WriteWrapper<std::fs::File>>>,
    sch: usize,
    done: bool,
}

/// A caller owned buffer that is overwritten as soon as a call returns
struct Buf(Vec<u8>);
impl Buf {
    fn new() -> Buf {
        Buf(vec![0; 2400])
    }
    fn set(&mut self, s: &str) -> *const c_char {
        let b = s.as_bytes();
        self.0[..b.len()].copy_from_slice(b);
        self.0[b.len()] = 0;
        self.0.as_ptr() as *const c_char
    }
    fn scribble(&mut self, with: u8) {
        let n = self.0.len() - 1;
        self.0[..n].fill(with);
        self.0[n] = 0;
    }
}

fn run_c(specs: &[WriterSpec], bufs: u64) -> COut {
    let mut out = COut::default();
    let mut r = Rng::new(bufs);
    if r.pct(12) {
        out.hopeless = Some(hopeless(&mut r, &mut out.text));
    }
    let names: Vec<[CString; 3]> = specs
        .iter()
        .map(|w| [w.devices[0].n.as_str(), w.devices[0].s[0].n.as_str(), w.path.as_str()].map(|s| CString::new(s).unwrap()))
        .collect();
    // writers with the same schema may be given the same handle
    let mut schemas = vec![];
    let mut slots: Vec<Slot> = vec![];
    for (i, w) in specs.iter().enumerate() {
        let same = (0..i).find(|&j| specs[j].devices == w.devices);
        let sch = match same {
            Some(j) if r.pct(70) => slots[j].sch,
            _ => {
                let ser = &w.devices[0].s[0];
                schemas.push(Some(tsfile_writer_c::schema_simple(names[i][0].as_ptr(), names[i][1].as_ptr(), ser.t, ser.e, ser.c)));
                schemas.len() - 1
            }
        };
        let mut calls = vec![];
        for_each_call(w, |c| {
            if let Call::W(d, s, t, Val::I(v)) = c {
                calls.push((d, s, t, v));
            }
            !matches!(c, Call::Close)
        });
        let mut md = Model::new(w);
        md.keep_points = false;
        slots.push(Slot { spec: w, calls, at: 0, md, w: None, sch, done: false });
    }
    let mut pool: Vec<(Buf, Buf)> = (0..3).map(|_| (Buf::new(), Buf::new())).collect();
    let early_free = r.pct(50);
    let mut tried = 0;
    let mut cur = 0;
    while slots.iter().any(|s| !s.done) {
        if slots[cur].done || slots.len() > 1 && r.pct(40) {
            let live: Vec<usize> = (0..slots.len()).filter(|&i| !slots[i].done).collect();
            cur = *r.pick(&live);
        }
        os::yield_now();
        let spec = slots[cur].spec;
        crate::exec::apply_knobs(&spec.knobs);
        let w = match slots[cur].w {
            Some(w) => w,
            None => {
                let k = slots[cur].sch;
                slots[cur].w = Some(tsfile_writer_c::file_writer_new(names[cur][2].as_ptr(), schemas[k].unwrap()));
                if early_free && !slots.iter().any(|s| s.sch == k && s.w.is_none()) {
                    tsfile_writer_c::schema_free(schemas[k].take().unwrap());
                }
                continue;
            }
        };
        if slots[cur].at == slots[cur].calls.len() {
            tsfile_writer_c::file_writer_close(w);
            slots[cur].done = true;
            continue;
        }
        let (di, si, t, v) = slots[cur].calls[slots[cur].at];
        slots[cur].at += 1;
        let k = r.below(3) as usize;
        let dev = &spec.devices[0];
        let dn = spec.devices.get(di as usize).map_or_else(|| odd_device(&spec.devices, di), |x| x.n.clone());
        let sn = dev.s.get(si as usize).map_or_else(|| odd_series(&spec.devices, 0, si), |x| x.n.clone());
        let refused = slots[cur].md.apply(&Call::W(di, si, t, Val::I(v))).errors != 0;
        let (mut a, mut b) = (pool[k].0.set(&dn), pool[k].1.set(&sn));
        if refused {
            tried += 1;
            if tried > 4 {
                continue;
            }
            // names that are none at all
            let odd = match r.below(3) {
                0 => std::ptr::null(),
                1 => b"\xff\xfe\0".as_ptr() as *const c_char,
                _ => std::ptr::null::<u8>().wrapping_add(1) as *const c_char,
            };
            if odd as usize != 1 {
                if di >= NEAR {
                    a = odd;
                }
                if si >= NEAR {
                    b = odd;
                }
            }
            out.refused = Some(in_child(&mut out.text, || {
                tsfile_writer_c::file_writer_write_int32(w, a, b, t, v);
            }));
            if out.refused.unwrap().0 {
                return out;
            }
        } else {
            slots[cur].w = Some(tsfile_writer_c::file_writer_write_int32(w, a, b, t, v));
        }
        out.calls += 1;
        let fill = *r.pick(&[0u8, b'z', 0xff, b's']);
        pool[k].0.scribble(fill);
        pool[k].1.scribble(fill);
    }
    for s in schemas.into_iter().flatten() {
        tsfile_writer_c::schema_free(s);
    }
    crate::exec::apply_knobs(&KnobSet::default());
    out
}

/// A history without calls that must be refused, for its own sake
pub fn plain_run(specs: &[WriterSpec], bufs: u64) -> u64 {
    run_c(specs, bufs).calls as u64
}

/// The points of a history without calls that must be refused
fn accepted(spec: &WriterSpec) -> Vec<Vec<Vec<Pt>>> {
    let mut md = Model::new(spec);
    for_each_call(spec, |c| {
        if !matches!(c, Call::Close) {
            md.apply(&c);
        }
        !matches!(c, Call::Close)
    });
    md.acc
}

/// The whole history on failing storage, in a process of its own: it ends with a diagnostic,
/// or every call returned and the file is as it should be.
fn run_faulty(spec: &WriterSpec, bufs: u64) -> COut {
    let mut out = COut::default();
    out.refused = Some(in_child(&mut out.text, || {
        run_c(std::slice::from_ref(spec), bufs);
        let bytes = os::world(|w| w.file(&spec.path).cloned()).unwrap_or_default();
        let e = open_closed(spec, &bytes).and_then(|f| same_content(spec, &accepted(spec), &f));
        if let Err(e) = e {
            os::outside(|| eprintln!("FILE: {}", e));
        }
    }));
    out
}

/// Does the call return (0: survived) and does it say something on stderr? (survived, diagnostic)
fn in_child(text: &mut String, f: impl FnOnce()) -> (bool, bool) {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return (false, true);
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::dup2(fds[1], 2);
            os::pass_stderr(true);
            f();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut said = vec![];
        let mut status = 0;
        os::outside(|| {
            let mut b = [0u8; 4096];
            loop {
                let n = libc::read(fds[0], b.as_mut_ptr() as *mut libc::c_void, b.len());
                if n <= 0 {
                    break;
                }
                said.extend_from_slice(&b[..n as usize]);
            }
            libc::waitpid(pid, &mut status, 0);
            libc::close(fds[0]);
        });
        let survived = libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0;
        *text = String::from_utf8_lossy(&said).into_owned();
        (survived, !said.is_empty())
    }
}

fn faulty(case: &Case, m: &mut Meter) -> V {
    let bufs = case.bufs.unwrap_or(1);
    let sp = case.w[0].clone();
    let e = execute(World::new(&case.env), None, vec![Box::new(move || run_faulty(&sp, bufs))]).ok_or(HANG)?;
    let out = &e.outs[0];
    let (survived, said) = out.refused.unwrap();
    let mut x = crate::rng::Sig::new();
    x.add(survived as u64 * 2 + said as u64);
    let sig = note(m, &e.world, x.0);
    m.nontrivial.insert(sig);
    m.calls += 1;
    if let Some(p) = out.text.find("FILE: ") {
        return Err(format!("storage failed, every C call returned, but {}", out.text[p + 6..].trim()));
    }
    if !survived && !said {
        return Err("a C call that met a storage failure ended the process without a diagnostic".into());
    }
    m.probe(if survived { "histories on failing storage that completed" } else { "histories on failing storage that stopped with a diagnostic" });
    m.checks += 1;
    Ok(())
}

pub fn c12(case: &Case, m: &mut Meter) -> V {
    if !case.env.faults.is_empty() || case.env.capacity.is_some() {
        return faulty(case, m);
    }
    let bufs = case.bufs.unwrap_or(1);
    let sp = case.w.clone();
    let e = execute(World::new(&case.env), None, vec![Box::new(move || run_c(&sp, bufs))]).ok_or(HANG)?;
    let out = &e.outs[0];
    let sig = note(m, &e.world, out.calls as u64);
    m.calls += out.calls as u64;
    if let Some((what, survived, said)) = out.hopeless {
        m.probe("calls without meaning run in a child process");
        if survived {
            return Err(format!("{} returned to the caller", what));
        }
        if !said || out.text.contains("unsafe precondition") {
            return Err(format!("{} ended the process without a diagnostic", what));
        }
    }
    if let Some((survived, said)) = out.refused {
        m.probe("refused calls run in a child process");
        if survived {
            return Err(format!("call {}: a write that cannot be applied returned to the caller", out.calls));
        }
        if !said {
            return Err(format!("call {}: a write that cannot be applied ended the process without a diagnostic", out.calls));
        }
    }
    for w in &case.w {
        twin(w, case, &e.world, m)?;
    }
    if case.w.len() > 1 {
        m.probe("several files at a time through C");
    }
    if e.world.open_files() != 0 {
        return Err("the C interface leaves a file open after close".into());
    }
    m.nontrivial.insert(sig);
    m.checks += 1;
    Ok(())
}

/// the same schema and points through the Rust interface
fn twin(spec: &WriterSpec, case: &Case, c: &World, m: &mut Meter) -> V {
    let mut md = Model::new(spec);
    md.keep_points = false;
    let mut ops = vec![];
    for op in &spec.ops {
        if matches!(op, Op::Close) {
            break;
        }
        let mut bad = false;
        let mut good = vec![];
        for_each_in(&spec.devices, std::slice::from_ref(op), |c| {
            if md.apply(&c).errors != 0 {
                bad = true;
            } else if let Call::W(d, s, t, v) = c {
                good.push(Op::W(d, s, t, v));
            }
            true
        });
        if bad {
            ops.extend(good);
        } else {
            ops.push(op.clone());
        }
    }
    ops.push(Op::Close);
    let twin = Arc::new(WriterSpec { ops, ..spec.clone() });
    let r = run_spec(&twin, &case.env, Sample::No, m)?;
    let a = actual(&twin, &r.out, false);
    m.points += a.points;
    healthy(&r, &a)?;
    if let Some(d) = &a.deviation {
        return Err(d.clone());
    }
    let b = c.file(&spec.path).cloned().unwrap_or_default();
    if b != r.bytes {
        let what = match open_closed(spec, &b).and_then(|f| same_content(&twin, &a.acc, &f)) {
            Ok(()) => "same points".to_string(),
            Err(e) => e,
        };
        return Err(format!(
            "the file written through C differs from the one written through Rust: {} bytes instead of {}, first difference at {} ({})",
            b.len(),
            r.bytes.len(),
            first_diff(&b, &r.bytes),
            what
        ));
    }
    let f = open_closed(spec, &b)?;
    same_content(&twin, &a.acc, &f)?;
    if f.data.groups.len() > 1 {
        m.probe("files with several chunk groups");
    }
    Ok(())
}
