//! Delta debugging of a failing case; every candidate is judged in a fresh process.
use crate::case::*;
use crate::master::{run_one, OneRun, Verdict};
use crate::plan::*;
use crate::scenario::*;
use crate::sched::Schedule;
use std::time::{Duration, Instant};

struct Min {
    best: Case,
    run: OneRun,
    known: Vec<(String, String)>,
    class: String,
    tried: u32,
    until: Instant,
    limit: Duration,
}

/// What kind of violation a message stands for: its first words without names and numbers.
/// A smaller case has to fail in the same way.
fn class(m: &str) -> String {
    m.split(|c: char| c.is_whitespace() || c == '(' || c == ':' || c == ',')
        .filter(|w| w.len() > 1 && w.chars().all(|c| c.is_ascii_alphabetic() || c == '-'))
        .take(3)
        .collect::<Vec<_>>()
        .join(" ")
}

const MAX_TRIES: u32 = 1500;

impl Min {
    fn over(&self) -> bool {
        self.tried >= MAX_TRIES || Instant::now() > self.until
    }

    /// first failing candidate becomes the best; candidates are judged in parallel
    fn first(&mut self, cands: Vec<Case>) -> bool {
        let mut it = cands.into_iter().filter(|c| *c != self.best).collect::<Vec<_>>().into_iter();
        loop {
            if self.over() {
                return false;
            }
            let group: Vec<Case> = it.by_ref().take(8).collect();
            if group.is_empty() {
                return false;
            }
            self.tried += group.len() as u32;
            let limit = self.limit;
            let hs: Vec<_> = group
                .into_iter()
                .map(|c| {
                    std::thread::spawn(move || {
                        let r = run_one(&c, limit);
                        (c, r)
                    })
                })
                .collect();
            let rs: Vec<(Case, OneRun)> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            for (c, r) in rs {
                if let Verdict::Broken(m) = &r.verdict {
                    if class(m) == self.class && !m.starts_with("HARNESS") && !self.known.iter().any(|k| m.contains(&k.0)) {
                        self.best = c;
                        self.run = r;
                        return true;
                    }
                }
            }
        }
    }

    fn try_all(&mut self, f: impl Fn(&Case) -> Vec<Case>) -> bool {
        let mut any = false;
        while !self.over() && self.first(f(&self.best)) {
            any = true;
        }
        any
    }

    /// remove ranges of a list
    fn shrink_list<T: Clone>(&mut self, get: impl Fn(&Case) -> Vec<T>, set: impl Fn(&mut Case, Vec<T>)) -> bool {
        let mut any = false;
        let mut size = get(&self.best).len();
        while size > 0 && !self.over() {
            let l = get(&self.best);
            let mut cands = vec![];
            let mut at = 0;
            while at < l.len() {
                let mut k = l.clone();
                k.drain(at..(at + size).min(l.len()));
                let mut c = self.best.clone();
                set(&mut c, k);
                cands.push(c);
                at += size;
            }
            if self.first(cands) {
                any = true;
                size = size.min(get(&self.best).len());
            } else {
                size /= 2;
            }
        }
        any
    }
}

fn edits(c: &Case, list: Vec<Box<dyn Fn(&mut Case)>>) -> Vec<Case> {
    list.iter()
        .map(|f| {
            let mut k = c.clone();
            f(&mut k);
            k
        })
        .filter(|k| k != c)
        .collect()
}

fn env_edits(e: &Env) -> Vec<Env> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Env)| {
        let mut k = e.clone();
        f(&mut k);
        if k != *e {
            out.push(k);
        }
    };
    push(&|e| {
        let keep = e.fs.clone();
        *e = Env { fs: keep, hash_seed: 1, ..Default::default() }
    });
    push(&|e| e.frag = None);
    push(&|e| e.clock = 0);
    push(&|e| e.clock_jump = 0);
    push(&|e| e.capacity = None);
    push(&|e| e.freed_at = None);
    push(&|e| e.crash = None);
    push(&|e| e.max_open = None);
    push(&|e| e.no_ifaces = false);
    push(&|e| e.log = false);
    push(&|e| e.console = 0);
    for k in 0..e.ifaces.len() {
        push(&|e| {
            e.ifaces.remove(k);
        });
    }
    for k in 0..e.hosts.len() {
        push(&|e| {
            e.hosts.remove(k);
        });
    }
    push(&|e| e.hash_seed = 1);
    push(&|e| e.net = vec![]);
    push(&|e| {
        if let Some(f) = &mut e.frag {
            f.eintr = 0
        }
    });
    push(&|e| {
        if let Some(f) = &mut e.frag {
            f.short = 0
        }
    });
    push(&|e| {
        if let Some(f) = &mut e.frag {
            f.short = f.short.min(1000).max(if f.short > 0 { 1000 } else { 0 });
            f.max = 1;
            f.seed = 1
        }
    });
    push(&|e| {
        if let Some(c) = &mut e.capacity {
            *c = *c / 2
        }
    });
    push(&|e| {
        if let Some(c) = &mut e.capacity {
            *c = c.saturating_sub(1)
        }
    });
    push(&|e| {
        if let Some(c) = &mut e.crash {
            c.call /= 2
        }
    });
    push(&|e| {
        if let Some(c) = &mut e.crash {
            c.call = c.call.saturating_sub(1)
        }
    });
    push(&|e| {
        if let Some(c) = &mut e.crash {
            c.bytes = 0
        }
    });
    for i in 0..e.faults.len() {
        push(&|e| {
            e.faults.remove(i);
        });
        push(&|e| e.faults[i].count = 1);
        push(&|e| e.faults[i].nth /= 2);
        push(&|e| e.faults[i].nth = e.faults[i].nth.saturating_sub(1));
        push(&|e| {
            if let Act::Errno(x) = &mut e.faults[i].act {
                *x = libc::EIO
            }
        });
    }
    for i in 0..e.fs.len() {
        push(&|e| {
            e.fs.remove(i);
        });
        push(&|e| {
            if let NodeInit::Blob(n, s) = &mut e.fs[i].1 {
                *n /= 2;
                *s = 1;
            }
        });
    }
    for i in 0..e.net.len() {
        push(&|e| e.net[i].frag = None);
        push(&|e| e.net[i].cut_send = None);
        push(&|e| e.net[i].cut_recv = None);
        push(&|e| e.net[i].cut_eof = false);
        push(&|e| e.net[i].connect = vec![]);
        for k in 0..e.net[i].replies.len() {
            push(&|e| e.net[i].replies[k] = Reply::Ok);
            push(&|e| {
                if let Reply::Code(x) = &mut e.net[i].replies[k] {
                    *x = -1
                }
            });
        }
        push(&|e| {
            while e.net[i].replies.last() == Some(&Reply::Ok) {
                e.net[i].replies.pop();
            }
        });
    }
    out
}

fn used(ops: &[Op], d: usize, s: Option<usize>) -> bool {
    ops.iter().any(|o| match o {
        Op::W(a, b, ..) => *a as usize == d && s.map_or(true, |s| *b as usize == s),
        Op::M(a, _, i) => *a as usize == d && s.map_or(true, |s| i.iter().any(|x| x.0 as usize == s)),
        Op::B { d: a, s: b, .. } => *a as usize == d && s.map_or(true, |s| *b as usize == s),
        Op::R { d: a, .. } => *a as usize == d,
        Op::Close => false,
    })
}

fn drop_device(ops: &mut Vec<Op>, d: usize) {
    ops.retain(|o| match o {
        Op::W(a, ..) | Op::M(a, ..) => *a as usize != d,
        Op::B { d: a, .. } | Op::R { d: a, .. } => *a as usize != d,
        Op::Close => true,
    });
    for o in ops {
        match o {
            Op::W(a, ..) | Op::M(a, ..) if *a != UNKNOWN && (*a as usize) > d && (*a as usize) < 50000 => *a -= 1,
            Op::B { d: a, .. } | Op::R { d: a, .. } if (*a as usize) > d => *a -= 1,
            _ => {}
        }
    }
}

fn drop_series(ops: &mut Vec<Op>, d: usize, s: usize) {
    ops.retain(|o| match o {
        Op::W(a, b, ..) => !(*a as usize == d && *b as usize == s),
        Op::B { d: a, s: b, .. } => !(*a as usize == d && *b as usize == s),
        _ => true,
    });
    let sub = |b: &mut u16| {
        if (*b as usize) > s && (*b as usize) < 50000 {
            *b -= 1
        }
    };
    for o in ops {
        match o {
            Op::W(a, b, ..) if *a as usize == d => sub(b),
            Op::B { d: a, s: b, .. } if *a as usize == d => sub(b),
            Op::M(a, _, i) if *a as usize == d => {
                i.retain(|x| x.0 as usize != s);
                i.iter_mut().for_each(|x| sub(&mut x.0));
            }
            _ => {}
        }
    }
}

fn spec_edits(w: &WriterSpec) -> Vec<WriterSpec> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut WriterSpec)| {
        let mut k = w.clone();
        f(&mut k);
        if k != *w {
            out.push(k);
        }
    };
    push(&|w| {
        w.knobs = KnobSet::default();
        w.order = 0;
        w.degree = 0;
    });
    push(&|w| w.order = 0);
    push(&|w| w.degree = 0);
    push(&|w| w.knobs.group = None);
    push(&|w| w.knobs.first = None);
    push(&|w| w.knobs.page = None);
    push(&|w| w.knobs.points = None);
    push(&|w| w.knobs.pcheck = None);
    push(&|w| w.knobs.pmin = None);
    push(&|w| w.path = "out.tsfile".into());
    push(&|w| {
        if w.sink != Sink::File {
            w.sink = Sink::File
        }
    });
    push(&|w| {
        if let Sink::Raw(h) = &mut w.sink {
            *h = 0
        }
    });
    for d in (0..w.devices.len()).rev() {
        if w.devices.len() > 1 {
            push(&|w| {
                w.devices.remove(d);
                drop_device(&mut w.ops, d);
            });
        }
        if w.devices.len() <= 40 {
            for s in (0..w.devices[d].s.len()).rev() {
                if w.devices[d].s.len() > 1 {
                    push(&|w| {
                        w.devices[d].s.remove(s);
                        drop_series(&mut w.ops, d, s);
                    });
                }
            }
        }
    }
    if w.devices.len() > 4 {
        // halves of the devices
        for part in [2usize, 4, 8] {
            let n = w.devices.len() / part;
            for k in 0..part {
                push(&|w| {
                    for _ in 0..n {
                        let d = (k * n).min(w.devices.len() - 1);
                        if w.devices.len() > 1 {
                            w.devices.remove(d);
                            drop_device(&mut w.ops, d);
                        }
                    }
                });
            }
        }
    }
    for d in 0..w.devices.len().min(20) {
        push(&|w| w.devices[d].n = format!("d{}", d));
        if w.devices[d].s.len() > 6 {
            for part in [2usize, 4] {
                let n = w.devices[d].s.len() / part;
                for k in 0..part {
                    push(&|w| {
                        for _ in 0..n {
                            let s = (k * n).min(w.devices[d].s.len() - 1);
                            w.devices[d].s.remove(s);
                            drop_series(&mut w.ops, d, s);
                        }
                    });
                }
            }
        }
        for s in 0..w.devices[d].s.len().min(20) {
            push(&|w| w.devices[d].s[s].n = format!("s{}", s));
            push(&|w| w.devices[d].s[s].c = 0);
            push(&|w| w.devices[d].s[s].e = 0);
        }
    }
    for (i, o) in w.ops.iter().enumerate().take(60) {
        match o {
            Op::B { n, .. } | Op::R { n, .. } => {
                let n = *n;
                for k in [1, n / 8, n / 2, n - n / 4, n - n / 16, n.saturating_sub(1)] {
                    if k < n && k > 0 {
                        push(&|w| match &mut w.ops[i] {
                            Op::B { n, .. } | Op::R { n, .. } => *n = k,
                            _ => {}
                        });
                    }
                }
                push(&|w| match &mut w.ops[i] {
                    Op::B { vk, .. } | Op::R { vk, .. } => *vk = Vk::Small,
                    _ => {}
                });
                push(&|w| match &mut w.ops[i] {
                    Op::B { tk, .. } | Op::R { tk, .. } => *tk = Tk::Even(1),
                    _ => {}
                });
                push(&|w| match &mut w.ops[i] {
                    Op::B { seed, .. } | Op::R { seed, .. } => *seed = 1,
                    _ => {}
                });
                push(&|w| match &mut w.ops[i] {
                    Op::B { t, .. } | Op::R { t, .. } => *t = 0,
                    _ => {}
                });
            }
            Op::M(_, _, items) => {
                for k in 0..items.len().min(12) {
                    push(&|w| {
                        if let Op::M(_, _, items) = &mut w.ops[i] {
                            items.remove(k);
                        }
                    });
                }
            }
            _ => {}
        }
    }
    let _ = used;
    out
}

pub fn minimise(case: Case, run: OneRun, known: &[(String, String)]) -> (Case, OneRun, u32) {
    let slow = Instant::now();
    let probe = run_one(&case, Duration::from_secs(100));
    let took = slow.elapsed();
    let run = if matches!(probe.verdict, Verdict::Broken(_)) { probe } else { run };
    let mut m = Min {
        class: if let Verdict::Broken(t) = &run.verdict { class(t) } else { String::new() },
        best: case,
        run,
        known: known.to_vec(),
        tried: 0,
        until: Instant::now() + Duration::from_secs(75),
        limit: (took * 4).max(Duration::from_secs(3)),
    };
    if took > Duration::from_secs(20) {
        return (m.best, m.run, 0); // a hang is kept as it is
    }
    // a recorded schedule instead of a seeded one
    if matches!(m.best.schedule, Some(Schedule::Random { .. })) && !m.run.trace.is_empty() {
        let mut c = m.best.clone();
        c.schedule = Some(Schedule::Explicit(m.run.trace.clone()));
        m.first(vec![c]);
    }
    loop {
        let mut any = false;
        // fewer runs
        any |= m.shrink_list(|c| c.variants.clone(), |c, v| c.variants = v);
        any |= m.shrink_list(|c| c.sessions.clone(), |c, v| if !v.is_empty() { c.sessions = v });
        if m.best.prop == "C09" || m.best.prop == "C12" {
            any |= m.try_all(|c| {
                (0..c.w.len())
                    .filter(|_| c.w.len() > if c.prop == "C12" { 1 } else { 2 })
                    .map(|i| {
                        let mut k = c.clone();
                        k.w.remove(i);
                        if let Some(Schedule::Explicit(v)) = &mut k.schedule {
                            v.retain(|x| (x.1 as usize) < c.w.len() - 1);
                        }
                        k
                    })
                    .collect()
            });
        }
        // shorter histories
        for i in 0..m.best.w.len() {
            any |= m.shrink_list(|c| c.w.get(i).map_or(vec![], |w| w.ops.clone()), |c, v| {
                if i < c.w.len() {
                    c.w[i].ops = v
                }
            });
            any |= m.try_all(|c| {
                spec_edits(&c.w[i])
                    .into_iter()
                    .map(|w| {
                        let mut k = c.clone();
                        k.w[i] = w;
                        k
                    })
                    .collect()
            });
        }
        any |= m.try_all(|c| {
            env_edits(&c.env)
                .into_iter()
                .map(|e| {
                    let mut k = c.clone();
                    k.env = e;
                    k
                })
                .collect()
        });
        for i in 0..m.best.variants.len() {
            any |= m.try_all(|c| {
                let mut out: Vec<Case> = env_edits(&c.variants[i].env)
                    .into_iter()
                    .map(|e| {
                        let mut k = c.clone();
                        k.variants[i].env = e;
                        k
                    })
                    .collect();
                out.extend(edits(
                    c,
                    vec![
                        Box::new(move |c| c.variants[i].order = c.w[0].order),
                        Box::new(move |c| c.variants[i].path = c.w[0].path.clone()),
                        Box::new(move |c| c.variants[i].raw = false),
                        Box::new(move |c| c.variants[i].refused = 0),
                    ],
                ));
                out
            });
        }
        for i in 0..m.best.sessions.len() {
            any |= m.try_all(|c| {
                let mut out: Vec<Case> = env_edits(&c.sessions[i].env)
                    .into_iter()
                    .map(|e| {
                        let mut k = c.clone();
                        k.sessions[i].env = e;
                        k
                    })
                    .collect();
                for t in 0..c.sessions[i].send.len() {
                    if c.sessions[i].send[t].change.is_some() {
                        let mut k = c.clone();
                        k.sessions[i].send[t].change = None;
                        out.push(k);
                    }
                    if let Some(p) = &c.sessions[i].send[t].produce {
                        for w in spec_edits(p) {
                            let mut k = c.clone();
                            k.sessions[i].send[t].produce = Some(w);
                            out.push(k);
                        }
                    }
                    let sch = &c.sessions[i].send[t].schema;
                    for d in 0..sch.len().min(30) {
                        let mut k = c.clone();
                        k.sessions[i].send[t].schema.remove(d);
                        out.push(k);
                        for s in 0..sch[d].s.len().min(10) {
                            let mut k = c.clone();
                            k.sessions[i].send[t].schema[d].s.remove(s);
                            out.push(k);
                        }
                    }
                    let mut k = c.clone();
                    k.sessions[i].send[t].order = 0;
                    out.push(k);
                }
                if c.sessions[i].remote != "127.0.0.1:5555" {
                    let mut k = c.clone();
                    k.sessions[i].remote = "127.0.0.1:5555".into();
                    k.sessions[i].env.hosts.clear();
                    out.push(k);
                }
                if c.sessions[i].more > 0 {
                    let mut k = c.clone();
                    k.sessions[i].more -= 1;
                    out.push(k);
                }
                out
            });
        }
        if let Some(Schedule::Explicit(_)) = &m.best.schedule {
            any |= m.shrink_list(
                |c| match &c.schedule {
                    Some(Schedule::Explicit(v)) => v.clone(),
                    _ => vec![],
                },
                |c, v| c.schedule = Some(Schedule::Explicit(v)),
            );
        }
        if !any || m.over() {
            break;
        }
    }
    (m.best, m.run, m.tried)
}
