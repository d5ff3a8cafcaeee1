//! C13 - C16: the sync sender against the model receiver.
use crate::case::*;
use crate::exec::*;
use crate::net::{Arg, Conn, Received};
use crate::os;
use crate::plan::NodeInit;
use crate::plan::*;
use crate::props::*;
use crate::rng::Sig;
use crate::sched::Schedule;
use crate::scenario::*;
use crate::tsfile;
use crate::world::World;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use tsfile_writer::sync::sync_sender::SyncSender;

#[derive(Clone, Debug, Default)]
pub struct SOut {
    pub produced: Vec<u8>,
    pub new: Option<Result<(), String>>,
    pub sends: Vec<Result<(), String>>,
    /// after each transfer: what the receiver holds, requests, bytes read and bytes of replies
    pub held: Vec<Held>,
    pub panic: Option<String>,
    /// uuid.lock as the process left it, errors of the world at points of interest
    pub hard_at_new: usize,
    /// number of requests / connections seen when each step ended
    pub after_new: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Held {
    pub state: Received,
    pub requests: usize,
    pub received: u64,
    pub reply_bytes: u64,
    /// the file at that time, if it changes from one transfer to another
    pub content: Option<Vec<u8>>,
}

fn run_session(s: &Session) -> SOut {
    let mut o = SOut::default();
    for t in &s.send {
        if let Some(p) = &t.produce {
            let w = run_writer(p, Sample::No);
            if w.panic.is_some() || w.open != OK || w.calls.iter().any(|c| *c != OK) {
                o.produced.push(1);
            }
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| SyncSender::new(&s.remote, if s.any_local { None } else { Some(&s.local) }, s.uuid.as_deref())));
    o.hard_at_new = os::world(|w| w.hard.len());
    let mut snd = match r {
        Err(_) => {
            o.panic = Some(format!("connecting: {}", take_panic()));
            return o;
        }
        Ok(Err(e)) => {
            o.new = Some(Err(format!("{:?}", e)));
            return o;
        }
        Ok(Ok(s)) => {
            o.new = Some(Ok(()));
            s
        }
    };
    o.after_new = os::world(|w| w.conns.first().map_or(0, |c| c.received));
    let changes = s.send.iter().any(|t| t.change.is_some());
    for (i, t) in s.send.iter().enumerate() {
        let sch = schema(&t.schema, t.order);
        if let Some((n, seed)) = t.change {
            let mut r = crate::rng::Rng::new(seed);
            let data = (0..n).map(|_| r.u64() as u8).collect();
            os::world(|w| w.replace(&t.file, data));
        }
        let content = if changes { os::world(|w| w.file(&t.file).cloned()) } else { None };
        match catch_unwind(AssertUnwindSafe(|| snd.sim_sync(&t.file, &t.group, sch))) {
            Err(_) => {
                o.panic = Some(format!("transfer {}: {}", i, take_panic()));
                break;
            }
            Ok(Ok(())) => o.sends.push(Ok(())),
            Ok(Err(e)) => o.sends.push(Err(format!("{:?}", e))),
        }
        let held = os::world(|w| {
            w.conns.last().map_or(Held::default(), |c| Held {
                state: c.state.clone(),
                requests: c.requests.len(),
                received: c.received,
                reply_bytes: c.reply_bytes,
                content,
            })
        });
        o.held.push(held);
    }
    if catch_unwind(AssertUnwindSafe(move || drop(snd))).is_err() && o.panic.is_none() {
        o.panic = Some(format!("dropping the sender: {}", take_panic()));
    }
    o
}

fn run(world: World, s: &Arc<Session>, m: &mut Meter) -> Result<(SOut, World), String> {
    let (o, w) = run_all(world, s, None, m)?;
    Ok((o.into_iter().next().unwrap(), w))
}

fn run_all(world: World, s: &Arc<Session>, how: Option<Schedule>, m: &mut Meter) -> Result<(Vec<SOut>, World), String> {
    let tasks: Vec<Task<SOut>> = (0..=s.more)
        .map(|_| {
            let s2 = s.clone();
            Box::new(move || run_session(&s2)) as Task<SOut>
        })
        .collect();
    let scheduled = how.is_some();
    let e = execute(world, how, tasks).ok_or(HANG)?;
    let mut x = Sig::new();
    for out in &e.outs {
        x.bytes(format!("{:?}{:?}", out.new, out.sends).as_bytes());
        m.calls += 1 + out.sends.len() as u64;
    }
    if scheduled {
        m.schedules.insert(e.sched_hash);
        m.trace = e.trace;
    }
    let sig = note(m, &e.world, x.0);
    m.nontrivial.insert(sig);
    for c in &e.world.conns {
        m.add("requests received", c.requests.len() as u64);
        m.bytes += c.sent;
    }
    Ok((e.outs, e.world))
}

pub fn check(case: &Case, m: &mut Meter) -> V {
    match case.prop.as_str() {
        "C13" => c13(case, m),
        "C14" => c14(case, m),
        "C15" => c15(case, m),
        "C18" => c18(case, m),
        _ => c16(case, m),
    }
}

/// every fault the session could have met
fn disturbed(w: &World) -> bool {
    // the framed transport (thrift 0.14.2) does not repeat an interrupted send, so to a session
    // an interruption is a failure of the connection
    w.fired.contains_key("interrupted send (EINTR)")
        || !w.hard.is_empty() || disturbed_later(w)
}

/// the same, but for failing calls
fn disturbed_later(w: &World) -> bool {
    w.fired.contains_key("interrupted send (EINTR)")
        || w.crashed || w.conns.iter().any(|c| c.requests.iter().any(|r| !matches!(r.reply, Reply::Ok | Reply::OkStrict | Reply::OkExtra | Reply::Code(1))))
}

fn fields(a: Option<&Arg>) -> BTreeMap<i16, Arg> {
    match a {
        Some(Arg::Struct(m)) => m.clone(),
        _ => BTreeMap::new(),
    }
}

/// the identity a handshake request carries
fn identity(c: &Conn) -> Option<String> {
    let r = c.requests.first()?;
    fields(r.args.values().next()).get(&2).and_then(|a| a.str())
}

// ---- C13 ----------------------------------------------------------------------------------

fn handshake_request(s: &Session, c: &Conn) -> V {
    if let Some(r) = c.requests.first() {
        if r.name != "check" {
            return Err(format!("the first request is {:?} instead of the handshake", r.name));
        }
        let f = fields(r.args.values().next());
        let ip = f.get(&1).and_then(|a| a.str());
        if s.any_local {
            let own = |x: &str| x == "127.0.0.1" || s.env.ifaces.iter().any(|i| i.ip.as_deref() == Some(x));
            if !ip.as_deref().map_or(false, own) {
                return Err(format!("the handshake carries address {:?}, which is none of this machine's", ip));
            }
        } else if ip.as_deref() != Some(s.local.as_str()) {
            return Err(format!("the handshake carries address {:?} instead of {:?}", ip, s.local));
        }
        if let Some(u) = &s.uuid {
            let got = f.get(&2).and_then(|a| a.str());
            if got.as_deref() != Some(u.as_str()) {
                return Err(format!("the handshake carries identity {:?} instead of {:?}", got, u));
            }
        }
        if f.get(&3) != Some(&Arg::I64(604800)) {
            return Err(format!("the handshake carries partition interval {:?}", f.get(&3)));
        }
        let v = f.get(&4).and_then(|a| a.str());
        if v.as_deref() != Some("0.13") {
            return Err(format!("the handshake carries version {:?}", v));
        }
    }
    if c.garbage {
        return Err("the receiver cannot parse the request".into());
    }
    Ok(())
}

/// Thrift's transport does not expect negative lengths: a known finding
fn bad_length(p: &str, w: &World) -> bool {
    let last = w.conns.last().and_then(|c| c.requests.last());
    p.contains("capacity overflow") && last.map_or(false, |r| matches!(r.reply, Reply::BadLength(_)))
}

fn panicked(p: &str, w: &World) -> String {
    if bad_length(p, w) {
        return format!("a reply with a negative length: panic while {}", p);
    }
    format!("panic while {}", p)
}

fn c13(case: &Case, m: &mut Meter) -> V {
    let s = Arc::new(case.sessions[0].clone());
    let (o, w) = run(World::new(&s.env), &s, m)?;
    if let Some(p) = &o.panic {
        return Err(panicked(p, &w));
    }
    // a name stands for all its addresses
    let port = s.remote.rsplit(':').next().unwrap_or("");
    let named = s.remote.parse::<std::net::SocketAddr>().is_err();
    for c in &w.conns {
        handshake_request(&s, c)?;
        let meant = c.addr == s.remote
            || named && s.env.hosts.iter().filter_map(|h| h.parse::<std::net::IpAddr>().ok()).any(|ip| std::net::SocketAddr::from((ip, port.parse().unwrap_or(0))).to_string() == c.addr);
        if !meant && c.addr != "poll" {
            return Err(format!("connected to {} instead of {}", c.addr, s.remote));
        }
    }
    // one address that can be reached is enough
    let attempts = s.env.net.first().map_or(&[][..], |n| &n.connect[..]);
    let way = named && attempts.len() < s.env.hosts.len() && !attempts.contains(&libc::EINTR);
    if way && !attempts.is_empty() {
        m.probe("some addresses of the name out of reach");
    }
    let disturbed = |w: &World| {
        if way && w.hard.iter().all(|h| h.1 == OpK::Connect) {
            return disturbed_later(w);
        }
        disturbed(w)
    };
    match o.new.as_ref().unwrap() {
        Ok(()) => {
            let c = w.conns.last().ok_or("the sender was built without a connection")?;
            let r = c.requests.first().ok_or("the sender was built without a handshake request")?;
            if !r.confirmed {
                return Err(format!("the sender was built although the receiver's answer was {:?}", r.reply));
            }
            if c.received < c.reply_bytes {
                return Err(format!("the sender was built after {} of {} bytes of the reply", c.received, c.reply_bytes));
            }
            m.probe("sessions opened");
        }
        Err(e) => {
            if s.any_local && (s.env.no_ifaces || !s.env.ifaces.iter().any(|i| i.ip.is_some())) {
                m.probe("no address of its own");
            } else if !disturbed(&w) {
                return Err(format!("the receiver accepted, nothing failed, but the sender reports {}", e));
            }
            m.probe("sessions refused");
        }
    }
    if w.conns.iter().any(|c| c.starved > 0) && !disturbed(&w) {
        return Err("the sender waits for data that never comes".into());
    }
    m.checks += 1;
    Ok(())
}

// ---- C14 ----------------------------------------------------------------------------------

fn base_name(p: &str) -> &str {
    p.rsplit('/').next().unwrap_or(p)
}

fn delivered(st: &Received, t: &Transfer, content: Option<&Vec<u8>>) -> V {
    if !st.started {
        return Err("no session was started".into());
    }
    if st.group.as_deref() != Some(t.group.as_str()) {
        return Err(format!("the storage group is {:?} instead of {:?}", st.group, t.group));
    }
    if st.files.len() != 2 {
        return Err(format!("the receiver holds {} files instead of the schema log and the file", st.files.len()));
    }
    let (ln, lb, lok) = &st.files[0];
    if ln != "mlog.bin" {
        return Err(format!("the first file is {:?} instead of the schema log", ln));
    }
    if !lok {
        return Err("the digest of the schema log was not confirmed".into());
    }
    mlog(lb, t).map_err(|e| format!("the schema log at the receiver: {}", e))?;
    let (n, b, ok) = &st.files[1];
    // storage group 0, time partition 0, and the name of the file
    let name = format!("0_0_{}", base_name(&t.file));
    if *n != name {
        return Err(format!("the file was announced as {:?} instead of {:?}", n, name));
    }
    let want = content.ok_or("there is no such local file")?;
    if b != want {
        return Err(format!("the receiver holds {} bytes that differ from the file's {} bytes at {}", b.len(), want.len(), first_diff(b, want)));
    }
    if !ok {
        return Err("the digest of the file was not confirmed".into());
    }
    if !st.ended {
        return Err("the session was not ended".into());
    }
    Ok(())
}

fn c14(case: &Case, m: &mut Meter) -> V {
    let s = Arc::new(case.sessions[0].clone());
    let (o, w) = run(World::new(&s.env), &s, m)?;
    if !o.produced.is_empty() {
        return Ok(()); // the writer's own properties decide this
    }
    if let Some(p) = &o.panic {
        return Err(panicked(p, &w));
    }
    if o.new.as_ref().unwrap().is_err() {
        if !disturbed(&w) {
            return Err(format!("nothing failed, but connecting reports {:?}", o.new));
        }
        m.probe("transfers not begun");
        return Ok(());
    }
    let c = w.conns.last().unwrap();
    // a message broken off by a failure spoils what is sent after it
    if c.garbage && !disturbed(&w) {
        return Err("the receiver cannot parse a request".into());
    }
    let mut from = 1;
    for (i, (t, res)) in s.send.iter().zip(&o.sends).enumerate() {
        let h = &o.held[i];
        let content = h.content.as_ref().or_else(|| w.file(&t.file));
        let clean = !disturbed(&w) && content.is_some();
        match res {
            Ok(()) => {
                delivered(&h.state, t, content).map_err(|e| format!("transfer {} reports success, but {}", i, e))?;
                if let Some(r) = c.requests[from..h.requests].iter().find(|r| !r.confirmed) {
                    return Err(format!("transfer {} reports success, but {} was answered with {:?}", i, r.name, r.reply));
                }
                if h.received < h.reply_bytes {
                    return Err(format!("transfer {} reports success after {} of {} bytes of replies", i, h.received, h.reply_bytes));
                }
                m.probe("transfers that succeeded");
                if i > 0 {
                    m.probe("later transfers of a session that succeeded");
                }
                if t.change.is_some() {
                    m.probe("files that changed between transfers and were delivered");
                }
                if t.produce.is_some() {
                    m.probe("files produced by the writer and delivered");
                    if tsfile::File::open(&h.state.files[1].1, 0).is_err() {
                        return Err("the delivered file cannot be read".into());
                    }
                }
            }
            Err(e) => {
                if clean {
                    return Err(format!("every step was confirmed and nothing failed, but transfer {} reports {}", i, e));
                }
                m.probe("transfers that failed");
            }
        }
        from = h.requests;
    }
    m.checks += 1;
    Ok(())
}

// ---- C15 ----------------------------------------------------------------------------------

fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], String> {
    if b.len() < n {
        return Err("ends inside a record".into());
    }
    let (a, r) = b.split_at(n);
    *b = r;
    Ok(a)
}
fn be32(b: &mut &[u8]) -> Result<usize, String> {
    let v = i32::from_be_bytes(take(b, 4)?.try_into().unwrap());
    if v < 0 {
        return Err(format!("negative length {}", v));
    }
    Ok(v as usize)
}

#[derive(Debug, PartialEq, Clone, PartialOrd, Ord, Eq)]
enum Plan {
    Group(String),
    Create(String, u8, u8, u8),
}

/// the plans of a schema log
fn plans(log: &[u8]) -> Result<Vec<Plan>, String> {
    let mut b = log;
    let mut out = vec![];
    while !b.is_empty() {
        let n = be32(&mut b)?;
        let mut body = take(&mut b, n)?;
        let crc = i64::from_be_bytes(take(&mut b, 8)?.try_into().unwrap());
        if crc != crc32fast::hash(body) as i64 {
            return Err(format!("checksum {} of a record of {} bytes is wrong", crc, n));
        }
        while !body.is_empty() {
            let kind = take(&mut body, 1)?[0];
            let l = be32(&mut body)?;
            let path = String::from_utf8(take(&mut body, l)?.to_vec()).map_err(|_| "path is not UTF-8".to_string())?;
            match kind {
                3 => {
                    take(&mut body, 8)?;
                    out.push(Plan::Group(path));
                }
                4 => {
                    let x = take(&mut body, 3)?;
                    let (t, e, c) = (x[0], x[1], x[2]);
                    let tag = i64::from_be_bytes(take(&mut body, 8)?.try_into().unwrap());
                    let flags = take(&mut body, 4)?;
                    if flags != [0, 0, 0, 0] || tag != -1 {
                        return Err(format!("creation of {} with tag offset {} and flags {:?}", path, tag, flags));
                    }
                    take(&mut body, 8)?;
                    out.push(Plan::Create(path, t, e, c));
                }
                k => return Err(format!("plan of kind {}", k)),
            }
        }
    }
    Ok(out)
}

fn mlog(log: &[u8], t: &Transfer) -> V {
    let p = plans(log)?;
    if p.first() != Some(&Plan::Group(t.group.clone())) {
        return Err(format!("starts with {:?} instead of the registration of {:?}", p.first(), t.group));
    }
    let mut want: Vec<Plan> = vec![];
    for d in &t.schema {
        for s in &d.s {
            want.push(Plan::Create(format!("{}.{}.{}", t.group, d.n, s.n), s.t, s.e, s.c));
        }
    }
    let mut have = p[1..].to_vec();
    want.sort();
    have.sort();
    if want != have {
        let miss = want.iter().find(|w| have.iter().filter(|h| h == w).count() < want.iter().filter(|h| h == w).count());
        let more = have.iter().find(|w| have.iter().filter(|h| h == w).count() > want.iter().filter(|h| h == w).count());
        return Err(format!("{} plans instead of {}; missing {:?}, unexpected {:?}", have.len(), want.len(), miss, more));
    }
    Ok(())
}

fn c15(case: &Case, m: &mut Meter) -> V {
    let s = Arc::new(case.sessions[0].clone());
    let (o, w) = run(World::new(&s.env), &s, m)?;
    if !o.produced.is_empty() {
        return Ok(());
    }
    if let Some(p) = &o.panic {
        return Err(format!("panic while {}", p));
    }
    if disturbed(&w) {
        return Ok(());
    }
    for (t, h) in s.send.iter().zip(&o.held) {
        let log = h.state.files.iter().find(|f| f.0 == "mlog.bin").ok_or("no schema log was sent")?;
        mlog(&log.1, t)?;
        m.add("series registered", t.schema.iter().map(|d| d.s.len() as u64).sum());
        m.probe("schema logs decoded");
    }
    m.checks += 1;
    Ok(())
}

// ---- C16 ----------------------------------------------------------------------------------

fn full(u: &str) -> bool {
    u.len() == 32 && u.bytes().all(|b| b.is_ascii_hexdigit())
}

fn c16(case: &Case, m: &mut Meter) -> V {
    let mut world = World::new(&case.sessions[0].env);
    let mut known: Option<String> = world.file("uuid.lock").and_then(|f| String::from_utf8(f.clone()).ok()).filter(|u| u.len() >= 32);
    let mut sealed = false;
    for (i, s) in case.sessions.iter().enumerate() {
        let s = Arc::new(s.clone());
        if i > 0 {
            world.restart(&s.env);
        }
        let how = if s.more > 0 { Some(case.schedule.clone().unwrap_or(Schedule::Explicit(vec![]))) } else { None };
        let (outs, w) = run_all(world, &s, how, m)?;
        for o in &outs {
            if let Some(p) = &o.panic {
                if !w.crashed {
                    return Err(format!("session {}: panic while {}", i, p));
                }
            }
        }
        if s.more > 0 {
            m.probe("senders started at the same time");
        }
        for c in &w.conns {
            let u = match identity(c) {
                Some(u) => u,
                None => continue,
            };
            if s.uuid.is_some() {
                if Some(&u) != s.uuid.as_ref() {
                    return Err(format!("session {} presents {:?} instead of the given identity", i, u));
                }
                continue;
            }
            m.probe("identities presented");
            if known.as_ref() != Some(&u) && !full(&u) {
                return Err(format!("session {} presents the identity {:?}, which is not a full-length one", i, u));
            }
            match &known {
                Some(k) if *k != u => {
                    return Err(format!("session {} presents {:?}, but {:?} was stored or presented before", i, u, k));
                }
                Some(_) => m.probe("identities presented again"),
                None => {
                    m.probe("fresh identities presented");
                    known = Some(u.clone());
                }
            }
            let stored = &c.requests[0].files.iter().find(|f| f.0 == "uuid.lock").unwrap().1;
            if stored.as_slice() != u.as_bytes() {
                return Err(format!(
                    "session {} presents {:?} while the stored identity is {:?}",
                    i,
                    u,
                    String::from_utf8_lossy(stored)
                ));
            }
        }
        if w.crashed {
            m.probe("crashes while an identity is handled");
        }
        // identity handling that met no failure must lead to a handshake
        sealed |= s.env.fs.iter().any(|f| matches!(f.1, NodeInit::RoDir));
        for o in &outs {
            if o.new.as_ref().map_or(false, |r| r.is_err()) && !disturbed(&w) && !sealed {
                return Err(format!("session {}: nothing failed, but the sender reports {:?}", i, o.new));
            }
        }
        world = w;
        world.net_reset();
    }
    m.checks += 1;
    Ok(())
}

// ---- C18 ----------------------------------------------------------------------------------

/// everything on the disk: path, directory, contents
fn disk(w: &World) -> BTreeMap<String, (bool, Vec<u8>)> {
    w.names.iter().map(|(p, n)| (p.clone(), (w.nodes[*n].dir, w.nodes[*n].data.clone()))).collect()
}

fn c18(case: &Case, m: &mut Meter) -> V {
    let mut world = World::new(&case.sessions[0].env);
    for (i, s) in case.sessions.iter().enumerate() {
        let s = Arc::new(s.clone());
        if i > 0 {
            world.restart(&s.env);
        }
        let before = disk(&world);
        let lock = world.abs("uuid.lock");
        let (o, w) = run(world, &s, m)?;
        if let Some(p) = &o.panic {
            // what a negative length does to a transfer is C14's finding, the disk is judged here
            if !w.crashed && !bad_length(p, &w) {
                return Err(format!("panic while {}", p));
            }
        }
        let after = disk(&w);
        let stored = before.get(&lock).map_or(false, |f| f.1.len() >= 32);
        for (p, (dir, data)) in &before {
            // an identity that was never completely stored may be replaced
            if *p == lock && s.uuid.is_none() && !stored && !dir {
                continue;
            }
            match after.get(p) {
                None => return Err(format!("session {}: {} disappeared", i, p)),
                Some((d, now)) => {
                    if d != dir {
                        return Err(format!("session {}: {} changed its kind", i, p));
                    }
                    if now != data {
                        return Err(format!("session {}: {} was changed, {} bytes instead of {}", i, p, now.len(), data.len()));
                    }
                }
            }
        }
        let untroubled = w.hard.is_empty() && !w.crashed;
        for (p, (dir, _)) in &after {
            if before.contains_key(p) {
                continue;
            }
            let identity = s.uuid.is_none() && !stored && !dir;
            let allowed = identity && (*p == lock || !untroubled && p.starts_with(&lock));
            if !allowed {
                return Err(format!("session {}: {} appeared", i, p));
            }
        }
        if w.crashed {
            m.probe("crashes with local data to keep");
        }
        for r in &o.sends {
            m.probe(if r.is_ok() { "transfers that succeeded" } else { "transfers that failed" });
        }
        world = w;
        world.net_reset();
    }
    m.checks += 1;
    Ok(())
}
