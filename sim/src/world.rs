//! The simulated machine: file system, clock, randomness, network and the fault plan.
use crate::net::Conn;
use crate::plan::*;
use crate::rng::{Rng, Sig};
use std::collections::{BTreeMap, VecDeque};

pub const FD0: i32 = 1_000_000;

#[derive(Clone, Debug)]
pub struct Node {
    pub dir: bool,
    pub ro: bool,
    pub data: Vec<u8>,
    /// last change
    pub time: i64,
}

/// What a program sees of a node
#[derive(Clone, Copy, Default)]
pub struct Meta {
    pub dir: bool,
    pub ro: bool,
    pub len: u64,
    pub node: usize,
    pub time: i64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Call {
    pub op: OpK,
    pub node: u32,
    pub off: u64,
    pub len: u64,
    pub ret: i64, // < 0: -errno
}

enum What {
    File { node: usize, append: bool, rd: bool, wr: bool },
    Sock(Option<usize>),
}
struct Desc {
    what: What,
    pos: u64,
    refs: u32,
}

pub struct World {
    pub names: BTreeMap<String, usize>,
    pub nodes: Vec<Node>,
    /// the path every node was first created under
    pub first_name: Vec<String>,
    fds: BTreeMap<i32, usize>,
    descs: BTreeMap<usize, Desc>,
    /// sockets that do not block or wait for a limited time
    socks: BTreeMap<usize, (bool, u64)>,
    next_fd: i32,
    next_desc: usize,
    pub env: Env,
    rnd: Rng,
    frag: Option<Rng>,
    pub now: i64,
    /// simulated nanoseconds that passed
    pub elapsed: u64,
    uptime: u64,
    clock_rng: Rng,
    pub crashed: bool,
    /// number of state changing storage calls so far
    pub mutations: u32,
    counts: BTreeMap<(OpK, Option<usize>), u32>,
    pub used: u64,
    pub log: Vec<Call>,
    pub log_hash: Sig,
    pub calls: u64,
    pub fired: BTreeMap<&'static str, u64>,
    /// hard (not transparent) failures that fired: (call number, op, node)
    pub hard: Vec<(u64, OpK, usize)>,
    pub conns: Vec<Conn>,
    pub connects: usize,
    pub runaway: bool,
    /// closed although not open
    pub bad_closes: u64,
    /// calls that transferred something
    pub progress: u64,
    pub cwd: String,
    pub violations: Vec<String>,
    pub log_cap: usize,
}

fn errno_kind(e: i32) -> &'static str {
    match e {
        libc::ENOSPC => "disk full (ENOSPC)",
        libc::EIO => "I/O error (EIO)",
        libc::EACCES => "permission denied (EACCES)",
        libc::EMFILE => "too many open files (EMFILE)",
        libc::EINTR => "interrupted call (EINTR)",
        libc::EROFS => "read-only file system (EROFS)",
        libc::EDQUOT => "quota exceeded (EDQUOT)",
        libc::ECONNREFUSED => "connection refused",
        libc::ECONNRESET => "connection reset",
        libc::ETIMEDOUT => "connection timed out",
        libc::EPIPE => "broken pipe",
        libc::EHOSTUNREACH => "host unreachable",
        libc::EFBIG => "file too large (EFBIG)",
        libc::ENOENT => "no such file (ENOENT)",
        libc::EBUSY => "busy (EBUSY)",
        libc::EAGAIN => "try again (EAGAIN)",
        libc::ENOMEM => "out of memory (ENOMEM)",
        libc::ENAMETOOLONG => "name too long",
        _ => "other errno",
    }
}

pub type R = Result<i64, i32>;

impl World {
    pub fn new(env: &Env) -> World {
        let mut w = World {
            names: BTreeMap::new(),
            nodes: vec![],
            first_name: vec![],
            fds: BTreeMap::new(),
            descs: BTreeMap::new(),
            socks: BTreeMap::new(),
            next_fd: FD0,
            next_desc: 0,
            env: env.clone(),
            rnd: Rng::new(env.hash_seed ^ 0xabcdef),
            frag: env.frag.as_ref().map(|f| Rng::new(f.seed)),
            now: 1_600_000_000_000_000_000 + env.clock,
            elapsed: 0,
            uptime: 0,
            clock_rng: Rng::new(env.hash_seed ^ 0x777),
            crashed: false,
            mutations: 0,
            counts: BTreeMap::new(),
            used: 0,
            log: vec![],
            log_hash: Sig::new(),
            calls: 0,
            fired: BTreeMap::new(),
            hard: vec![],
            bad_closes: 0,
            conns: vec![],
            connects: 0,
            runaway: false,
            progress: 0,
            cwd: "/sim".into(),
            violations: vec![],
            log_cap: 400_000,
        };
        w.mk("/", true, false, vec![]);
        w.mk("/sim", true, false, vec![]);
        for (p, n) in env.fs.clone() {
            let p = w.abs(&p);
            for (i, _) in p.match_indices('/').filter(|m| m.0 > 0) {
                // a file that is there has a directory to be in
                if !w.names.contains_key(&p[..i]) {
                    w.mk(&p[..i], true, false, vec![]);
                }
            }
            match n {
                NodeInit::Dir => w.mk(&p, true, false, vec![]),
                NodeInit::RoDir => w.mk(&p, true, true, vec![]),
                NodeInit::File(c) => w.mk(&p, false, false, c.into_bytes()),
                NodeInit::RoFile(c) => w.mk(&p, false, true, c.into_bytes()),
                NodeInit::Blob(n, s) => {
                    let mut r = Rng::new(s);
                    let data = (0..n).map(|_| r.u64() as u8).collect();
                    w.mk(&p, false, false, data)
                }
            };
        }
        w
    }

    /// A new process on the same machine: files survive, everything else is new
    pub fn restart(&mut self, env: &Env) {
        self.fds.clear();
        self.descs.clear();
        self.crashed = false;
        self.mutations = 0;
        self.counts.clear();
        self.used = 0;
        self.rnd = Rng::new(env.hash_seed ^ 0xabcdef);
        self.frag = env.frag.as_ref().map(|f| Rng::new(f.seed));
        self.connects = 0;
        self.conns.clear();
        self.hard.clear();
        self.fired.clear();
        self.elapsed = 0;
        self.calls = 0;
        self.progress = 0;
        self.env = Env { fs: vec![], ..env.clone() };
    }

    pub fn net_reset(&mut self) {
        self.conns.clear();
        self.connects = 0;
        self.hard.clear();
    }

    fn mk(&mut self, p: &str, dir: bool, ro: bool, data: Vec<u8>) -> usize {
        if let Some(&n) = self.names.get(p) {
            self.nodes[n] = Node { dir, ro, data, time: self.now };
            return n;
        }
        self.nodes.push(Node { dir, ro, data, time: self.now });
        self.first_name.push(p.to_string());
        self.names.insert(p.to_string(), self.nodes.len() - 1);
        self.nodes.len() - 1
    }

    /// somebody else replaces the content of a file
    pub fn replace(&mut self, p: &str, data: Vec<u8>) {
        if let Some(&n) = self.names.get(&self.abs(p)) {
            self.nodes[n].data = data;
            self.nodes[n].time = self.now;
        }
    }

    pub fn file(&self, p: &str) -> Option<&Vec<u8>> {
        self.names.get(&self.abs(p)).and_then(|&n| {
            let n = &self.nodes[n];
            if n.dir {
                None
            } else {
                Some(&n.data)
            }
        })
    }

    pub fn node_of(&self, p: &str) -> Option<usize> {
        self.names.get(&self.abs(p)).copied()
    }

    pub fn abs(&self, p: &str) -> String {
        let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", self.cwd, p) };
        let mut out: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        format!("/{}", out.join("/"))
    }

    fn parent(p: &str) -> String {
        match p.rfind('/') {
            Some(0) | None => "/".into(),
            Some(i) => p[..i].to_string(),
        }
    }

    /// every ancestor must exist and be a directory
    fn walk(&self, p: &str) -> Result<(), i32> {
        if p.split('/').any(|c| c.len() > 255) {
            return Err(libc::ENAMETOOLONG);
        }
        let mut at = String::new();
        let comps: Vec<&str> = p.split('/').filter(|c| !c.is_empty()).collect();
        for c in comps.iter().take(comps.len().saturating_sub(1)) {
            at.push('/');
            at.push_str(c);
            match self.names.get(&at) {
                None => return Err(libc::ENOENT),
                Some(&n) if !self.nodes[n].dir => return Err(libc::ENOTDIR),
                _ => {}
            }
        }
        Ok(())
    }

    /// what a path leads through before '..' leaves it again has to exist as well
    fn dots(&self, raw: &str) -> Result<(), i32> {
        let comps: Vec<&str> = raw.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        if !comps.contains(&"..") {
            return Ok(());
        }
        let mut at = if raw.starts_with('/') { String::new() } else { self.cwd.clone() };
        for (i, c) in comps.iter().enumerate() {
            if *c == ".." {
                at.truncate(at.rfind('/').unwrap_or(0));
            } else {
                if c.len() > 255 {
                    return Err(libc::ENAMETOOLONG);
                }
                at.push('/');
                at.push_str(c);
                if i + 1 < comps.len() {
                    match self.names.get(&at) {
                        None => return Err(libc::ENOENT),
                        Some(&n) if !self.nodes[n].dir => return Err(libc::ENOTDIR),
                        _ => {}
                    }
                }
            }
        }
        Ok(())
    }

    pub fn tick(&mut self) {
        self.calls += 1;
        let d = 100 + self.clock_rng.below(20_000);
        self.pass(d);
        if self.env.clock_jump > 0 && self.clock_rng.pm(50) {
            let j = self.clock_rng.below(2 * self.env.clock_jump as u64) as i64;
            self.now += j - self.env.clock_jump;
            self.fire("clock jump");
        }
    }

    pub fn clock(&mut self) -> i64 {
        self.pass(37);
        self.now
    }

    /// time goes by
    pub fn pass(&mut self, ns: u64) {
        self.now = self.now.saturating_add(ns as i64);
        self.elapsed += ns;
        self.uptime += ns;
    }

    /// the clock that never jumps
    pub fn monotonic(&mut self) -> i64 {
        self.pass(37);
        1_000_000_000_000 + self.uptime as i64
    }

    fn sock_mode(&self, d: usize) -> (bool, u64) {
        self.socks.get(&d).copied().unwrap_or_default()
    }

    /// a socket that does not block, or that waits for so many nanoseconds only
    pub fn set_sock(&mut self, fd: i32, nonblocking: Option<bool>, timeout: Option<u64>) -> R {
        let d = self.desc_of(fd)?;
        let m = self.socks.entry(d).or_default();
        m.0 = nonblocking.unwrap_or(m.0);
        m.1 = timeout.unwrap_or(m.1);
        Ok(0)
    }

    /// waits until `need` nanoseconds are over, or the limit of the socket
    fn wait_for(&mut self, d: usize, need: u64) -> Result<(), u64> {
        match self.sock_mode(d) {
            (true, _) => Err(0),
            (_, t) if t > 0 && t < need => {
                self.pass(t);
                Err(t)
            }
            _ => {
                self.pass(need);
                Ok(())
            }
        }
    }

    /// is the socket ready within so many nanoseconds (None: any time)?
    pub fn poll(&mut self, fd: i32, reading: bool, limit: Option<u64>) -> R {
        self.tick();
        let c = self.conn_of(fd)?;
        let k = &self.conns[c];
        let need = if !reading {
            k.connecting
        } else if k.out.is_empty() && !k.broken && !k.eof_after && !k.reset_after {
            u64::MAX
        } else {
            k.wait
        };
        let spent = match limit {
            Some(l) if l < need => l,
            None if need == u64::MAX => {
                self.conns[c].starved += 1;
                return Ok(1);
            }
            _ => need,
        };
        self.pass(spent);
        if !reading {
            self.conns[c].connecting -= spent;
        } else if need != u64::MAX {
            self.conns[c].wait -= spent;
        }
        Ok((spent == need) as i64)
    }

    pub fn random(&mut self, buf: &mut [u8]) {
        for b in buf.chunks_mut(8) {
            let v = self.rnd.u64().to_le_bytes();
            b.copy_from_slice(&v[..b.len()]);
        }
    }

    pub fn fire(&mut self, what: &'static str) {
        *self.fired.entry(what).or_default() += 1;
    }

    /// all calls of a kind so far
    pub fn calls_of(&self, op: OpK) -> u32 {
        self.counts.get(&(op, None)).copied().unwrap_or(0)
    }

    fn record(&mut self, op: OpK, node: usize, off: u64, len: u64, r: &R) {
        let ret = match r {
            Ok(v) => *v,
            Err(e) => -(*e as i64),
        };
        self.log_hash.add(op as u64 ^ (node as u64) << 8);
        self.log_hash.add(off);
        self.log_hash.add(len ^ (ret as u64) << 32);
        if self.log.len() < self.log_cap {
            self.log.push(Call { op, node: node as u32, off, len, ret });
        }
    }

    /// the planned fault for this call, if any
    fn planned(&mut self, op: OpK, path: &str) -> Option<Act> {
        let mut found = None;
        let all = {
            let c = self.counts.entry((op, None)).or_default();
            *c += 1;
            *c - 1
        };
        for i in 0..self.env.faults.len() {
            let f = &self.env.faults[i];
            if f.op != op {
                continue;
            }
            let n = match &f.path {
                None => all,
                Some(p) => {
                    if !path.contains(p.as_str()) {
                        continue;
                    }
                    let c = self.counts.entry((op, Some(i))).or_default();
                    *c += 1;
                    *c - 1
                }
            };
            let f = &self.env.faults[i];
            if n >= f.nth && ((n - f.nth) as u64) < f.count as u64 && found.is_none() {
                found = Some(f.act.clone());
            }
        }
        found
    }

    fn plain_fault(&mut self, op: OpK, path: &str, node: usize) -> Result<(), i32> {
        if self.crashed {
            return Err(libc::EIO);
        }
        match self.planned(op, path) {
            Some(Act::Errno(e)) => {
                self.fire(errno_kind(e));
                if e != libc::EINTR {
                    self.hard.push((self.calls, op, node));
                }
                Err(e)
            }
            _ => Ok(()),
        }
    }

    /// a state changing call other than write; Err if the process dies in it
    fn crash_point(&mut self) -> Result<(), i32> {
        let n = self.mutations;
        self.mutations += 1;
        if let Some(c) = &self.env.crash {
            if c.call == n {
                self.crashed = true;
                self.fire("process crash");
                return Err(libc::EIO);
            }
        }
        Ok(())
    }

    fn new_fd(&mut self, what: What) -> i64 {
        let d = self.next_desc;
        self.next_desc += 1;
        self.descs.insert(d, Desc { what, pos: 0, refs: 1 });
        // lowest free number, like the real thing
        let mut fd = FD0;
        while self.fds.contains_key(&fd) {
            fd += 1;
        }
        self.next_fd = self.next_fd.max(fd + 1);
        self.fds.insert(fd, d);
        fd as i64
    }

    pub fn open_files(&self) -> usize {
        self.fds.len()
    }

    pub fn open(&mut self, path: &str, flags: i32) -> R {
        self.tick();
        let r = self.open_(path, flags);
        let node = self.node_of(path).unwrap_or(usize::MAX >> 40);
        self.record(OpK::Open, node, 0, flags as u64, &r);
        r
    }

    fn open_(&mut self, path: &str, flags: i32) -> R {
        let p = self.abs(path);
        let id = self.names.get(&p).copied().unwrap_or(usize::MAX);
        self.plain_fault(OpK::Open, &p, id)?;
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if let Some(m) = self.env.max_open {
            if self.fds.len() >= m as usize {
                self.fire("too many open files (EMFILE)");
                self.hard.push((self.calls, OpK::Open, id));
                return Err(libc::EMFILE);
            }
        }
        self.dots(path)?;
        self.walk(&p)?;
        let acc = flags & libc::O_ACCMODE;
        let wr = acc != libc::O_RDONLY;
        let rd = acc != libc::O_WRONLY;
        let node = match self.names.get(&p).copied() {
            Some(n) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if self.nodes[n].dir {
                    if wr || flags & libc::O_CREAT != 0 {
                        return Err(libc::EISDIR);
                    }
                } else if path.ends_with('/') || flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                if self.nodes[n].ro && wr {
                    return Err(libc::EACCES);
                }
                if wr && flags & libc::O_TRUNC != 0 {
                    self.crash_point()?;
                    let old = self.nodes[n].data.len() as u64;
                    self.used = self.used.saturating_sub(old);
                    self.nodes[n].data.clear();
                    self.nodes[n].time = self.now;
                    self.record(OpK::Truncate, n, 0, old, &Ok(0));
                }
                n
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                if path.ends_with('/') {
                    return Err(libc::EISDIR);
                }
                let par = self.names[&Self::parent(&p)];
                if self.nodes[par].ro {
                    return Err(libc::EACCES);
                }
                self.crash_point()?;
                self.mk(&p, false, false, vec![])
            }
        };
        Ok(self.new_fd(What::File { node, append: flags & libc::O_APPEND != 0, rd, wr }))
    }

    fn desc_of(&self, fd: i32) -> Result<usize, i32> {
        self.fds.get(&fd).copied().ok_or(libc::EBADF)
    }

    pub fn close(&mut self, fd: i32) -> R {
        self.tick();
        let d = match self.fds.remove(&fd) {
            Some(d) => d,
            None => {
                if self.crashed {
                    return Ok(0);
                }
                self.bad_closes += 1;
                return Err(libc::EBADF);
            }
        };
        let desc = self.descs.get_mut(&d).unwrap();
        desc.refs -= 1;
        let mut node = usize::MAX >> 40;
        if desc.refs == 0 {
            match &desc.what {
                What::Sock(Some(c)) => self.conns[*c].client_closed = true,
                What::File { node: n, .. } => node = *n,
                _ => {}
            }
            self.descs.remove(&d);
            self.socks.remove(&d);
        }
        self.record(OpK::Close, node, 0, 0, &Ok(0));
        Ok(0)
    }

    pub fn dup(&mut self, fd: i32) -> R {
        self.tick();
        let d = self.desc_of(fd)?;
        if self.crashed {
            return Err(libc::EIO);
        }
        self.descs.get_mut(&d).unwrap().refs += 1;
        let mut n = FD0;
        while self.fds.contains_key(&n) {
            n += 1;
        }
        self.fds.insert(n, d);
        Ok(n as i64)
    }

    /// how much of a transfer of `len` bytes the environment lets through
    fn fragment(frag: &Option<Frag>, rng: &mut Option<Rng>, len: usize, fired: &mut BTreeMap<&'static str, u64>, eintr: &'static str, short: &'static str) -> Result<usize, i32> {
        if let (Some(f), Some(r)) = (frag, rng) {
            if r.pm(f.eintr) {
                *fired.entry(eintr).or_default() += 1;
                return Err(libc::EINTR);
            }
            if len > 1 && r.pm(f.short) {
                *fired.entry(short).or_default() += 1;
                let m = (len - 1).min(f.max.max(1) as usize);
                return Ok(1 + r.below(m as u64) as usize);
            }
        }
        Ok(len)
    }

    pub fn write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> R {
        self.tick();
        let d = self.desc_of(fd)?;
        let (node, append, wr) = match &self.descs[&d].what {
            What::File { node, append, wr, .. } => (*node, *append, *wr),
            What::Sock(_) => return self.send(fd, buf),
        };
        let off = match at {
            Some(o) => o,
            None if append => self.nodes[node].data.len() as u64,
            None => self.descs[&d].pos,
        };
        let r = if !wr { Err(libc::EBADF) } else { self.write_(node, off, buf) };
        if let Ok(n) = r {
            if at.is_none() {
                self.descs.get_mut(&d).unwrap().pos = off + n as u64;
            }
        }
        self.record(OpK::Write, node, off, buf.len() as u64, &r);
        r
    }

    fn write_(&mut self, node: usize, off: u64, buf: &[u8]) -> R {
        if self.crashed {
            return Err(libc::EIO);
        }
        let mut want = buf.len();
        let path = self.first_name[node].clone();
        match self.planned(OpK::Write, &path) {
            Some(Act::Errno(e)) => {
                self.fire(errno_kind(e));
                if e != libc::EINTR {
                    self.hard.push((self.calls, OpK::Write, node));
                }
                return Err(e);
            }
            Some(Act::Zero) => {
                self.fire("write accepts nothing (0)");
                self.hard.push((self.calls, OpK::Write, node));
                return Ok(0);
            }
            Some(Act::Short(n)) if (n as usize) < want => {
                self.fire("short write");
                want = (n as usize).max(1);
            }
            _ => {}
        }
        if let Some(cap) = self.env.capacity {
            let freed = match self.env.freed_at {
                Some(n) => self.counts[&(OpK::Write, None)] > n,
                None => false,
            };
            if !freed {
                let room = cap.saturating_sub(self.used);
                if room == 0 && want > 0 {
                    self.fire("disk full (ENOSPC)");
                    self.hard.push((self.calls, OpK::Write, node));
                    return Err(libc::ENOSPC);
                }
                if (room as usize) < want {
                    self.fire("short write at full disk");
                    want = room as usize;
                }
            }
        }
        let frag = self.env.frag.clone();
        want = want.min(Self::fragment(&frag, &mut self.frag, want, &mut self.fired, "interrupted write (EINTR)", "short write")?);
        let n = self.mutations;
        self.mutations += 1;
        if let Some(c) = &self.env.crash {
            if c.call == n {
                want = want.min(c.bytes as usize);
                self.put(node, off, &buf[..want]);
                self.crashed = true;
                self.fire("process crash");
                return Err(libc::EIO);
            }
        }
        self.put(node, off, &buf[..want]);
        Ok(want as i64)
    }

    fn put(&mut self, node: usize, off: u64, buf: &[u8]) {
        self.nodes[node].time = self.now;
        let data = &mut self.nodes[node].data;
        let end = off as usize + buf.len();
        let grow = end.saturating_sub(data.len());
        if off as usize == data.len() {
            data.extend_from_slice(buf);
        } else {
            if data.len() < end {
                data.resize(end, 0);
            }
            data[off as usize..end].copy_from_slice(buf);
        }
        self.used += grow as u64;
    }

    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> R {
        self.tick();
        let d = self.desc_of(fd)?;
        let (node, rd) = match &self.descs[&d].what {
            What::File { node, rd, .. } => (*node, *rd),
            What::Sock(_) => return self.recv(fd, buf, false),
        };
        let off = at.unwrap_or(self.descs[&d].pos);
        let r = if !rd { Err(libc::EBADF) } else { self.read_(node, off, buf) };
        if let (Ok(n), None) = (r, at) {
            self.descs.get_mut(&d).unwrap().pos = off + n as u64;
        }
        self.record(OpK::Read, node, off, buf.len() as u64, &r);
        r
    }

    fn read_(&mut self, node: usize, off: u64, buf: &mut [u8]) -> R {
        if self.crashed {
            return Err(libc::EIO);
        }
        let path = self.first_name[node].clone();
        let mut want = buf.len();
        match self.planned(OpK::Read, &path) {
            Some(Act::Errno(e)) => {
                self.fire(errno_kind(e));
                if e != libc::EINTR {
                    self.hard.push((self.calls, OpK::Read, node));
                }
                return Err(e);
            }
            Some(Act::Short(n)) if (n as usize) < want => {
                self.fire("short read");
                want = (n as usize).max(1);
            }
            _ => {}
        }
        if self.nodes[node].dir {
            return Err(libc::EISDIR);
        }
        let avail = self.nodes[node].data.len().saturating_sub(off as usize).min(want);
        let frag = self.env.frag.clone();
        let n = if avail == 0 {
            0
        } else {
            Self::fragment(&frag, &mut self.frag, avail, &mut self.fired, "interrupted read (EINTR)", "short read")?
        };
        buf[..n].copy_from_slice(&self.nodes[node].data[off as usize..off as usize + n]);
        Ok(n as i64)
    }

    pub fn lseek(&mut self, fd: i32, off: i64, whence: i32) -> R {
        self.tick();
        let d = self.desc_of(fd)?;
        let node = match &self.descs[&d].what {
            What::File { node, .. } => *node,
            _ => return Err(libc::ESPIPE),
        };
        self.plain_fault(OpK::Lseek, "", node)?;
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => self.descs[&d].pos as i64,
            libc::SEEK_END => self.nodes[node].data.len() as i64,
            _ => return Err(libc::EINVAL),
        };
        if base + off < 0 {
            return Err(libc::EINVAL);
        }
        self.descs.get_mut(&d).unwrap().pos = (base + off) as u64;
        let r = Ok(base + off);
        self.record(OpK::Lseek, node, (base + off) as u64, 0, &r);
        r
    }

    pub fn fsync(&mut self, fd: i32) -> R {
        self.tick();
        let d = self.desc_of(fd)?;
        let node = match &self.descs[&d].what {
            What::File { node, .. } => *node,
            _ => return Err(libc::EINVAL),
        };
        let path = self.first_name[node].clone();
        let r = self.plain_fault(OpK::Fsync, &path, node).map(|_| 0);
        self.record(OpK::Fsync, node, 0, 0, &r);
        r
    }

    pub fn truncate(&mut self, fd: i32, len: u64) -> R {
        self.tick();
        let d = self.desc_of(fd)?;
        let node = match &self.descs[&d].what {
            What::File { node, .. } => *node,
            _ => return Err(libc::EINVAL),
        };
        let path = self.first_name[node].clone();
        let r = self
            .plain_fault(OpK::Truncate, &path, node)
            .and_then(|_| self.crash_point())
            .map(|_| {
                self.nodes[node].data.resize(len as usize, 0);
                self.nodes[node].time = self.now;
                0
            });
        self.record(OpK::Truncate, node, len, 0, &r);
        r
    }

    fn meta(&self, node: usize) -> Meta {
        let n = &self.nodes[node];
        Meta { dir: n.dir, ro: n.ro, len: n.data.len() as u64, node, time: n.time }
    }

    pub fn stat(&mut self, path: &str) -> Result<Meta, i32> {
        self.tick();
        let p = self.abs(path);
        let id = self.names.get(&p).copied().unwrap_or(usize::MAX);
        self.plain_fault(OpK::Stat, &p, id)?;
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        self.dots(path)?;
        self.walk(&p)?;
        match self.names.get(&p) {
            None => Err(libc::ENOENT),
            Some(&n) => Ok(self.meta(n)),
        }
    }

    pub fn fstat(&mut self, fd: i32) -> Result<Meta, i32> {
        self.tick();
        let d = self.desc_of(fd)?;
        match &self.descs[&d].what {
            What::File { node, .. } => Ok(self.meta(*node)),
            _ => Ok(Meta::default()),
        }
    }

    pub fn mkdir(&mut self, path: &str) -> R {
        self.tick();
        let p = self.abs(path);
        let r = self.mkdir_(path, &p);
        self.record(OpK::Mkdir, 0, 0, p.len() as u64, &r);
        r
    }

    pub fn chdir(&mut self, path: &str) -> R {
        self.tick();
        let p = self.abs(path);
        let r = self.dots(path).and_then(|_| self.walk(&p)).and_then(|_| match self.names.get(&p) {
            None => Err(libc::ENOENT),
            Some(&n) if !self.nodes[n].dir => Err(libc::ENOTDIR),
            Some(_) => Ok(0),
        });
        if r.is_ok() {
            self.cwd = p;
        }
        r
    }

    fn mkdir_(&mut self, raw: &str, p: &str) -> R {
        let id = self.names.get(p).copied().unwrap_or(usize::MAX);
        self.plain_fault(OpK::Mkdir, p, id)?;
        if raw.is_empty() {
            return Err(libc::ENOENT);
        }
        self.dots(raw)?;
        self.walk(p)?;
        if self.names.contains_key(p) {
            return Err(libc::EEXIST);
        }
        let par = self.names[&Self::parent(p)];
        if self.nodes[par].ro {
            return Err(libc::EACCES);
        }
        self.crash_point()?;
        self.mk(p, true, false, vec![]);
        Ok(0)
    }

    pub fn rename(&mut self, a: &str, b: &str) -> R {
        self.tick();
        let (pa, pb) = (self.abs(a), self.abs(b));
        let r = self.dots(a).and_then(|_| self.dots(b)).and_then(|_| self.rename_(&pa, &pb));
        self.record(OpK::Rename, 0, pa.len() as u64, pb.len() as u64, &r);
        r
    }

    fn rename_(&mut self, a: &str, b: &str) -> R {
        let id = self.names.get(a).copied().unwrap_or(usize::MAX);
        self.plain_fault(OpK::Rename, a, id)?;
        self.walk(a)?;
        self.walk(b)?;
        let n = *self.names.get(a).ok_or(libc::ENOENT)?;
        if let Some(&m) = self.names.get(b) {
            if self.nodes[m].dir != self.nodes[n].dir {
                return Err(if self.nodes[m].dir { libc::EISDIR } else { libc::ENOTDIR });
            }
        }
        let (below, to) = (Self::inside(a), Self::inside(b));
        if self.nodes[n].dir && to.starts_with(&below) && a != b {
            return Err(libc::EINVAL);
        }
        if a != b && self.nodes[n].dir && self.names.range(to.clone()..).next().is_some_and(|(k, _)| k.starts_with(&to)) {
            return Err(libc::ENOTEMPTY);
        }
        if self.nodes[self.names[&Self::parent(b)]].ro || self.nodes[self.names[&Self::parent(a)]].ro {
            return Err(libc::EACCES);
        }
        self.crash_point()?;
        if self.names.get(b) != Some(&n) {
            self.names.remove(a);
            self.names.insert(b.to_string(), n);
            if self.nodes[n].dir {
                let moved: Vec<String> = self.names.range(below.clone()..).take_while(|x| x.0.starts_with(&below)).map(|x| x.0.clone()).collect();
                for k in moved {
                    let n = self.names.remove(&k).unwrap();
                    self.names.insert(format!("{}{}", to, &k[below.len()..]), n);
                }
            }
        }
        Ok(0)
    }

    pub fn link(&mut self, a: &str, b: &str) -> R {
        self.tick();
        let (a, b) = (self.abs(a), self.abs(b));
        let r = (|| {
            let id = self.names.get(&a).copied().unwrap_or(usize::MAX);
            self.plain_fault(OpK::Link, &a, id)?;
            self.walk(&a)?;
            self.walk(&b)?;
            let n = *self.names.get(&a).ok_or(libc::ENOENT)?;
            if self.names.contains_key(&b) {
                return Err(libc::EEXIST);
            }
            if self.nodes[n].dir {
                return Err(libc::EPERM);
            }
            if self.nodes[self.names[&Self::parent(&b)]].ro {
                return Err(libc::EACCES);
            }
            self.crash_point()?;
            self.names.insert(b.clone(), n);
            Ok(0)
        })();
        self.record(OpK::Link, 0, a.len() as u64, b.len() as u64, &r);
        r
    }

    pub fn unlink(&mut self, a: &str) -> R {
        self.tick();
        let p = self.abs(a);
        let r = (|| {
            let id = self.names.get(&p).copied().unwrap_or(usize::MAX);
            self.plain_fault(OpK::Unlink, &p, id)?;
            self.walk(&p)?;
            let n = *self.names.get(&p).ok_or(libc::ENOENT)?;
            if self.nodes[n].dir {
                return Err(libc::EISDIR);
            }
            if self.nodes[self.names[&Self::parent(&p)]].ro {
                return Err(libc::EACCES);
            }
            self.crash_point()?;
            self.names.remove(&p);
            Ok(0)
        })();
        self.record(OpK::Unlink, 0, 0, p.len() as u64, &r);
        r
    }

    fn inside(dir: &str) -> String {
        format!("{}/", dir.trim_end_matches('/'))
    }

    pub fn rmdir(&mut self, a: &str) -> R {
        self.tick();
        let p = self.abs(a);
        let r = (|| {
            let id = self.names.get(&p).copied().unwrap_or(usize::MAX);
            self.plain_fault(OpK::Unlink, &p, id)?;
            self.dots(a)?;
            self.walk(&p)?;
            let n = *self.names.get(&p).ok_or(libc::ENOENT)?;
            if !self.nodes[n].dir {
                return Err(libc::ENOTDIR);
            }
            if p == "/" || a.trim_end_matches('/').ends_with('.') {
                return Err(if p == "/" { libc::EBUSY } else { libc::EINVAL });
            }
            let below = Self::inside(&p);
            if self.names.range(below.clone()..).next().is_some_and(|(k, _)| k.starts_with(&below)) {
                return Err(libc::ENOTEMPTY);
            }
            if self.nodes[self.names[&Self::parent(&p)]].ro {
                return Err(libc::EACCES);
            }
            self.crash_point()?;
            self.names.remove(&p);
            Ok(0)
        })();
        self.record(OpK::Unlink, 1, 0, p.len() as u64, &r);
        r
    }

    pub fn chmod(&mut self, a: &str, mode: u32) -> R {
        let n = self.stat(a)?.node;
        self.crash_point()?;
        self.nodes[n].ro = mode & 0o222 == 0;
        Ok(0)
    }

    pub fn fchmod(&mut self, fd: i32, mode: u32) -> R {
        let d = self.desc_of(fd)?;
        if let What::File { node, .. } = self.descs[&d].what {
            self.crash_point()?;
            self.nodes[node].ro = mode & 0o222 == 0;
        }
        Ok(0)
    }

    /// the present path of an open directory
    pub fn dir_path(&self, fd: i32) -> Result<String, i32> {
        let d = self.desc_of(fd)?;
        match self.descs[&d].what {
            What::File { node, .. } if self.nodes[node].dir => self.names.iter().find(|x| *x.1 == node).map(|x| x.0.clone()).ok_or(libc::ENOENT),
            _ => Err(libc::ENOTDIR),
        }
    }

    /// what is in an open directory, in the order of this run
    pub fn list(&mut self, fd: i32) -> Result<Vec<(String, Meta)>, i32> {
        self.tick();
        let dir = self.dir_path(fd)?;
        let below = Self::inside(&dir);
        let n = self.names[&dir];
        let mut v = vec![(".".to_string(), self.meta(n)), ("..".to_string(), self.meta(self.names[&Self::parent(&dir)]))];
        for (k, &n) in self.names.range(below.clone()..).take_while(|x| x.0.starts_with(&below)) {
            let name = &k[below.len()..];
            if !name.is_empty() && !name.contains('/') {
                v.push((name.to_string(), self.meta(n)));
            }
        }
        let mut r = Rng::new(self.env.hash_seed ^ 0x1157);
        for i in (1..v.len()).rev() {
            v.swap(i, r.below(i as u64 + 1) as usize);
        }
        self.record(OpK::Read, n, 0, v.len() as u64, &Ok(0));
        Ok(v)
    }

    // ---- network -------------------------------------------------------------------

    pub fn socket(&mut self) -> R {
        self.tick();
        if self.crashed {
            return Err(libc::EIO);
        }
        Ok(self.new_fd(What::Sock(None)))
    }

    pub fn list_ifaces(&mut self) -> R {
        if self.crashed {
            return Err(libc::EIO);
        }
        let r = if self.env.no_ifaces {
            self.fire("network interfaces cannot be listed");
            Err(libc::EMFILE)
        } else {
            Ok(0)
        };
        self.record(OpK::Stat, 0, self.env.ifaces.len() as u64, 0, &r);
        r
    }

    /// the addresses of a name
    pub fn resolve(&mut self, name: &str) -> Vec<std::net::IpAddr> {
        self.tick();
        let mut v: Vec<std::net::IpAddr> = vec![];
        if self.crashed {
            return v;
        }
        match name.parse() {
            Ok(ip) => v.push(ip),
            Err(_) => v.extend(self.env.hosts.iter().filter_map(|h| h.parse::<std::net::IpAddr>().ok())),
        }
        let r = if v.is_empty() {
            self.fire("name of the receiver unknown");
            self.hard.push((self.calls, OpK::Connect, 0));
            Err(libc::ENOENT)
        } else {
            Ok(v.len() as i64)
        };
        self.record(OpK::Stat, 0, v.len() as u64, 1, &r);
        v
    }

    pub fn connect(&mut self, fd: i32, addr: String) -> R {
        self.tick();
        let d = self.desc_of(fd)?;
        if self.crashed {
            return Err(libc::EIO);
        }
        let plan = self.env.net.first().cloned().unwrap_or_default();
        let k = self.connects;
        self.connects += 1;
        let e = plan.connect.get(k).copied().unwrap_or(0);
        let r = if e != 0 {
            self.fire(errno_kind(e));
            if e != libc::EINTR {
                self.hard.push((self.calls, OpK::Connect, 0));
            }
            Err(e)
        } else {
            let need = plan.delay(1_000 + k as u64);
            self.conns.push(Conn::new(plan, addr));
            let c = self.conns.len() - 1;
            self.descs.get_mut(&d).unwrap().what = What::Sock(Some(c));
            if need > 0 {
                self.fire("slow connect");
            }
            if need > 0 && self.sock_mode(d).0 {
                self.conns[c].connecting = need;
                Err(libc::EINPROGRESS)
            } else {
                self.pass(need);
                Ok(0)
            }
        };
        self.record(OpK::Connect, 0, 0, 0, &r);
        r
    }

    fn conn_of(&self, fd: i32) -> Result<usize, i32> {
        let d = self.desc_of(fd)?;
        match &self.descs[&d].what {
            What::Sock(Some(c)) => Ok(*c),
            What::Sock(None) => Err(libc::ENOTCONN),
            _ => Err(libc::ENOTSOCK),
        }
    }

    pub fn is_connected(&self, fd: i32) -> bool {
        self.conn_of(fd).is_ok()
    }

    pub fn send(&mut self, fd: i32, buf: &[u8]) -> R {
        let c = self.conn_of(fd)?;
        if self.crashed {
            return Err(libc::EIO);
        }
        let r = self.send_(c, buf);
        self.record(OpK::Send, c, 0, buf.len() as u64, &r);
        r
    }

    fn send_(&mut self, c: usize, buf: &[u8]) -> R {
        let mut want = buf.len();
        match self.planned(OpK::Send, "") {
            Some(Act::Errno(e)) => {
                self.fire(errno_kind(e));
                if e != libc::EINTR {
                    self.hard.push((self.calls, OpK::Send, c));
                    self.conns[c].broken = true;
                }
                return Err(e);
            }
            Some(Act::Short(n)) => {
                self.fire("short send");
                want = want.min((n as usize).max(1))
            }
            _ => {}
        }
        if self.conns[c].broken || self.conns[c].shut_wr {
            return Err(libc::EPIPE);
        }
        let (frag, mut rng) = (self.conns[c].plan.frag.clone(), self.conns[c].rng.take());
        let f = Self::fragment(&frag, &mut rng, want, &mut self.fired, "interrupted send (EINTR)", "short send");
        self.conns[c].rng = rng;
        want = want.min(f?);
        if let Some(cut) = self.conns[c].plan.cut_send {
            let room = cut.saturating_sub(self.conns[c].sent) as usize;
            if room == 0 {
                self.fire("connection reset");
                self.conns[c].broken = true;
                self.hard.push((self.calls, OpK::Send, c));
                return Err(libc::ECONNRESET);
            }
            want = want.min(room);
        }
        self.conns[c].sent += want as u64;
        let whole = self.conns[c].completes(&buf[..want]);
        let files: Vec<(String, Vec<u8>)> = self.conns[c].snapshot_paths.iter().filter(|_| whole).map(|p| (p.clone(), self.file(p).cloned().unwrap_or_default())).collect();
        let fired = self.conns[c].receive(&buf[..want], files);
        for f in fired {
            self.fire(f);
        }
        Ok(want as i64)
    }

    pub fn recv(&mut self, fd: i32, buf: &mut [u8], peek: bool) -> R {
        let c = self.conn_of(fd)?;
        if self.crashed {
            return Err(libc::EIO);
        }
        let d = self.desc_of(fd)?;
        let r = self.recv_(c, d, buf, peek);
        self.record(OpK::Recv, c, 0, buf.len() as u64, &r);
        r
    }

    fn recv_(&mut self, c: usize, d: usize, buf: &mut [u8], peek: bool) -> R {
        let mut want = buf.len();
        match self.planned(OpK::Recv, "") {
            Some(Act::Errno(e)) => {
                self.fire(errno_kind(e));
                if e != libc::EINTR {
                    self.hard.push((self.calls, OpK::Recv, c));
                    self.conns[c].broken = true;
                }
                return Err(e);
            }
            Some(Act::Short(n)) => {
                self.fire("short receive");
                want = want.min((n as usize).max(1))
            }
            _ => {}
        }
        let cut = self.conns[c].plan.cut_recv.map(|k| k.saturating_sub(self.conns[c].received));
        if self.conns[c].broken {
            return Err(libc::ECONNRESET);
        }
        if cut == Some(0) && want > 0 {
            self.fire("connection cut while receiving");
            self.hard.push((self.calls, OpK::Recv, c));
            if self.conns[c].plan.cut_eof {
                return Ok(0);
            }
            self.conns[c].broken = true;
            return Err(libc::ECONNRESET);
        }
        if self.conns[c].out.is_empty() {
            if self.conns[c].reset_after {
                self.conns[c].broken = true;
                return Err(libc::ECONNRESET);
            }
            if !self.conns[c].eof_after {
                if self.sock_mode(d) != (false, 0) {
                    let _ = self.wait_for(d, u64::MAX);
                    return Err(libc::EAGAIN);
                }
                // the real client would block here for ever
                self.conns[c].starved += 1;
            }
            return Ok(0);
        }
        let need = self.conns[c].wait;
        if need > 0 {
            self.fire("slow reply");
            match self.wait_for(d, need) {
                Ok(()) => self.conns[c].wait = 0,
                Err(t) => {
                    self.conns[c].wait -= t;
                    return Err(libc::EAGAIN);
                }
            }
        }
        let mut n = want.min(self.conns[c].out.len());
        if let Some(k) = cut {
            n = n.min(k as usize);
        }
        let (frag, mut rng) = (self.conns[c].plan.frag.clone(), self.conns[c].rng.take());
        let f = Self::fragment(&frag, &mut rng, n, &mut self.fired, "interrupted receive (EINTR)", "short receive");
        self.conns[c].rng = rng;
        n = n.min(f?);
        let out: &mut VecDeque<u8> = &mut self.conns[c].out;
        if peek {
            for (b, x) in buf.iter_mut().zip(out.iter().take(n)) {
                *b = *x;
            }
            return Ok(n as i64);
        }
        for b in buf.iter_mut().take(n) {
            *b = out.pop_front().unwrap();
        }
        self.conns[c].received += n as u64;
        Ok(n as i64)
    }

    pub fn shutdown(&mut self, fd: i32, how: i32) -> R {
        let c = self.conn_of(fd)?;
        if how != libc::SHUT_RD {
            self.conns[c].shut_wr = true;
        }
        Ok(0)
    }
}
