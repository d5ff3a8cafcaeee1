//! A model receiver: speaks framed thrift binary protocol, keeps the state of the IoTDB
//! sync receiver and answers as the plan says.
use crate::plan::{NetPlan, Reply};
use crate::rng::Rng;
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Str(Vec<u8>),
    I64(i64),
    I32(i32),
    Struct(BTreeMap<i16, Arg>),
    Other(u8),
}

impl Arg {
    pub fn str(&self) -> Option<String> {
        match self {
            Arg::Str(b) => String::from_utf8(b.clone()).ok(),
            _ => None,
        }
    }
}

/// One request as the receiver saw it
#[derive(Clone, Debug)]
pub struct Request {
    pub name: String,
    pub seq: i32,
    pub args: BTreeMap<i16, Arg>,
    pub reply: Reply,
    /// the receiver did what was asked and said so
    pub confirmed: bool,
    /// content of watched files when the request arrived
    pub files: Vec<(String, Vec<u8>)>,
}

/// What the receiver holds after the requests it confirmed
#[derive(Clone, Debug, Default)]
pub struct Received {
    pub group: Option<String>,
    pub started: bool,
    pub ended: bool,
    /// (announced name, content, digest confirmed)
    pub files: Vec<(String, Vec<u8>, bool)>,
}

pub struct Conn {
    pub plan: NetPlan,
    pub addr: String,
    pub rng: Option<Rng>,
    inbuf: Vec<u8>,
    pub out: VecDeque<u8>,
    pub sent: u64,
    pub received: u64,
    pub broken: bool,
    pub shut_wr: bool,
    pub client_closed: bool,
    pub eof_after: bool,
    pub reset_after: bool,
    pub starved: u32,
    pub requests: Vec<Request>,
    pub state: Received,
    pub garbage: bool,
    pub snapshot_paths: Vec<String>,
    /// length of all complete replies (without repeated copies)
    pub reply_bytes: u64,
    /// nanoseconds until the connection is there, until the reply to the latest request arrives
    pub connecting: u64,
    pub wait: u64,
}

struct Cur<'a>(&'a [u8], usize);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.1 + n > self.0.len() {
            return None;
        }
        let r = &self.0[self.1..self.1 + n];
        self.1 += n;
        Some(r)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    fn i16(&mut self) -> Option<i16> {
        self.take(2).map(|b| i16::from_be_bytes(b.try_into().unwrap()))
    }
    fn i32(&mut self) -> Option<i32> {
        self.take(4).map(|b| i32::from_be_bytes(b.try_into().unwrap()))
    }
    fn i64(&mut self) -> Option<i64> {
        self.take(8).map(|b| i64::from_be_bytes(b.try_into().unwrap()))
    }
    fn value(&mut self, t: u8) -> Option<Arg> {
        Some(match t {
            8 => Arg::I32(self.i32()?),
            10 => Arg::I64(self.i64()?),
            11 => {
                let n = self.i32()?;
                if n < 0 {
                    return None;
                }
                Arg::Str(self.take(n as usize)?.to_vec())
            }
            12 => Arg::Struct(self.fields()?),
            2 | 3 => Arg::Other(self.u8()?),
            6 => {
                self.i16()?;
                Arg::Other(0)
            }
            _ => return None,
        })
    }
    fn fields(&mut self) -> Option<BTreeMap<i16, Arg>> {
        let mut m = BTreeMap::new();
        loop {
            let t = self.u8()?;
            if t == 0 {
                return Some(m);
            }
            let id = self.i16()?;
            let v = self.value(t)?;
            m.insert(id, v);
        }
    }
}

fn w_str(o: &mut Vec<u8>, s: &str) {
    o.extend((s.len() as i32).to_be_bytes());
    o.extend(s.as_bytes());
}

fn digest_hex(b: &[u8]) -> String {
    let h: String = Sha256::digest(b).iter().map(|x| format!("{:02x}", x)).collect();
    let t = h.trim_start_matches('0');
    if t.is_empty() {
        "0".into()
    } else {
        t.into()
    }
}

impl Conn {
    pub fn new(plan: NetPlan, addr: String) -> Conn {
        let rng = plan.frag.as_ref().map(|f| Rng::new(f.seed));
        Conn {
            plan,
            addr,
            rng,
            inbuf: vec![],
            out: VecDeque::new(),
            sent: 0,
            received: 0,
            broken: false,
            shut_wr: false,
            client_closed: false,
            eof_after: false,
            reset_after: false,
            starved: 0,
            requests: vec![],
            state: Received::default(),
            garbage: false,
            snapshot_paths: vec!["uuid.lock".into()],
            reply_bytes: 0,
            connecting: 0,
            wait: 0,
        }
    }

    /// bytes arrive at the receiver; returns the names of reply faults that fired
    /// whether a request is complete with these bytes
    pub fn completes(&self, b: &[u8]) -> bool {
        let head: Vec<u8> = self.inbuf.iter().chain(b).take(4).cloned().collect();
        match head.try_into() {
            Ok(h) => (self.inbuf.len() + b.len()) as i64 >= 4 + i32::from_be_bytes(h) as i64,
            Err(_) => false,
        }
    }

    pub fn receive(&mut self, b: &[u8], files: Vec<(String, Vec<u8>)>) -> Vec<&'static str> {
        self.inbuf.extend_from_slice(b);
        let mut fired = vec![];
        loop {
            if self.inbuf.len() < 4 {
                return fired;
            }
            let n = i32::from_be_bytes(self.inbuf[..4].try_into().unwrap());
            if n < 0 {
                self.garbage = true;
                self.eof_after = true;
                return fired;
            }
            if self.inbuf.len() < 4 + n as usize {
                return fired;
            }
            let frame: Vec<u8> = self.inbuf[4..4 + n as usize].to_vec();
            self.inbuf.drain(..4 + n as usize);
            if self.eof_after || self.reset_after {
                continue; // the receiver is gone
            }
            if self.request(&frame, files.clone(), &mut fired).is_none() {
                self.garbage = true;
                self.eof_after = true;
                return fired;
            }
        }
    }

    fn request(&mut self, f: &[u8], files: Vec<(String, Vec<u8>)>, fired: &mut Vec<&'static str>) -> Option<()> {
        let mut c = Cur(f, 0);
        let first = c.i32()?;
        let (name, kind, seq) = if first < 0 {
            let n = c.i32()?;
            let name = c.take(n as usize)?;
            (name, (first & 0xff) as u8, c.i32()?)
        } else {
            let name = c.take(first as usize)?;
            (name, c.u8()?, c.i32()?)
        };
        let name = String::from_utf8(name.to_vec()).ok()?;
        let args = c.fields()?;
        if kind != 1 || c.1 != f.len() {
            return None;
        }
        let k = self.requests.len();
        let plan = self.plan.replies.get(k).cloned().unwrap_or(Reply::Ok);
        let (code, mut msg) = self.perform(&name, &args, &plan);
        msg.push_str(&self.plan.msg);
        let mut reply: Vec<u8> = vec![];
        let mut rseq = seq;
        let mut rname = name.clone();
        let mut rtype = 2u8;
        let mut strict = false;
        match &plan {
            Reply::WrongSeq(d) => rseq = seq.wrapping_add(*d),
            Reply::WrongName => rname = format!("{}x", name),
            Reply::WrongType => rtype = 1,
            Reply::Exception => rtype = 3,
            Reply::OkStrict | Reply::BadLength(1) => strict = true,
            _ => {}
        }
        if strict {
            reply.extend((0x8001_0000u32 | rtype as u32).to_be_bytes());
            w_str(&mut reply, &rname);
        } else {
            w_str(&mut reply, &rname);
            reply.push(rtype);
        }
        reply.extend(rseq.to_be_bytes());
        if rtype == 3 {
            // TApplicationException
            reply.push(11);
            reply.extend(1i16.to_be_bytes());
            w_str(&mut reply, "internal error");
            reply.push(8);
            reply.extend(2i16.to_be_bytes());
            reply.extend(6i32.to_be_bytes());
            reply.push(0);
        } else if plan == Reply::NoResult {
            reply.push(0);
        } else {
            reply.push(12);
            reply.extend(0i16.to_be_bytes());
            if plan != Reply::MissingCode {
                reply.push(8);
                reply.extend(1i16.to_be_bytes());
                reply.extend(code.to_be_bytes());
            }
            if plan == Reply::OkExtra {
                reply.push(10);
                reply.extend(77i16.to_be_bytes());
                reply.extend(1i64.to_be_bytes());
            }
            if plan != Reply::MissingMsg {
                reply.push(11);
                reply.extend(2i16.to_be_bytes());
                w_str(&mut reply, &msg);
            }
            reply.push(0);
            reply.push(0);
        }
        let mut framed = (reply.len() as i32).to_be_bytes().to_vec();
        framed.extend(&reply);
        self.reply_bytes += framed.len() as u64;
        match &plan {
            Reply::Truncate(n) => {
                let n = *n as usize % framed.len();
                framed.truncate(n);
                self.eof_after = true;
            }
            Reply::Eof => {
                framed.clear();
                self.eof_after = true;
            }
            Reply::Reset => {
                framed.clear();
                self.reset_after = true;
            }
            Reply::Dup => {
                let again = framed.clone();
                framed.extend(again);
            }
            Reply::Garbage(seed) => {
                let mut r = crate::rng::Rng::new(*seed);
                let n = r.range(1, 60) as usize;
                let mut body: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
                body[0] = r.range(8, 127) as u8;
                framed = (n as u32).to_be_bytes().to_vec();
                framed.extend(body);
                self.eof_after = true;
            }
            // behind the frame's length and the version
            Reply::BadLength(1) => framed[8] |= 0x80,
            Reply::BadLength(2) => {
                let at = framed.len() - 2 - msg.len() - 4;
                framed[at] |= 0x80;
            }
            Reply::BadLength(_) => framed[0] |= 0x80,
            _ => {}
        }
        self.out.extend(framed);
        self.wait = self.plan.delay(k as u64 + 1);
        let confirmed = matches!(plan, Reply::Ok | Reply::OkStrict | Reply::OkExtra | Reply::Dup | Reply::CorruptStore) && code == 1
            || matches!(plan, Reply::Code(1));
        let what = match &plan {
            Reply::Ok | Reply::OkStrict | Reply::OkExtra => "",
            Reply::Code(1) => "",
            Reply::Code(_) => "receiver refuses",
            Reply::Exception => "exception reply",
            Reply::WrongSeq(_) => "reply to another request",
            Reply::WrongName => "reply for another method",
            Reply::WrongType => "reply of wrong message type",
            Reply::NoResult | Reply::MissingCode | Reply::MissingMsg => "incomplete reply",
            Reply::Truncate(_) => "truncated reply",
            Reply::Reset => "connection reset instead of reply",
            Reply::Eof => "connection closed instead of reply",
            Reply::Dup => "duplicated reply",
            Reply::Garbage(_) => "reply of another protocol",
            Reply::BadLength(_) => "reply with a negative length",
            Reply::CorruptStore => "receiver stores corrupted data",
        };
        if !what.is_empty() {
            fired.push(what);
        }
        self.requests.push(Request { name, seq, args, reply: plan, confirmed, files });
        Some(())
    }

    fn perform(&mut self, name: &str, args: &BTreeMap<i16, Arg>, plan: &Reply) -> (i32, String) {
        if let Reply::Code(c) = plan {
            if *c != 1 {
                return (*c, "refused".into());
            }
        }
        let ok = (1, String::new());
        let err = |m: &str| (-1, m.to_string());
        let s1 = args.get(&1).or_else(|| args.get(&-1)).or_else(|| args.values().next());
        let st = &mut self.state;
        match name {
            "check" => ok,
            "startSync" => {
                *st = Received { started: true, ..Default::default() };
                ok
            }
            "init" => match s1.and_then(|a| a.str()) {
                Some(g) if st.started => {
                    st.group = Some(g);
                    ok
                }
                _ => err("no session"),
            },
            "initSyncData" => match s1.and_then(|a| a.str()) {
                Some(f) if st.group.is_some() => {
                    st.files.push((f, vec![], false));
                    ok
                }
                _ => err("no storage group"),
            },
            "syncData" => match (s1, st.files.last_mut()) {
                (Some(Arg::Str(b)), Some(f)) => {
                    f.1.extend(b);
                    f.2 = false;
                    if *plan == Reply::CorruptStore {
                        match f.1.last_mut() {
                            Some(x) => *x ^= 1,
                            None => f.1.push(7),
                        }
                    }
                    ok
                }
                _ => err("no file"),
            },
            "checkDataDigest" => match (s1.and_then(|a| a.str()), st.files.last_mut()) {
                (Some(d), Some(f)) => {
                    if d == digest_hex(&f.1) {
                        f.2 = true;
                        (1, d)
                    } else {
                        (-1, "digest mismatch".into())
                    }
                }
                _ => err("no file"),
            },
            "endSync" => {
                st.ended = true;
                ok
            }
            _ => err("unknown method"),
        }
    }
}
