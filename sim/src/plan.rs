//! The explicit environment of one execution: file system, faults, clock, randomness, network.
use serde::{Deserialize, Serialize};

fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

/// Random fragmentation of a byte stream, decided by `seed`
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Frag {
    pub seed: u64,
    /// per mille of calls that transfer fewer bytes than asked for
    pub short: u32,
    /// per mille of calls that are interrupted (EINTR)
    pub eintr: u32,
    /// largest fragment of a short transfer
    pub max: u32,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[serde(rename_all = "lowercase")]
pub enum OpK {
    Open,
    Write,
    Read,
    Mkdir,
    Stat,
    Rename,
    Link,
    Unlink,
    Fsync,
    Lseek,
    Truncate,
    Connect,
    Send,
    Recv,
    Close,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Act {
    Errno(i32),
    Short(u32),
    Zero,
}

/// The calls `nth .. nth+count` of kind `op` (counted from 0, on paths containing `path`)
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub op: OpK,
    pub nth: u32,
    #[serde(default = "one")]
    pub count: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub path: Option<String>,
    pub act: Act,
}
fn one() -> u32 {
    1
}

/// The process dies in the `call`-th (from 0) state-changing storage call; a write gets
/// `bytes` bytes through first.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Crash {
    pub call: u32,
    pub bytes: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum NodeInit {
    Dir,
    RoDir,
    File(String),
    RoFile(String),
    /// this many bytes generated from the seed
    Blob(u32, u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Reply {
    Ok,
    /// accepted, written with the strict binary header / an unknown extra field
    OkStrict,
    OkExtra,
    /// a status with this code
    Code(i32),
    Exception,
    WrongSeq(i32),
    WrongName,
    WrongType,
    NoResult,
    MissingCode,
    MissingMsg,
    /// the connection ends after this many bytes of the reply
    Truncate(u32),
    Reset,
    Eof,
    /// the reply arrives twice
    Dup,
    /// no Thrift at all
    Garbage(u64),
    /// a negative length: of the frame, of the method's name, of the text
    BadLength(u8),
    /// the receiver stores something else than what was sent / reports a digest mismatch itself
    CorruptStore,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
#[serde(default)]
pub struct NetPlan {
    /// errno per connect attempt, 0 = connected
    #[serde(skip_serializing_if = "is_default")]
    pub connect: Vec<i32>,
    /// reply per request, default Ok
    #[serde(skip_serializing_if = "is_default")]
    pub replies: Vec<Reply>,
    /// connection breaks after so many bytes from the client
    #[serde(skip_serializing_if = "is_default")]
    pub cut_send: Option<u64>,
    /// connection breaks after so many bytes to the client
    #[serde(skip_serializing_if = "is_default")]
    pub cut_recv: Option<u64>,
    #[serde(skip_serializing_if = "is_default")]
    pub cut_eof: bool,
    #[serde(skip_serializing_if = "is_default")]
    pub frag: Option<Frag>,
    /// connecting and every reply may take up to so many milliseconds
    #[serde(skip_serializing_if = "is_default")]
    pub slow: u64,
    /// text the receiver adds to every status
    #[serde(skip_serializing_if = "is_default")]
    pub msg: String,
}

impl NetPlan {
    /// nanoseconds that step `k` takes
    pub fn delay(&self, k: u64) -> u64 {
        if self.slow == 0 {
            return 0;
        }
        let mut r = crate::rng::Rng::new(self.slow.wrapping_mul(1_000_003) ^ k);
        match r.below(3) {
            0 => 0,
            1 => r.below(self.slow * 1_000_000 + 1),
            _ => self.slow * 1_000_000,
        }
    }
}

/// A row of the machine's list of network interfaces
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
#[serde(default)]
pub struct Iface {
    pub n: String,
    /// no IP address: the row carries a hardware address, or nothing at all
    #[serde(skip_serializing_if = "is_default")]
    pub ip: Option<String>,
    #[serde(skip_serializing_if = "is_default")]
    pub bare: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
#[serde(default)]
pub struct Env {
    pub hash_seed: u64,
    #[serde(skip_serializing_if = "is_default")]
    pub clock: i64,
    /// nanoseconds the wall clock may jump (both ways) per call
    #[serde(skip_serializing_if = "is_default")]
    pub clock_jump: i64,
    #[serde(skip_serializing_if = "is_default")]
    pub frag: Option<Frag>,
    #[serde(skip_serializing_if = "is_default")]
    pub faults: Vec<Fault>,
    /// bytes the disk can take in total, and the write call after which space is freed
    #[serde(skip_serializing_if = "is_default")]
    pub capacity: Option<u64>,
    #[serde(skip_serializing_if = "is_default")]
    pub freed_at: Option<u32>,
    #[serde(skip_serializing_if = "is_default")]
    pub crash: Option<Crash>,
    #[serde(skip_serializing_if = "is_default")]
    pub max_open: Option<u32>,
    #[serde(skip_serializing_if = "is_default")]
    pub fs: Vec<(String, NodeInit)>,
    #[serde(skip_serializing_if = "is_default")]
    pub net: Vec<NetPlan>,
    #[serde(skip_serializing_if = "is_default")]
    pub ifaces: Vec<Iface>,
    /// what the name of the receiver stands for: no address, or several
    #[serde(skip_serializing_if = "is_default")]
    pub hosts: Vec<String>,
    /// listing the interfaces fails
    #[serde(skip_serializing_if = "is_default")]
    pub no_ifaces: bool,
    /// printing fails with this errno (0: it works)
    #[serde(skip_serializing_if = "is_default")]
    pub console: i32,
    /// a logger that wants everything
    #[serde(skip_serializing_if = "is_default")]
    pub log: bool,
}
