//! One simulated case: everything that decides an execution, written out.
use crate::plan::Env;
use crate::scenario::{Device, WriterSpec};
use crate::sched::Schedule;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

/// What differs in a paired run (C06)
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(default)]
pub struct Variant {
    pub env: Env,
    pub order: u64,
    pub path: String,
    pub raw: bool,
    /// calls that have to be refused are mixed in
    #[serde(skip_serializing_if = "is_default")]
    pub refused: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(default)]
pub struct Transfer {
    pub file: String,
    pub group: String,
    pub schema: Vec<Device>,
    #[serde(skip_serializing_if = "is_default")]
    pub order: u64,
    /// write the file with this history first, through the real writer
    #[serde(skip_serializing_if = "is_default")]
    pub produce: Option<WriterSpec>,
    /// the file gets this content (bytes, seed) right before the transfer
    #[serde(skip_serializing_if = "is_default")]
    pub change: Option<(u32, u64)>,
}

/// One life of a sync sender process
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(default)]
pub struct Session {
    pub remote: String,
    pub local: String,
    /// no local address is given
    #[serde(skip_serializing_if = "is_default")]
    pub any_local: bool,
    #[serde(skip_serializing_if = "is_default")]
    pub uuid: Option<String>,
    pub env: Env,
    /// this many more senders are started at the same time, on threads of their own
    #[serde(skip_serializing_if = "is_default")]
    pub more: u32,
    #[serde(skip_serializing_if = "is_default")]
    pub send: Vec<Transfer>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(default)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    #[serde(skip_serializing_if = "is_default")]
    pub w: Vec<WriterSpec>,
    #[serde(skip_serializing_if = "is_default")]
    pub env: Env,
    #[serde(skip_serializing_if = "is_default")]
    pub variants: Vec<Variant>,
    #[serde(skip_serializing_if = "is_default")]
    pub schedule: Option<Schedule>,
    /// threads may also be preempted where they allocate
    #[serde(skip_serializing_if = "is_default")]
    pub fine: bool,
    /// all writers on one thread, switching by this seed
    #[serde(skip_serializing_if = "is_default")]
    pub one_thread: Option<u64>,
    #[serde(skip_serializing_if = "is_default")]
    pub sessions: Vec<Session>,
    /// C12: how the caller's string buffers are reused
    #[serde(skip_serializing_if = "is_default")]
    pub bufs: Option<u64>,
}

/// What the runs of a batch reached
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Meter {
    pub cases: u64,
    pub runs: u64,
    pub points: u64,
    pub bytes: u64,
    pub calls: u64,
    pub sys: u64,
    pub sim_ns: u64,
    pub checks: u64,
    pub fired: BTreeMap<String, u64>,
    /// rare conditions that were reached
    pub probes: BTreeMap<String, u64>,
    /// distinct executions by the hash of their storage log and results
    pub sigs: BTreeSet<u64>,
    /// distinct executions in which something non-trivial happened
    pub nontrivial: BTreeSet<u64>,
    pub schedules: BTreeSet<u64>,
    /// what the files that were read back looked like: the values seen, by dimension
    #[serde(default)]
    pub shapes: BTreeMap<String, BTreeSet<u32>>,
    /// combined hash over all event logs, for determinism checks
    pub log: u64,
    /// thread switches of the last scheduled run
    #[serde(skip)]
    pub trace: Vec<(u32, u8)>,
}

impl Meter {
    pub fn probe(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        match self.probes.get_mut(what) {
            Some(v) => *v += n,
            None => {
                self.probes.insert(what.into(), n);
            }
        }
    }
    pub fn merge(&mut self, o: &Meter) {
        self.cases += o.cases;
        self.runs += o.runs;
        self.points += o.points;
        self.bytes += o.bytes;
        self.calls += o.calls;
        self.sys += o.sys;
        self.sim_ns += o.sim_ns;
        self.checks += o.checks;
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            let to = self.probes.entry(k.clone()).or_default();
            *to = if k.starts_with("largest") { (*to).max(*v) } else { *to + v };
        }
        self.sigs.extend(&o.sigs);
        self.nontrivial.extend(&o.nontrivial);
        self.schedules.extend(&o.schedules);
        for (k, v) in &o.shapes {
            self.shapes.entry(k.clone()).or_default().extend(v);
        }
        self.log = self.log.wrapping_add(o.log);
    }
}
