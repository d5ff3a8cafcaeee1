//! Who runs next: simulated threads are real threads of which exactly one is released.
use crate::rng::{Rng, Sig};
use serde::{Deserialize, Serialize};
use std::sync::{Condvar, Mutex};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Schedule {
    /// switch with probability `pm` / 1000 at every call and `fine` / 100000 at every allocation
    Random {
        seed: u64,
        pm: u32,
        #[serde(default)]
        fine: u32,
    },
    /// switch to thread `.1` at yield point `.0`
    Explicit(Vec<(u32, u8)>),
}

/// What a thread is about to do at a yield point
#[derive(Clone, Copy, PartialEq)]
pub enum How {
    Call,
    Memory,
    Blocked,
    /// waiting with a time limit
    Sleeping,
}

/// threads a run may have at a time
const MOST: usize = 120;

/// so many attempts of waiting threads in a row, and nothing else
const STUCK: u32 = 200_000;

struct St {
    cur: usize,
    alive: Vec<bool>,
    /// threads the library started
    own: Vec<bool>,
    yields: u32,
    blocked: u32,
    rng: Rng,
    trace: Vec<(u32, u8)>,
    hash: Sig,
}

pub struct Sched {
    st: Mutex<St>,
    cv: Vec<Condvar>,
    how: Schedule,
}

impl Sched {
    pub fn new(n: usize, how: Schedule) -> Sched {
        let seed = match how {
            Schedule::Random { seed, .. } => seed,
            _ => 0,
        };
        Sched {
            st: Mutex::new(St {
                cur: 0,
                alive: vec![true; n],
                own: vec![false; n],
                yields: 0,
                blocked: 0,
                rng: Rng::new(seed),
                trace: vec![],
                hash: Sig::new(),
            }),
            cv: (0..MOST).map(|_| Condvar::new()).collect(),
            how,
        }
    }

    pub fn start(&self, tid: usize) {
        let mut st = self.st.lock().unwrap();
        while st.cur != tid {
            st = self.cv[tid].wait(st).unwrap();
        }
    }

    fn choose(&self, st: &mut St, tid: usize, why: How) -> usize {
        let forced = why == How::Blocked || why == How::Sleeping;
        let idx = st.yields;
        st.yields += 1;
        let others: Vec<usize> = (0..st.alive.len()).filter(|&t| st.alive[t] && t != tid).collect();
        if others.is_empty() {
            return tid;
        }
        let mut to = tid;
        match &self.how {
            Schedule::Random { pm, fine, .. } => {
                if match why {
                    How::Call => st.rng.pm(*pm),
                    How::Memory => st.rng.below(100_000) < *fine as u64,
                    How::Blocked | How::Sleeping => true,
                } {
                    to = *st.rng.pick(&others);
                }
            }
            Schedule::Explicit(v) => {
                if let Ok(i) = v.binary_search_by(|e| e.0.cmp(&idx)) {
                    let t = v[i].1 as usize;
                    if t < st.alive.len() && st.alive[t] {
                        to = t;
                    }
                }
                if to == tid && forced {
                    // in turn, so that nobody who could go on is left out
                    to = others.iter().copied().find(|&t| t > tid).unwrap_or(others[0]);
                }
            }
        }
        if to != tid {
            st.trace.push((idx, to as u8));
            st.hash.add((idx as u64) << 8 | to as u64);
        }
        to
    }

    /// false: all threads have been waiting for one another for long
    #[must_use]
    pub fn yield_point(&self, tid: usize, why: How) -> bool {
        let mut st = self.st.lock().unwrap();
        st.blocked = if why == How::Blocked { st.blocked + 1 } else { 0 };
        if st.blocked > STUCK {
            return false;
        }
        let to = self.choose(&mut st, tid, why);
        if to != tid {
            st.cur = to;
            self.cv[to].notify_one();
            while st.cur != tid {
                st = self.cv[tid].wait(st).unwrap();
            }
        }
        true
    }

    pub fn exit(&self, tid: usize) {
        let mut st = self.st.lock().unwrap();
        st.alive[tid] = false;
        if (0..st.alive.len()).all(|t| st.own[t] || !st.alive[t]) {
            // the process ends: threads it started itself never go on
            st.cur = usize::MAX;
            return;
        }
        let to = self.choose(&mut st, tid, How::Blocked);
        st.cur = to;
        self.cv[to].notify_one();
    }

    /// a thread of the library's own
    pub fn add(&self) -> Option<usize> {
        let mut st = self.st.lock().unwrap();
        if let Some(t) = (0..st.alive.len()).find(|&t| st.own[t] && !st.alive[t]) {
            st.alive[t] = true;
            return Some(t);
        }
        if st.alive.len() == MOST {
            return None;
        }
        st.alive.push(true);
        st.own.push(true);
        Some(st.alive.len() - 1)
    }

    pub fn alive(&self, tid: usize) -> bool {
        self.st.lock().unwrap().alive[tid]
    }

    /// is there nobody else who could go on?
    pub fn alone(&self, tid: usize) -> bool {
        let st = self.st.lock().unwrap();
        (0..st.alive.len()).all(|t| t == tid || !st.alive[t])
    }

    /// it could not be started after all
    pub fn forget(&self, tid: usize) {
        self.st.lock().unwrap().alive[tid] = false;
    }

    pub fn trace(&self) -> (Vec<(u32, u8)>, u64, u32) {
        let st = self.st.lock().unwrap();
        (st.trace.clone(), st.hash.0, st.yields)
    }
}
