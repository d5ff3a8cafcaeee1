//! C17: descriptors and memory come back.
use crate::case::*;
use crate::exec::*;
use crate::os;
use crate::plan::Env;
use crate::props::*;
use crate::rng::Sig;
use crate::scenario::*;
use crate::world::World;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use tsfile_writer::sync::sync_sender::SyncSender;

const ROUNDS: usize = 4;

struct Round {
    grown: i64,
    open: usize,
    twice: u64,
    panicked: bool,
    /// what became of it, for the event hash
    what: u64,
}

/// The same thing several times in one process, each time on a fresh machine
fn rounds(env: &Env, m: &mut Meter, f: impl Fn(usize) -> u64 + Send + 'static) -> Result<Vec<Round>, String> {
    let env = env.clone();
    let first = World::new(&env);
    let e = execute(
        first,
        None,
        vec![Box::new(move || {
            let mut out = vec![];
            for k in 0..ROUNDS {
                if k > 0 {
                    os::world(|w| *w = World::new(&env));
                }
                let before = os::live();
                os::meter(true);
                let r = catch_unwind(AssertUnwindSafe(|| f(k)));
                os::meter(false);
                let grown = os::live() - before;
                let (open, twice) = os::world(|w| (w.open_files(), w.bad_closes));
                out.push(Round { grown, open, twice, panicked: r.is_err(), what: r.unwrap_or(0) });
            }
            out
        })],
    )
    .ok_or(HANG)?;
    let rs = e.outs.into_iter().next().unwrap();
    let mut x = Sig::new();
    for r in &rs {
        x.add(r.what);
        x.add(r.open as u64);
    }
    let sig = note(m, &e.world, x.0);
    m.nontrivial.insert(sig);
    m.calls += ROUNDS as u64;
    if e.world.fired.keys().any(|k| !k.starts_with("short") && !k.starts_with("interrupted") && !k.starts_with("clock")) {
        m.probe("rounds with a failure");
    }
    Ok(rs)
}

fn talk(s: &Session) -> u64 {
    let mut x = Sig::new();
    let local = if s.any_local { None } else { Some(s.local.as_str()) };
    match SyncSender::new(&s.remote, local, s.uuid.as_deref()) {
        Ok(mut snd) => {
            x.add(1);
            for t in &s.send {
                x.add(snd.sim_sync(&t.file, &t.group, schema(&t.schema, t.order)).is_ok() as u64);
            }
        }
        Err(_) => x.add(2),
    }
    x.0
}

fn judge(rs: &[Round], what: &str, m: &mut Meter) -> V {
    if rs.iter().any(|r| r.panicked) {
        return Ok(()); // other properties decide this
    }
    for (k, r) in rs.iter().enumerate() {
        if r.open != 0 {
            return Err(format!("{} of round {} left {} descriptors open", what, k + 1, r.open));
        }
        if r.twice != 0 {
            return Err(format!("{} of round {} closed a descriptor that was not open", what, k + 1));
        }
    }
    // the first rounds may fill caches that live as long as the process
    if rs[ROUNDS - 2..].iter().all(|r| r.grown > 0) {
        let g: Vec<String> = rs.iter().map(|r| r.grown.to_string()).collect();
        return Err(format!("{} keeps memory when it is gone: the process grows by {} bytes in the rounds", what, g.join(", ")));
    }
    m.checks += 1;
    Ok(())
}

pub fn c17(case: &Case, m: &mut Meter) -> V {
    if let Some(s) = case.sessions.first() {
        let s2 = Arc::new(s.clone());
        let rs = rounds(&s.env, m, move |_| talk(&s2))?;
        m.probe("rounds of a sync sender");
        return judge(&rs, "a sync sender", m);
    }
    let spec = &case.w[0];
    // other names, in case something is kept by name
    let specs: Vec<WriterSpec> = (0..ROUNDS)
        .map(|k| {
            let mut w = spec.clone();
            if case.env.fs.is_empty() {
                if let Some(p) = w.path.rfind(".tsfile") {
                    w.path.insert_str(p, &k.to_string());
                }
            }
            w
        })
        .collect();
    if let Some(bufs) = case.bufs {
        let rs = rounds(&case.env, m, move |k| crate::capi::plain_run(std::slice::from_ref(&specs[k]), bufs))?;
        m.probe("rounds of the C interface");
        return judge(&rs, "a writer used through C", m);
    }
    let rs = rounds(&case.env, m, move |k| {
        let o = run_writer(&specs[k], Sample::No);
        if o.panic.is_some() {
            std::panic::resume_unwind(Box::new(()));
        }
        out_hash(&o)
    })?;
    m.probe("rounds of a writer");
    judge(&rs, "a writer", m)
}
