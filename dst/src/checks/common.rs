//! Reference model pieces shared by the checks.
use crate::ego::{EgoOut, EgoRes, EgoSpec, Problem};
use crate::inc::{End, Ev, Inc};
use simrt::disk::{CrashSpec, DiskOp, Image};
use simrt::{Plan, Prng};

pub const REAL: &[&str] = &[
    "egobox-ego (Egor, EgorSolver, EgorService, EgorState, hot start, recorders)",
    "egobox-moe", "egobox-gp", "egobox-doe", "argmin executor and checkpointing", "ctrlc",
    "rayon (iterators and splitting)", "ndarray, linfa, cobyla, nlopt/slsqp, finitediff", "serde_json, ndarray-npy, bincode", "std::fs, std::thread, std::sync",
];
pub const STUB: &[&str] = &[
    "rayon-core thread pool (same API, seeded scheduler)",
    "kernel: file system calls, clock_gettime, getrandom, futex, pthread_create/join, pipes (libc symbols interposed)",
    "log backend", "objective and constraint functions (seeded analytic functions)",
];
pub const ASSUME: &[&str] = &[
    "POSIX file semantics: a killed process keeps every completed write, rename is atomic; after a power loss only fsynced data is guaranteed and directory operations are replayed in order",
    "serde_json is built with float_roundtrip in the simulation (the shipped parser rounds the last bit, see DESIGN.md)",
    "interleavings switch at synchronisation points, allocations, system calls and calls of the user functions",
];

/// indices (batch number of each evaluated row)
pub struct Evals {
    pub x: Vec<Vec<f64>>,
    pub y: Vec<Vec<f64>>,
    pub batch: Vec<usize>,
    /// length of the disk log when the batch was evaluated
    pub disk: Vec<usize>,
    pub n: usize,
}
pub fn evals<T>(i: &Inc<T>) -> Evals {
    let mut e = Evals { x: vec![], y: vec![], batch: vec![], disk: vec![], n: 0 };
    for ev in &i.evs {
        if let Ev::Eval { x, y, disk } = ev {
            for (a, b) in x.iter().zip(y) {
                e.x.push(a.clone());
                e.y.push(b.clone());
                e.batch.push(e.n);
            }
            e.disk.push(*disk);
            e.n += 1;
        }
    }
    e
}
impl Evals {
    /// number of batches certainly executed when the disk log had `ops` entries
    pub fn batches_before(&self, ops: usize) -> usize {
        self.disk.iter().filter(|d| **d < ops).count()
    }
    pub fn rows_from(&self, b: usize) -> usize {
        self.batch.iter().filter(|x| **x >= b).count()
    }
}

pub fn close(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-11 * a.abs().max(b.abs()).max(1e-300)
}
pub fn rclose(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y))
}
pub fn mclose(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| rclose(x, y))
}
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan())
}
pub fn msame(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(*p, *q)))
}

/// number of rows at the head of the history that were not evaluated in a batch >= `b`
pub fn kept(o: &EgoOut, e: &Evals, b: usize) -> usize {
    let mut k = o.x_doe.len();
    let mut p = e.x.len();
    while k > 0 {
        let row = &o.x_doe[k - 1];
        let mut hit = None;
        let mut q = p;
        while q > 0 && e.batch[q - 1] >= b {
            if rclose(&e.x[q - 1], row) {
                hit = Some(q - 1);
                break;
            }
            q -= 1;
        }
        match hit {
            Some(h) => {
                p = h;
                k -= 1;
            }
            None => break,
        }
    }
    k
}

pub fn ok<'a>(i: &'a Inc<EgoRes>) -> Option<&'a EgoOut> {
    if i.end != End::Done {
        return None;
    }
    match &i.out {
        Some(Ok(o)) => Some(o),
        _ => None,
    }
}
/// one line description of the way an incarnation ended
pub fn ending(i: &Inc<EgoRes>) -> String {
    match (i.end, &i.out) {
        (End::Done, Some(Ok(_))) => "Ok".into(),
        (End::Done, Some(Err(e))) => format!("Err({e})"),
        (e, _) => format!("{e:?} {}", i.panic),
    }
}
/// stable class of an abnormal ending: used as part of violation keys
pub fn class(i: &Inc<EgoRes>) -> String {
    let norm = |s: &str| {
        let mut o = String::new();
        for c in s.chars() {
            let c = if c.is_ascii_digit() { '#' } else { c };
            if c == '#' && o.ends_with('#') {
                continue;
            }
            o.push(c);
        }
        o.chars().take(60).collect::<String>()
    };
    match (i.end, &i.out) {
        (End::Done, Some(Ok(_))) => "ok".into(),
        (End::Done, Some(Err(e))) => format!("err {}", norm(e)),
        (End::Panic, _) => format!("panic {}", norm(&i.panic)),
        (e, _) => format!("{e:?}").to_lowercase(),
    }
}
/// the simulator could not decide (wall clock limits, crash of the harness)
pub fn no_verdict<T>(i: &Inc<T>) -> bool {
    matches!(i.end, End::Wall | End::Killed(_))
}

pub fn file<'a>(i: &'a Image, p: &str) -> Option<&'a Vec<u8>> {
    i.get(p).and_then(|c| c.as_ref())
}

/// order used to define the best point: feasible first, then objective, then violation
pub fn feasible(y: &[f64], c: &[f64], s: &EgoSpec) -> bool {
    y[1..].iter().chain(c.iter()).enumerate().all(|(i, v)| *v <= s.tol(i))
}
pub fn violation(y: &[f64], c: &[f64], s: &EgoSpec) -> f64 {
    y[1..].iter().chain(c.iter()).enumerate().map(|(i, v)| (v - s.tol(i)).max(0.)).sum()
}

/// a crash point of the log, biased towards the neighbourhood of evaluations and writes
pub fn sample_crash(r: &mut Prng, log: &[DiskOp], disk: &[usize], power: bool) -> CrashSpec {
    let n = log.len().max(1) as u64;
    let ops = match r.below(4) {
        0 if !disk.is_empty() => {
            let d = *r.pick(disk) as u64;
            (d + r.below(4)).min(n) as usize
        }
        1 => {
            // just around a file creation / rename
            let c: Vec<usize> = log
                .iter()
                .enumerate()
                .filter(|(_, o)| matches!(o, DiskOp::Create(..) | DiskOp::Rename(..) | DiskOp::Trunc(..) | DiskOp::Fsync(..)))
                .map(|(i, _)| i)
                .collect();
            if c.is_empty() {
                r.below(n + 1) as usize
            } else {
                (*r.pick(&c) + r.below(3) as usize).min(n as usize)
            }
        }
        _ => r.below(n + 1) as usize,
    };
    if power {
        CrashSpec::Power { ops, seed: r.next() }
    } else {
        let torn = match log.get(ops) {
            Some(DiskOp::Write(_, _, d)) if d.len() > 1 && r.chance(70) => Some(1 + r.below(d.len() as u64 - 1) as usize),
            _ => None,
        };
        CrashSpec::Kill { ops, torn }
    }
}
pub fn ops_of(c: &CrashSpec) -> usize {
    match c {
        CrashSpec::Kill { ops, .. } => *ops,
        CrashSpec::Power { ops, .. } => *ops,
    }
}

/// a crash consists of operations of the run `p` only: same plan without disturbances of the environment
pub fn quiet(seed: u64) -> Plan {
    Plan { seed, ..Default::default() }
}

pub fn problem(s: &EgoSpec) -> Problem {
    Problem::new(s)
}
pub fn short(v: &[f64]) -> String {
    format!("{:?}", v.iter().take(8).collect::<Vec<_>>())
}
