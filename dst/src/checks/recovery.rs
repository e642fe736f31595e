//! C01, C02, C03: crash recovery.
use super::common::*;
use crate::ego::{self, Bias, EgoOut, EgoRes, EgoSpec};
use crate::engine::*;
use crate::inc::{End, Inc};
use serde_json::json;
use simrt::disk::{crash_image, CrashSpec, Image};
use simrt::{Plan, Prng};

/// schedules may differ between incarnations, the entropy stream is the one of the machine
pub fn plans(r: &mut Prng, n: usize) -> Vec<Plan> {
    let mut v: Vec<Plan> = (0..n).map(|_| gen_plan(r)).collect();
    let e = v[0].entropy_seed;
    for p in v.iter_mut() {
        p.entropy_seed = e;
    }
    v
}

pub struct C01;

/// What a restart is entitled to find.
struct Expect<'a> {
    prev: &'a EgoOut,
    /// rows of the history of the previous incarnation that must survive
    keep: usize,
    /// iterations of the previous incarnation which must not be run again
    iters: u64,
}

fn check_restart(c: &mut Ctx, s: &EgoSpec, b: &Inc<EgoRes>, e: &Expect, chain: &[CrashSpec], pre: &str) {
    if no_verdict(b) {
        return;
    }
    let Some(o) = ok(b) else {
        c.viol_crash(
            &format!("{pre}restart-fails:{}", class(b)),
            format!("restart after {chain:?} ends with {} although the uninterrupted run is fine", ending(b)),
            chain,
        );
        return;
    };
    let k = e.keep;
    if o.x_doe.len() < k || !mclose(&o.x_doe[..k], &e.prev.x_doe[..k]) {
        c.viol_crash(
            &format!("{pre}lost-evaluations"),
            format!("after {chain:?} the history of the restarted run does not start with the {k} points evaluated and recorded before the crash (history length {})", o.x_doe.len()),
            chain,
        );
    } else if !mclose(&o.y_doe[..k], &e.prev.y_doe[..k]) || !mclose(&o.c_doe[..k.min(o.c_doe.len())], &e.prev.c_doe[..k.min(e.prev.c_doe.len())]) {
        c.viol_crash(
            &format!("{pre}altered-values"),
            format!("after {chain:?} the values of the first {k} points differ from those recorded before the crash"),
            chain,
        );
    }
    let eb = evals(b);
    let limit = if k == 0 { s.max_iters as u64 + 1 } else { (s.max_iters as u64).saturating_sub(e.iters) };
    if eb.n as u64 > limit {
        c.viol_crash(
            &format!("{pre}repeated-work"),
            format!("after {chain:?} the restarted run called the objective {} times, at most {limit} calls were left", eb.n),
            chain,
        );
    }
    if o.iter > s.max_iters as u64 || o.x_doe.len() != o.y_doe.len() {
        c.viol_crash(&format!("{pre}inconsistent-result"), format!("after {chain:?}: iter={} x rows={} y rows={}", o.iter, o.x_doe.len(), o.y_doe.len()), chain);
    }
}

impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = seeded optimisation problem with checkpointing + a fault free run whose disk operations are logged, then for sampled crash points (kill between or inside a write, power loss with a seeded subset of unsynced data, panic of the objective; chains of two crashes) a restart on the surviving disk; nontrivial = at least one restart found a checkpoint",
            quick: 220,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let b = Bias { env: 25, noseed: 15, ..Default::default() };
        let mut s = ego::gen(r, &b);
        s.hot = Some(0);
        s.max_iters += 2;
        ego::unlimited(r, &mut s);
        let plans = plans(r, 4);
        Scn {
            check: String::new(),
            seed: 0,
            ego: Some(s),
            plans,
            crashes: None,
            p: json!({"n": if thorough { 24 } else { 7 }, "panic": r.chance(25)}),
        }
    }
    fn run(&self, c: &mut Ctx) {
        let s = c.spec();
        let p = c.scn.plans.clone();
        let a = c.ego(0, &p[0], &Image::new(), &s);
        let Some(oa) = ok(&a).cloned() else {
            c.count("base_failed", 1);
            return;
        };
        let ea = evals(&a);
        let off = if s.doe == 2 { 0 } else { 1 };
        let chains: Vec<Vec<CrashSpec>> = match &c.scn.crashes {
            Some(v) => v.clone(),
            None => {
                let n = c.scn.p["n"].as_u64().unwrap_or(5);
                (0..n)
                    .map(|_| {
                        let power = c.r.chance(35);
                        vec![sample_crash(&mut c.r, &a.log, &ea.disk, power)]
                    })
                    .collect()
            }
        };
        for chain in chains {
            let img = crash_image(&Image::new(), &a.log, &chain[0]);
            let power = matches!(chain[0], CrashSpec::Power { .. });
            c.count(if power { "crash_power" } else if matches!(chain[0], CrashSpec::Kill { torn: Some(_), .. }) { "crash_torn_write" } else { "crash_kill" }, 1);
            c.state(hash_image(&img));
            if file(&img, &s.chkpt()).is_some() {
                c.o.nontrivial = true;
                c.count("restart_with_checkpoint", 1);
            }
            // batches executed, then completed iterations whose results must be durable
            let nb = ea.batches_before(ops_of(&chain[0]));
            let lost = 1 + power as usize;
            let done = (nb + 1 - off).saturating_sub(1 + lost); // iterations certainly saved
            let keep = if done == 0 { 0 } else { kept(&oa, &ea, done + off) };
            let b = c.ego(1, &p[1], &img, &s);
            check_restart(c, &s, &b, &Expect { prev: &oa, keep, iters: done as u64 }, &chain, "");
            // chain: crash of the restarted run
            let Some(ob) = ok(&b).cloned() else { continue };
            let second = if chain.len() > 1 {
                Some(chain[1].clone())
            } else if c.scn.crashes.is_none() && c.r.chance(35) && !b.log.is_empty() {
                let eb = evals(&b);
                let power = c.r.chance(30);
                Some(sample_crash(&mut c.r, &b.log, &eb.disk, power))
            } else {
                None
            };
            if let Some(sc) = second {
                let eb = evals(&b);
                let img2 = crash_image(&img, &b.log, &sc);
                c.count("crash_second", 1);
                c.state(hash_image(&img2));
                let power = matches!(sc, CrashSpec::Power { .. });
                let lost = 1 + power as usize;
                let nb = eb.batches_before(ops_of(&sc));
                let resumed = file(&img, &s.chkpt()).is_some();
                // batches of the second incarnation that must survive
                let (done, b0) = if resumed {
                    (nb.saturating_sub(lost), 0)
                } else {
                    ((nb + 1 - off).saturating_sub(1 + lost), off)
                };
                let keep = if !resumed && done == 0 { 0 } else { kept(&ob, &eb, done + b0) };
                let ch = vec![chain[0].clone(), sc];
                let d = c.ego(2, &p[2], &img2, &s);
                check_restart(c, &s, &d, &Expect { prev: &ob, keep, iters: if resumed { 0 } else { done as u64 } }, &ch, "second-");
            }
        }
        // the objective kills the process with a panic
        if c.scn.crashes.is_none() && c.scn.p["panic"].as_bool() == Some(true) && ea.n > off {
            let at = c.r.range(0, ea.n as u64 - 1);
            let mut s2 = s.clone();
            s2.panic_at = Some(at);
            let k = c.ego(1, &p[1], &Image::new(), &s2);
            c.count("crash_objective_panic", 1);
            if k.end == End::Done && !no_verdict(&k) {
                c.viol("panic-swallowed", "a panic of the objective did not reach the caller".into());
            }
            let b = c.ego(2, &p[2], &k.disk, &s);
            let done = (at as usize).saturating_sub(off);
            let keep = if done == 0 { 0 } else { kept(&oa, &ea, done + off) };
            let before = c.o.viols.len();
            check_restart(c, &s, &b, &Expect { prev: &oa, keep, iters: done as u64 }, &[], "panic-");
            // there is no crash point to record here: reproduce with the same parameters
            let scn = c.scn.clone();
            for v in c.o.viols[before..].iter_mut() {
                v.focus = scn.clone();
            }
        }
    }
}


/// differences between two results (None: identical)
pub fn diff(a: &EgoOut, b: &EgoOut) -> Option<String> {
    if !msame(&a.x_doe, &b.x_doe) {
        let k = a.x_doe.iter().zip(&b.x_doe).take_while(|(u, v)| msame(&[u.to_vec()], &[v.to_vec()])).count();
        return Some(format!(
            "x history differs at row {k}: {:?} / {:?} (lengths {} / {})",
            a.x_doe.get(k),
            b.x_doe.get(k),
            a.x_doe.len(),
            b.x_doe.len()
        ));
    }
    if !msame(&a.y_doe, &b.y_doe) {
        return Some("y history differs".into());
    }
    if !msame(&a.c_doe, &b.c_doe) {
        return Some(format!("constraint history differs: {:?} / {:?}", a.c_doe, b.c_doe));
    }
    if !msame(&[a.x_opt.clone()], &[b.x_opt.clone()]) || !msame(&[a.y_opt.clone()], &[b.y_opt.clone()]) {
        return Some(format!("optimum differs: f({:?})={:?} / f({:?})={:?}", a.x_opt, a.y_opt, b.x_opt, b.y_opt));
    }
    if a.iter != b.iter {
        return Some(format!("iteration count differs: {} / {}", a.iter, b.iter));
    }
    if a.best_index != b.best_index || a.feasibility != b.feasibility {
        return Some(format!("best index or feasibility differ: {:?} {} / {:?} {}", a.best_index, a.feasibility, b.best_index, b.feasibility));
    }
    let d: Vec<_> = a.state.iter().filter(|(k, v)| b.state.get(*k) != Some(v)).map(|(k, _)| k.as_str()).collect();
    if !d.is_empty() {
        return Some(format!("the final states differ: {}", d.join(", ")));
    }
    None
}

pub struct C02;

impl C02 {
    fn compare(&self, c: &mut Ctx, key: &str, what: &str, a: &Inc<EgoRes>, b: &Inc<EgoRes>, chain: Option<&[CrashSpec]>) {
        if no_verdict(b) {
            return;
        }
        let oa = ok(a).unwrap();
        let mut v = vec![];
        match ok(b) {
            None => v.push((format!("{key}-fails:{}", class(b)), format!("{what}: ends with {} instead of the result of the uninterrupted run", ending(b)))),
            Some(ob) => {
                if let Some(d) = diff(oa, ob) {
                    v.push((format!("{key}-differs"), format!("{what}: the final result is not the one of the uninterrupted run: {d}")));
                } else {
                    let (ea, eb) = (evals(a), evals(b));
                    let n = eb.x.len();
                    if n > ea.x.len() || !msame(&ea.x[ea.x.len() - n..], &eb.x) {
                        v.push((format!("{key}-evaluations"), format!("{what}: the {n} evaluations of the resumed run are not the last ones of the uninterrupted run")));
                    }
                }
            }
        }
        for (k, m) in v {
            match chain {
                Some(ch) => c.viol_crash(&k, m, ch),
                None => c.viol(&k, m),
            }
        }
    }
}

impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = seeded problem, uninterrupted run A under one schedule; then the same optimisation interrupted by crashes (chains of 1 to 3), by SIGINT inside an objective call, or split in m + n iterations with the extended budget, each incarnation under another schedule, thread count and clock; nontrivial = at least one resumption loaded a checkpoint",
            quick: 170,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let b = Bias { env: 25, noseed: 15, ..Default::default() };
        let mut s = ego::gen(r, &b);
        s.hot = Some(0);
        s.max_iters += r.below(4) as usize;
        ego::unlimited(r, &mut s);
        let plans = plans(r, 5);
        let mode = *r.pick(&["crash", "crash", "ext", "sigint"]);
        let n = match mode {
            "crash" => {
                if thorough {
                    12
                } else {
                    4
                }
            }
            "ext" => r.range(1, s.max_iters.max(2) as u64 - 1),
            _ => r.below(s.max_iters as u64 + 1),
        };
        Scn { check: String::new(), seed: 0, ego: Some(s), plans, crashes: None, p: json!({"mode": mode, "n": n}) }
    }
    fn run(&self, c: &mut Ctx) {
        let s = c.spec();
        let p = c.scn.plans.clone();
        let a = c.ego(0, &p[0], &Image::new(), &s);
        let Some(oa) = ok(&a).cloned() else {
            c.count("base_failed", 1);
            return;
        };
        let ea = evals(&a);
        let n = c.scn.p["n"].as_u64().unwrap_or(1);
        match c.scn.p["mode"].as_str().unwrap_or("") {
            "crash" => {
                let chains: Vec<Option<Vec<CrashSpec>>> = match &c.scn.crashes {
                    Some(v) => v.iter().cloned().map(Some).collect(),
                    None => (0..n).map(|_| None).collect(),
                };
                for given in chains {
                    let len = match &given {
                        Some(g) => g.len(),
                        None => c.r.range(1, 3) as usize,
                    };
                    let mut img = Image::new();
                    let mut log = a.log.clone();
                    let mut disk = ea.disk.clone();
                    let mut chain = vec![];
                    for k in 0..len {
                        let power = c.r.chance(25);
                        let sp = match &given {
                            Some(g) => g[k].clone(),
                            None => sample_crash(&mut c.r, &log, &disk, power),
                        };
                        img = crash_image(&img, &log, &sp);
                        chain.push(sp);
                        c.count("crash_restart", 1);
                        c.state(hash_image(&img));
                        if file(&img, &s.chkpt()).is_some() {
                            c.o.nontrivial = true;
                        }
                        let b = c.ego(1 + k, &p[1 + k], &img, &s);
                        self.compare(c, "resume", &format!("restart after {chain:?}"), &a, &b, Some(&chain));
                        if ok(&b).is_none() {
                            break;
                        }
                        disk = evals(&b).disk;
                        log = b.log;
                    }
                }
            }
            "ext" => {
                let mut s1 = s.clone();
                let m = s.max_iters as u64 - n.min(s.max_iters as u64 - 1);
                let ext = s.max_iters as u64 - m;
                s1.max_iters = m as usize;
                if ext == 0 {
                    return;
                }
                let b1 = c.ego(1, &p[1], &Image::new(), &s1);
                if ok(&b1).is_none() {
                    self.compare(c, "shorter-run", &format!("run limited to {m} iterations"), &a, &b1, None);
                    return;
                }
                c.o.nontrivial = true;
                c.count("crash_none_extended", 1);
                c.state(hash_image(&b1.disk));
                let mut s2 = s1.clone();
                s2.hot = Some(ext);
                let b2 = c.ego(2, &p[2], &b1.disk, &s2);
                self.compare(c, "extended", &format!("{m} iterations then {ext} more"), &a, &b2, None);
                if let Some(o) = ok(&b2) {
                    if o.max_iters != oa.max_iters && file(&b1.disk, &s.chkpt()).is_some() {
                        c.viol("extended-budget", format!("budget after extension {} instead of {}", o.max_iters, oa.max_iters));
                    }
                }
            }
            _ => {
                let mut s1 = s.clone();
                let at = n.min((ea.n as u64).saturating_sub(1));
                s1.sigint_at = Some(at);
                let b1 = c.ego(1, &p[1], &Image::new(), &s1);
                if no_verdict(&b1) {
                    return;
                }
                c.count("crash_sigint", 1);
                c.state(hash_image(&b1.disk));
                c.o.nontrivial |= file(&b1.disk, &s.chkpt()).is_some();
                let b2 = c.ego(2, &p[2], &b1.disk, &s);
                self.compare(c, "after-sigint", &format!("resumed after SIGINT in objective call {at} ({})", ending(&b1)), &a, &b2, None);
            }
        }
    }
}

/// failures of the training of a surrogate with the points at hand: not related to the recovery
pub const NUMERIC: &[&str] = &["GP training failure", "ill conditioned", "Not enough points in cluster", "NotThin", "UndefinedOrder"];

pub struct C03;

/// rows of an npy file written by the optimizer
pub fn npy(b: &[u8]) -> Option<Vec<Vec<f64>>> {
    use ndarray_npy::ReadNpyExt;
    ndarray::Array2::<f64>::read_npy(std::io::Cursor::new(b)).ok().map(|a| ego::rows(&a))
}

impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = seeded problem with an output directory; the run is cut by a crash (kill, torn write, power loss), then a warm start run, possibly with another seed, other settings and a second crash, must take over every recorded evaluation; nontrivial = a recorded design existed at the crash",
            quick: 320,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let b = Bias { env: 15, noseed: 15, outdir: 100, fcstr: 40, target: 0, clusters: 8, ..Default::default() };
        let mut s = ego::gen(r, &b);
        s.hot = None;
        s.warm = r.chance(50);
        let plans = plans(r, 4);
        Scn {
            check: String::new(),
            seed: 0,
            ego: Some(s),
            plans,
            crashes: None,
            p: json!({"n": if thorough { 10 } else { 4 }, "reseed": r.chance(50), "infill": r.below(4), "iters": r.range(1, 3)}),
        }
    }
    fn run(&self, c: &mut Ctx) {
        let s = c.spec();
        let p = c.scn.plans.clone();
        let a = c.ego(0, &p[0], &Image::new(), &s);
        let Some(oa) = ok(&a).cloned() else {
            c.count("base_failed", 1);
            return;
        };
        let ea = evals(&a);
        let off = if s.doe == 2 { 0 } else { 1 };
        let mut s2 = s.clone();
        s2.warm = true;
        s2.max_iters = c.scn.p["iters"].as_u64().unwrap_or(1) as usize;
        if c.scn.p["reseed"].as_bool() == Some(true) {
            s2.seed = Some(77);
            s2.infill = c.scn.p["infill"].as_u64().unwrap_or(0) as u8;
        }
        let chains: Vec<Vec<CrashSpec>> = match &c.scn.crashes {
            Some(v) => v.clone(),
            None => {
                let n = c.scn.p["n"].as_u64().unwrap_or(4);
                (0..n)
                    .map(|_| {
                        let power = c.r.chance(30);
                        vec![sample_crash(&mut c.r, &a.log, &ea.disk, power)]
                    })
                    .collect()
            }
        };
        for chain in chains {
            let mut img = crash_image(&Image::new(), &a.log, &chain[0]);
            let power = matches!(chain[0], CrashSpec::Power { .. });
            c.count(if power { "crash_power" } else if matches!(chain[0], CrashSpec::Kill { torn: Some(_), .. }) { "crash_torn_write" } else { "crash_kill" }, 1);
            c.state(hash_image(&img));
            c.o.nontrivial |= file(&img, &s.file("egor_initial_doe.npy")).is_some();
            let nb = ea.batches_before(ops_of(&chain[0]));
            let lost = 1 + power as usize;
            // evaluations certainly recorded: all of them but those of the last batch(es)
            let saved = nb.saturating_sub(lost);
            let mut keep = if saved == 0 && off == 1 { 0 } else { kept(&oa, &ea, saved) };
            if saved == 0 && off == 0 && nb == 0 {
                keep = 0;
            }
            let mut prev = oa.clone();
            let mut done_chain = vec![chain[0].clone()];
            for round in 0..2 {
                let b = c.ego(1 + round, &p[1 + round], &img, &s2);
                if no_verdict(&b) {
                    break;
                }
                let Some(o) = ok(&b).cloned() else {
                    // only the reading of the recorded design is judged: numerical failures of later
                    // iterations are those of an unrelated run
                    let eb = evals(&b);
                    let numeric = b.end == End::Panic && NUMERIC.iter().any(|m| b.panic.contains(m));
                    if !numeric && (b.end == End::Done || eb.n == 0) {
                        c.viol_crash(
                            &format!("warm-start-fails:{}", class(&b)),
                            format!("warm start after {done_chain:?} ends with {}", ending(&b)),
                            &done_chain,
                        );
                    } else {
                        c.count("unrelated_failure", 1);
                    }
                    break;
                };
                if o.x_doe.len() < keep || !mclose(&o.x_doe[..keep], &prev.x_doe[..keep]) {
                    c.viol_crash(
                        "warm-lost-points",
                        format!("after {done_chain:?} the warm started run has lost some of the {keep} recorded evaluations (history of {} rows)", o.x_doe.len()),
                        &done_chain,
                    );
                } else if !mclose(&o.y_doe[..keep], &prev.y_doe[..keep]) {
                    c.viol_crash("warm-altered-values", format!("after {done_chain:?} the warm started run has other values for the recorded points: {:?} / {:?}", &o.y_doe[..keep], &prev.y_doe[..keep]), &done_chain);
                } else {
                    let pb = problem(&s2);
                    let raw: Vec<Vec<f64>> = o.x_doe[..keep].iter().map(|x| (0..s2.n_fcstr).map(|j| pb.fcstr(j, x, None)).collect()).collect();
                    if o.c_doe.len() != o.x_doe.len() || !mclose(&o.c_doe[..keep], &raw) {
                        c.viol_crash("warm-altered-constraints", format!("after {done_chain:?} the warm started run has wrong function constraint values for the recorded points: {:?} / {raw:?}", &o.c_doe), &done_chain);
                    }
                }
                let eb = evals(&b);
                let limit = s2.max_iters + if keep == 0 { 1 } else { 0 };
                if eb.n > limit {
                    c.viol_crash("warm-re-evaluation", format!("after {done_chain:?} the warm started run called the objective {} times for {} iterations although {keep} evaluations were recorded", eb.n, s2.max_iters), &done_chain);
                }
                // crash of the warm started run
                if round == 0 && !b.log.is_empty() {
                    let sc = if chain.len() > 1 {
                        chain[1].clone()
                    } else if c.scn.crashes.is_none() && c.r.chance(40) {
                        let power = c.r.chance(30);
                        sample_crash(&mut c.r, &b.log, &eb.disk, power)
                    } else {
                        break;
                    };
                    let nb = eb.batches_before(ops_of(&sc));
                    let power = matches!(sc, CrashSpec::Power { .. });
                    let took_over = keep > 0;
                    let saved = nb.saturating_sub(1 + power as usize);
                    keep = if saved == 0 && !took_over { 0 } else { kept(&o, &eb, saved) };
                    if saved == 0 && took_over {
                        // what the previous incarnation took over is still there
                        keep = kept(&o, &eb, 0);
                    }
                    img = crash_image(&img, &b.log, &sc);
                    c.count("crash_second", 1);
                    c.state(hash_image(&img));
                    done_chain.push(sc);
                    prev = o;
                } else {
                    break;
                }
            }
        }
    }
}
