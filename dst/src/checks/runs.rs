//! C04 to C09, C17: properties of optimisation runs, alone or in chains of incarnations.
use super::common::*;
use super::recovery::{diff, npy, plans, NUMERIC};
use crate::ego::{self, Bias, EgoOut, EgoRes, EgoSpec};
use crate::engine::*;
use crate::inc::{End, Ev, Inc};
use serde_json::{json, Value};
use simrt::disk::{crash_image, CrashSpec, Image};
use simrt::{Plan, Prng};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Fresh,
    Resumed,
    Warm,
}

/// one incarnation of an episode which returned a result
pub struct Step {
    pub s: EgoSpec,
    pub inc: Inc<EgoRes>,
    pub before: Image,
    pub kind: Kind,
    /// evaluations of the former incarnations
    pub known: Vec<(Vec<f64>, Vec<f64>)>,
    /// result of the former incarnation, when it returned one
    pub prev: Option<EgoOut>,
    pub chain: Vec<CrashSpec>,
    /// possible budgets of the checkpoint it started from
    pub budgets: Vec<u64>,
}
impl Step {
    pub fn out(&self) -> &EgoOut {
        ok(&self.inc).unwrap()
    }
    pub fn viol(&self, c: &mut Ctx, key: &str, msg: String) {
        let k = format!("{key}:{:?}", self.kind).to_lowercase();
        if self.chain.is_empty() {
            c.viol(&k, msg)
        } else {
            c.viol_crash(&k, format!("after {:?}: {msg}", self.chain), &self.chain)
        }
    }
}

fn kind_of(s: &EgoSpec, before: &Image) -> Kind {
    if s.hot.is_some() && file(before, &s.chkpt()).is_some() {
        Kind::Resumed
    } else if s.warm && s.outdir.is_some() && (file(before, &s.file("egor_doe.npy")).is_some() || file(before, &s.file("egor_initial_doe.npy")).is_some()) {
        Kind::Warm
    } else {
        Kind::Fresh
    }
}

pub const MODES: &[&str] = &["plain", "plain", "crash-hot", "crash-warm", "sigint", "ext", "again"];

/// settings of an episode
pub fn episode_p(r: &mut Prng, s: &mut EgoSpec) -> Value {
    let m = *r.pick(MODES);
    match m {
        "crash-hot" | "ext" | "sigint" => s.hot = Some(0),
        "crash-warm" => {
            s.warm = true;
            s.hot = None;
            s.outdir.get_or_insert("/simdisk/out".into());
        }
        "again" => {
            s.warm = r.chance(50);
            s.outdir.get_or_insert("/simdisk/out".into());
        }
        _ => {}
    }
    // the budget may also be extended when a run is resumed after a crash or a signal
    json!({"mode": m, "n": r.below(1000), "ext": r.range(1, 3), "hx": r.chance(35), "tweak": if r.chance(50) { r.range(1, 1000) } else { 0 }})
}
/// a later run with other settings in the same directory
fn tweak(s: &mut EgoSpec, k: u64) {
    let mut r = Prng::new(k);
    if k == 0 || s.hot.is_some() {
        return;
    }
    for _ in 0..1 + r.below(3) {
        match r.below(7) {
            0 => s.max_iters = r.range(1, 4) as usize,
            1 => s.seed = s.seed.map(|v| v + 1),
            2 => s.n_start = r.range(2, 6) as usize,
            3 => s.infill = r.below(4) as u8,
            4 => s.trego = !s.trego,
            5 => s.q_points = r.range(1, 2) as usize,
            _ => s.cobyla = !s.cobyla,
        }
    }
}

/// run the episode of the scenario, `f` judges every incarnation that ended with a result
pub fn episode(c: &mut Ctx, f: &dyn Fn(&mut Ctx, &Step)) {
    let s = c.spec();
    let p = c.scn.plans.clone();
    let mode = c.scn.p["mode"].as_str().unwrap_or("plain").to_string();
    let n = c.scn.p["n"].as_u64().unwrap_or(0);
    let img0 = Image::new();
    let mut s0 = s.clone();
    if mode == "sigint" {
        s0.sigint_at = Some(n % (s.max_iters as u64 + 1));
    }
    let a = c.ego(0, &p[0], &img0, &s0);
    let mut known = a.evals();
    let log = a.log.clone();
    let disk = evals(&a).disk;
    let after = a.disk.clone();
    let Some(oa) = ok(&a).cloned() else {
        c.count("base_failed", 1);
        return;
    };
    c.state(hash_rows(&oa));
    if mode == "plain" {
        c.o.nontrivial = true;
    }
    let st = Step { s: s0.clone(), inc: a, before: img0.clone(), kind: Kind::Fresh, known: vec![], prev: None, chain: vec![], budgets: vec![] };
    f(c, &st);
    let mut prev = Some(oa);
    let mut prev_saved = prev.clone();
    let mut again = s.clone();
    if matches!(mode.as_str(), "crash-hot" | "sigint") && c.scn.p["hx"].as_bool().unwrap_or(false) {
        again.hot = Some(c.scn.p["ext"].as_u64().unwrap_or(1));
    }
    if matches!(mode.as_str(), "crash-warm" | "again") {
        tweak(&mut again, c.scn.p["tweak"].as_u64().unwrap_or(0));
    }
    // possible budgets of the checkpoint
    let mut budgets = vec![s.max_iters as u64];
    let next: Vec<(EgoSpec, Option<CrashSpec>)> = match mode.as_str() {
        "crash-hot" | "crash-warm" => {
            let chain = match &c.scn.crashes {
                Some(v) if !v.is_empty() => v[0].clone(),
                _ => {
                    let power = c.r.chance(30);
                    vec![sample_crash(&mut c.r, &log, &disk, power)]
                }
            };
            let mut v = vec![(again.clone(), Some(chain[0].clone()))];
            if let Some(k) = chain.get(1) {
                v.push((again.clone(), Some(k.clone())));
            }
            v
        }
        "sigint" => vec![(again, None)],
        "ext" => {
            let mut e = s.clone();
            e.hot = Some(c.scn.p["ext"].as_u64().unwrap_or(1));
            vec![(e.clone(), None), (e, None)]
        }
        "again" => vec![(again, None)],
        _ => vec![],
    };
    let mut img = after;
    let mut log = log;
    let mut before = img0;
    let mut chain = vec![];
    for (i, (s1, crash)) in next.into_iter().enumerate() {
        if let Some(k) = &crash {
            img = crash_image(&before, &log, k);
            c.count(if matches!(k, CrashSpec::Power { .. }) { "crash_power" } else { "crash_kill" }, 1);
            chain.push(k.clone());
            prev = None;
            prev_saved = None;
        }
        let kind = kind_of(&s1, &img);
        if kind != Kind::Fresh {
            c.o.nontrivial = true;
        }
        c.count(&format!("steps_{kind:?}").to_lowercase(), 1);
        let b = c.ego(1 + i, &p[1 + i], &img, &s1);
        let Some(o) = ok(&b).cloned() else {
            c.count("next_failed", 1);
            break;
        };
        c.state(hash_rows(&o));
        if kind != Kind::Resumed {
            budgets.clear();
        }
        let possible = budgets.clone();
        if kind == Kind::Resumed {
            budgets.extend(possible.iter().map(|b| b + s1.hot.unwrap_or(0)));
        } else {
            budgets.push(s1.max_iters as u64);
        }
        let ke = b.evals();
        let (l, d) = (b.log.clone(), b.disk.clone());
        let st = Step { s: s1, inc: b, before: img.clone(), kind, known: known.clone(), prev: prev.take(), chain: chain.clone(), budgets: possible };
        f(c, &st);
        known.extend(ke);
        before = img;
        img = d;
        log = l;
        // without iteration the checkpoint is left as it is
        if prev_iter(&prev_saved) != Some(o.iter) {
            prev_saved = Some(o.clone());
        }
        prev = prev_saved.clone();
    }
}

fn prev_iter(o: &Option<EgoOut>) -> Option<u64> {
    o.as_ref().map(|o| o.iter)
}

pub fn hash_rows(o: &EgoOut) -> u64 {
    let mut v = vec![o.iter];
    for r in o.x_doe.iter().chain(&o.y_doe) {
        v.extend(r.iter().map(|x| x.to_bits()));
    }
    simrt::mix(&v)
}

// ------------------------------------------------------------------------------------------
// C04

pub struct C04;

impl Check for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = seeded problem with a fixed optimizer seed, run once sequentially and once or more under other thread counts, interleavings, work stealing, clock jumps, entropy, short and interrupted system calls, log levels, parallel objectives, recorders, output directories and checkpointing; nontrivial = the reference run ended with a result",
            quick: 900,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let b = Bias { noseed: 0, enums: 60, max_it: if thorough { 6 } else { 4 }, ..Default::default() };
        let mut s = ego::gen(r, &b);
        if r.chance(15) {
            s.gp_start = r.below(2) as usize;
        }
        let mut plans: Vec<Plan> = (0..3).map(|_| gen_plan(r)).collect();
        plans[0] = quiet(r.next());
        plans[0].entropy_seed = r.next();
        let tog: Vec<&str> = ["log", "par", "run", "gp", "outdir", "hot", "doe"].into_iter().filter(|_| r.chance(30)).collect();
        Scn { check: String::new(), seed: 0, ego: Some(s), plans, crashes: None, p: json!({"toggle": tog, "n": if thorough { 2 } else { 1 }}) }
    }
    fn run(&self, c: &mut Ctx) {
        let s = c.spec();
        let p = c.scn.plans.clone();
        let a = c.ego(0, &p[0], &Image::new(), &s);
        if no_verdict(&a) {
            return;
        }
        match ok(&a) {
            Some(o) => {
                c.o.nontrivial = true;
                let h = hash_rows(o);
                c.state(h);
            }
            None => c.count("base_failed", 1),
        }
        let n = c.scn.p["n"].as_u64().unwrap_or(1) as usize;
        for k in 1..=n.min(p.len() - 1) {
            let mut s2 = s.clone();
            let tog: Vec<String> = serde_json::from_value(c.scn.p["toggle"].clone()).unwrap_or_default();
            if k == 1 {
                for t in &tog {
                    match t.as_str() {
                        "log" => s2.log_level = (s2.log_level + 1) % 3,
                        "par" => s2.par = !s2.par,
                        "run" | "gp" => {
                            let e = if t == "run" { "EGOR_USE_RUN_RECORDER" } else { "EGOR_USE_GP_RECORDER" };
                            if s2.env.iter().any(|x| x == e) {
                                s2.env.retain(|x| x != e)
                            } else {
                                s2.env.push(e.into())
                            }
                        }
                        "outdir" => s2.outdir = if s2.outdir.is_some() { None } else { Some("/simdisk/elsewhere".into()) },
                        "hot" => s2.hot = if s2.hot.is_some() { None } else { Some(0) },
                        _ => {}
                    }
                }
            }
            let b = c.ego(k, &p[k], &Image::new(), &s2);
            if no_verdict(&b) {
                continue;
            }
            let what = format!("other schedule, threads, clock, entropy{}", if s2 == s { String::new() } else { format!(" and {tog:?}") });
            match (ok(&a), ok(&b)) {
                (Some(oa), Some(ob)) => {
                    if let Some(d) = diff(oa, ob) {
                        c.viol("seeded-run-differs", format!("{what}: {d}"));
                        continue;
                    }
                    let (ea, eb) = (evals(&a), evals(&b));
                    if !msame(&ea.x, &eb.x) || ea.n != eb.n {
                        c.viol("seeded-evaluations-differ", format!("{what}: the sequence of evaluations differs"));
                    } else if oa.term != ob.term || oa.last_best_iter != ob.last_best_iter || oa.max_iters != ob.max_iters {
                        c.viol("seeded-state-differs", format!("{what}: {} {} {} / {} {} {}", oa.term, oa.last_best_iter, oa.max_iters, ob.term, ob.last_best_iter, ob.max_iters));
                    }
                    if s.outdir == s2.outdir && s.outdir.is_some() {
                        for f in ["egor_doe.npy", "egor_initial_doe.npy", "egor_history.npy"] {
                            let p = s.file(f);
                            if file(&a.disk, &p) != file(&b.disk, &p) {
                                c.viol("seeded-files-differ", format!("{what}: {f} differs"));
                            }
                        }
                    }
                }
                (None, None) if class(&a) == class(&b) => {}
                _ => c.viol("seeded-ending-differs", format!("{what}: {} / {}", ending(&a), ending(&b))),
            }
        }
    }
}

// ------------------------------------------------------------------------------------------
// C05

pub struct C05;

fn merit(s: &EgoSpec, y: &[f64], c: &[f64]) -> (u8, f64) {
    if feasible(y, c, s) {
        (0, y[0])
    } else {
        (1, violation(y, c, s))
    }
}
fn better(a: (u8, f64), b: (u8, f64)) -> bool {
    a.0 < b.0 || (a.0 == b.0 && a.1 < b.1 && !close(a.1, b.1))
}

fn judge_best(c: &mut Ctx, st: &Step) {
    let (s, o) = (&st.s, st.out());
    let none: Vec<f64> = vec![];
    let m: Vec<(u8, f64)> = (0..o.x_doe.len()).map(|i| merit(s, &o.y_doe[i], o.c_doe.get(i).unwrap_or(&none))).collect();
    let Some(b) = o.best_index else {
        st.viol(c, "no-best-index", "the final state has no best point".into());
        return;
    };
    if b >= m.len() {
        st.viol(c, "best-index-range", format!("best index {b} of {} points", m.len()));
        return;
    }
    if let Some(w) = (0..m.len()).find(|i| better(m[*i], m[b])) {
        st.viol(
            c,
            "not-the-best",
            format!("the reported optimum {:?} c={:?} at index {b} is worse than point {w} {:?} c={:?} of the history", o.y_doe[b], o.c_doe.get(b), o.y_doe[w], o.c_doe.get(w)),
        );
    }
    if !rclose(&o.x_opt, &o.x_doe[b]) || !msame(&[o.y_opt.clone()], &[o.y_doe[b].clone()]) {
        st.viol(c, "optimum-is-not-a-point", format!("f({:?})={:?} is not point {b} of the history f({:?})={:?}", o.x_opt, o.y_opt, o.x_doe[b], o.y_doe[b]));
    }
    let real = problem(s).eval(&o.x_opt);
    if !rclose(&real, &o.y_opt) {
        st.viol(c, "wrong-optimum-value", format!("reported f({:?})={:?} but the function is {real:?}", o.x_opt, o.y_opt));
    }
    if m[b].0 == 0 && !o.feasibility {
        st.viol(c, "feasibility-flag", "the best point is feasible but the state says it is not".into());
    }
    // history of the best point: one row per iteration of this incarnation, never worse than before
    if let (true, Some(h)) = (s.outdir.is_some(), file(&st.inc.disk, &s.file("egor_history.npy")).and_then(|b| npy(b))) {
        let ny = s.ny();
        if s.n_fcstr == 0 {
            let mm: Vec<(u8, f64)> = h.iter().map(|r| merit(s, &r[..ny], &[])).collect();
            if let Some(i) = (1..mm.len()).find(|i| better(mm[*i - 1], mm[*i])) {
                st.viol(c, "best-got-worse", format!("row {i} of the history of the best point is worse than row {}: {:?} / {:?}", i - 1, h[i], h[i - 1]));
            }
        }
    }
    // a later incarnation never reports something worse than an earlier one (same history)
    if let (Some(p), true) = (&st.prev, st.kind != Kind::Fresh) {
        if s.n_fcstr == 0 {
            let mp = merit(s, &p.y_opt, &[]);
            let mo = merit(s, &o.y_opt, &[]);
            if better(mp, mo) {
                st.viol(c, "optimum-lost", format!("the former incarnation reported {:?}, this one {:?}", p.y_opt, o.y_opt));
            }
        }
    }
    // iteration of the last improvement
    if st.kind == Kind::Fresh && !s.trego {
        let e = evals(&st.inc);
        let exp = if b < o.doe_size {
            0
        } else {
            let off = if s.doe == 2 { 0 } else { 1 };
            let given = if s.doe == 2 { o.doe_size } else { 0 };
            match e.batch.get(b - given) {
                Some(k) => *k as u64 + 1 - off,
                None => return,
            }
        };
        if o.last_best_iter != exp && !o.term.contains("SolverConverged") {
            st.viol(c, "last-best-iteration", format!("the best point was found at iteration {exp}, the state says {}", o.last_best_iter));
        }
    }
}

fn episode_scn(r: &mut Prng, b: &Bias) -> Scn {
    let mut s = ego::gen(r, b);
    if r.chance(30) {
        s.hot = Some(0);
    }
    let p = episode_p(r, &mut s);
    let plans = plans(r, 4);
    Scn { check: String::new(), seed: 0, ego: Some(s), plans, crashes: None, p }
}

impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = episode of one to three incarnations of a seeded problem (plain, crash then hot or warm start, SIGINT then resume, extended budget, second run in the same directory) under seeded schedules; after each incarnation the reported optimum is compared with a reference model over the whole recorded history; nontrivial = the episode reached a result (and for chains a checkpoint or recorded design was used)",
            quick: 900,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        episode_scn(r, &Bias { cstr: 65, fcstr: 45, env: 15, max_it: if thorough { 8 } else { 5 }, clusters: 8, ..Default::default() })
    }
    fn run(&self, c: &mut Ctx) {
        episode(c, &judge_best)
    }
}

// ------------------------------------------------------------------------------------------
// C06

pub struct C06;

fn judge_history(c: &mut Ctx, st: &Step) {
    let (s, o) = (&st.s, st.out());
    let n = o.x_doe.len();
    if o.y_doe.len() != n || o.c_doe.len() != n || o.x_raw.len() != n || o.y_doe.iter().any(|y| y.len() != s.ny()) || o.c_doe.iter().any(|y| y.len() != s.n_fcstr) {
        st.viol(c, "history-shape", format!("x {n} rows, y {} rows, c {} rows", o.y_doe.len(), o.c_doe.len()));
        return;
    }
    for i in 0..n {
        let f = ego::fold(&s.xt, &o.x_raw[i]);
        if ego::n_enums(&s.xt) > 1 {
            // several categorical variables: known finding
            if rclose(&f, &o.x_doe[i]) {
                continue;
            }
            if rclose(&ego::fold_as_is(&s.xt, &o.x_raw[i]), &o.x_doe[i]) {
                c.viol("fold-second-enum", format!("row {i} of the state {:?} is {f:?} in the user space but the result says {:?}", o.x_raw[i], o.x_doe[i]));
                return;
            }
        }
        if !rclose(&f, &o.x_doe[i]) {
            st.viol(c, "history-x", format!("row {i} of the state {:?} is {f:?} in the user space but the result says {:?}", o.x_raw[i], o.x_doe[i]));
            return;
        }
    }
    // every evaluation of this incarnation is recorded once, in order, at the end of the history
    let e = st.inc.evals();
    let mut k = n;
    for (x, y) in e.iter().rev() {
        if k > 0 && msame(&[x.clone()], &[o.x_doe[k - 1].clone()]) {
            if !msame(&[y.clone()], &[o.y_doe[k - 1].clone()]) {
                st.viol(c, "history-y", format!("the objective returned {y:?} for {x:?}, the history says {:?}", o.y_doe[k - 1]));
                return;
            }
            k -= 1;
        } else if s.trego && o.x_doe[..(k + 1).min(n)].iter().any(|r| rclose_tol(r, x, 1e-6)) {
            c.count("trego_rejected_point", 1);
        } else {
            st.viol(c, "evaluation-not-recorded", format!("the evaluation of {x:?} is not row {} of the history of {n} rows, in order", k as i64 - 1));
            return;
        }
    }
    // what is left was there before
    let user = if s.doe == 2 {
        ego::rows(&ego::user_doe(s)).iter().map(|r| ego::fold(&s.xt, r)).collect()
    } else {
        vec![]
    };
    if st.kind == Kind::Fresh {
        if k != user.len() || !mclose(&o.x_doe[..k], &user) {
            st.viol(c, "invented-points", format!("{k} rows of the history were neither evaluated nor given by the user ({})", user.len()));
            return;
        }
    }
    let pb = problem(s);
    for i in 0..n {
        let y = pb.eval(&o.x_doe[i]);
        if !rclose(&y, &o.y_doe[i]) {
            st.viol(c, "history-y", format!("row {i} of the history f({:?})={:?}, the function is {y:?}", o.x_doe[i], o.y_doe[i]));
            return;
        }
        if i < k {
            let known = st.known.iter().any(|(x, _)| rclose(x, &o.x_doe[i])) || user.iter().any(|x| rclose(x, &o.x_doe[i]));
            if !known {
                st.viol(c, "invented-points", format!("row {i} of the history {:?} was never evaluated", o.x_doe[i]));
                return;
            }
        }
    }
    // function constraints
    for j in 0..s.n_fcstr {
        for i in 0..n {
            let raw = pb.fcstr(j, &o.x_doe[i], None);
            let v = o.c_doe[i][j];
            if close(v, raw) {
                continue;
            }
            let initial = i < o.doe_size;
            let q = raw / v;
            if !initial && q.is_finite() && q > 0. {
                // same key whatever the kind: value divided by the scale of the criterion
                c.viol("fcstr-value-scaled", format!("constraint {j} of row {i} is recorded as {v}, its value is {raw}"));
            } else {
                st.viol(c, "fcstr-value-wrong", format!("constraint {j} of row {i} {:?} is recorded as {v}, its value is {raw}", o.x_doe[i]));
                return;
            }
        }
    }
}
fn rclose_tol(a: &[f64], b: &[f64], t: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= t * (1. + x.abs()))
}

impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = episode of one to three incarnations of a seeded problem under seeded schedules, crashes, SIGINT; the history in the result of each incarnation is compared row by row with the calls the objective really received (recorded by the simulator) and with the reference functions; nontrivial as in C05",
            quick: 900,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        episode_scn(r, &Bias { mixed: 50, enums: 10, fcstr: 35, trego: 30, doe: 30, max_it: if thorough { 8 } else { 5 }, clusters: 8, ..Default::default() })
    }
    fn run(&self, c: &mut Ctx) {
        episode(c, &judge_history)
    }
}

// ------------------------------------------------------------------------------------------
// C07

pub struct C07;

fn judge_domain(c: &mut Ctx, st: &Step) {
    let (s, o) = (&st.s, st.out());
    for (k, m) in st.inc.bads() {
        if k.ends_with(":domain") || k.ends_with(":dim") {
            st.viol(c, &k, m);
        }
    }
    for (i, x) in o.x_doe.iter().chain(std::iter::once(&o.x_opt)).enumerate() {
        if x.len() != s.dim() {
            st.viol(c, "result:dim", format!("row {i} of the result has {} components", x.len()));
            return;
        }
        for (j, t) in s.xt.iter().enumerate() {
            if !t.valid(x[j]) {
                st.viol(c, "result:domain", format!("row {i} of the result x[{j}]={:?} is not in {t:?}", x[j]));
                return;
            }
        }
    }
    // relaxed rows stay within their limits too
    for (i, r) in o.x_raw.iter().enumerate() {
        if r.len() != s.width() {
            st.viol(c, "state:dim", format!("row {i} of the state has {} columns instead of {}", r.len(), s.width()));
            return;
        }
    }
}

impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = episode of incarnations of a seeded, mostly mixed-integer problem under seeded schedules and crashes; every point the objective, the constraints and the result ever see is checked against the declared domain; nontrivial as in C05",
            quick: 1000,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        episode_scn(r, &Bias { mixed: 75, trego: 35, fcstr: 40, coego: 20, max_it: if thorough { 8 } else { 4 }, clusters: 8, ..Default::default() })
    }
    fn run(&self, c: &mut Ctx) {
        let bad = |c: &mut Ctx, st: &Step| judge_domain(c, st);
        episode(c, &bad)
    }
}

// ------------------------------------------------------------------------------------------
// C08

pub struct C08;

fn judge_budget(c: &mut Ctx, st: &Step) {
    let (s, o) = (&st.s, st.out());
    let e = evals(&st.inc);
    let budget = match (s.hot, st.kind, &st.prev) {
        (Some(n), Kind::Resumed, Some(p)) if n > 0 => p.max_iters + n,
        (Some(n), Kind::Resumed, None) if n > 0 => {
            if !st.budgets.iter().any(|b| b + n == o.max_iters) {
                st.viol(c, "budget", format!("the budget of the run is {}, a checkpoint of {:?} extended by {n} was expected", o.max_iters, st.budgets));
                return;
            }
            o.max_iters
        }
        _ => s.max_iters as u64,
    };
    let init = if st.kind == Kind::Fresh && s.doe != 2 { 1 } else { 0 };
    let start = if st.kind == Kind::Resumed { st.prev.as_ref().map(|p| p.iter) } else { Some(0) };
    let iters = e.n as i64 - init as i64;
    if o.max_iters != budget {
        st.viol(c, "budget", format!("the budget of the run is {} instead of {budget}", o.max_iters));
        return;
    }
    if o.iter > budget || iters > budget as i64 {
        st.viol(c, "budget-exceeded", format!("{} iterations counted, {iters} objective calls, budget {budget}", o.iter));
    }
    let batch: Vec<usize> = st.inc.batches().iter().map(|b| b.0).collect();
    for (k, b) in batch.iter().enumerate() {
        let limit = if k < init as usize {
            s.n_doe_real()
        } else if s.env.iter().any(|e| e == "EGOR_USE_GP_VAR_PORTFOLIO") && s.q_points == 1 {
            13
        } else {
            s.q_points
        };
        if *b > limit || *b == 0 || (k < init as usize && *b != limit) {
            st.viol(c, "batch-size", format!("call {k} of the objective got {b} points, {limit} expected"));
        }
    }
    let interrupted = o.term.contains("Interrupt");
    let converged = o.term.contains("SolverConverged");
    let target = o.term.contains("TargetCostReached");
    let max = o.term.contains("MaxItersReached");
    // (a signal after the last test of the flag leaves the natural status)
    if interrupted && st.inc.stats.signals == 0 {
        st.viol(c, "interrupt-status", format!("status {} with {} signals", o.term, st.inc.stats.signals));
    }
    if !(interrupted || converged || target || max) {
        st.viol(c, "status", format!("unexpected termination status {}", o.term));
        return;
    }
    if let Some(start) = start {
        let done = o.iter as i64 - start as i64;
        // (a signal during the iteration which finds no point to add hides the convergence)
        let fine = if converged || interrupted { iters == done || iters + 1 == done } else { iters == done };
        if !fine {
            st.viol(c, "iteration-count", format!("{iters} objective calls but {done} iterations counted (status {})", o.term));
        }
    }
    if max && o.iter != budget {
        st.viol(c, "early-stop", format!("status {} after {} iterations of {budget}", o.term, o.iter));
    }
    match s.target {
        Some(t) => {
            if target && !(o.y_opt[0] <= t) {
                st.viol(c, "target-not-reached", format!("status {} but the optimum is {} > {t}", o.term, o.y_opt[0]));
            }
            if !target && !interrupted && !converged && o.iter < budget && o.y_opt[0] <= t {
                st.viol(c, "target-missed", format!("the target {t} was reached ({}) but the status is {}", o.y_opt[0], o.term));
            }
            // no further call once the target is reached by a feasible point
            if s.n_cstr + s.n_fcstr == 0 {
                let rows = st.inc.evals();
                let mut i = 0;
                let mut best = f64::INFINITY;
                if st.kind != Kind::Fresh || s.doe == 2 {
                    return;
                }
                for (k, b) in batch.iter().enumerate() {
                    if best <= t {
                        st.viol(c, "work-after-target", format!("call {k} of the objective although the target {t} was reached ({best})"));
                        break;
                    }
                    for r in &rows[i..i + b] {
                        best = best.min(r.1[0]);
                    }
                    i += b;
                }
            }
        }
        None => {
            if target {
                st.viol(c, "target-status", "target status without target".into());
            }
        }
    }
}

impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = episode of incarnations of a seeded problem with targets, budgets, extended budgets, convergence and SIGINT, under seeded schedules with work stealing, preemption and thread counts 1 to 8; checks termination status, budget accounting and that every run ends within a bounded number of scheduling points without deadlock; nontrivial as in C05",
            quick: 1000,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let mut s = episode_scn(r, &Bias { target: 45, max_it: if thorough { 8 } else { 5 }, mixed: 30, ..Default::default() });
        let e = s.ego.as_mut().unwrap();
        if r.chance(12) {
            // few distinct points: the optimizer runs out of them
            e.xt = vec![ego::XT::I(0, 5 + r.below(6) as i32)];
            e.n_doe = 5;
            e.doe = 0;
            e.kpls = 0;
            e.coego = 0;
            e.clusters = 1;
            e.regr = 0;
        }
        if r.chance(10) {
            e.max_iters = r.below(2) as usize;
        }
        s
    }
    fn run(&self, c: &mut Ctx) {
        let s = c.spec();
        let p = c.scn.plans.clone();
        episode(c, &judge_budget);
        // liveness: the run of the first incarnation ends whatever the schedule
        let mut q = p[0].clone();
        q.seed = simrt::mix(&[q.seed, 9]);
        let b = c.ego(3, &q, &Image::new(), &s);
        match b.end {
            End::Deadlock => c.viol("deadlock", "the run is blocked: every thread waits".into()),
            End::StepLimit => c.viol("endless", "the run does not end within 30 million scheduling points".into()),
            // far beyond any run of this size
            End::Killed(libc::SIGXCPU) => {
                let k = if s.cobyla && s.infill == 0 { "hang-logei-cobyla" } else { "hang" };
                c.viol(k, format!("the run has used {} s of CPU time without ending", crate::inc::CPU_LIMIT));
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------------------------
// C09

pub struct C09;

impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = seeded problem, uninterrupted run A; then SIGINT (one to three times) delivered at sampled scheduling points (system calls, lock operations, log lines, objective calls) of the same run under its own schedule, then a hot start; nontrivial = a signal was delivered to the handler before the end of the run",
            quick: 200,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let b = Bias { env: 15, noseed: 15, outdir: 75, max_it: 5, ..Default::default() };
        let mut s = ego::gen(r, &b);
        if r.chance(75) {
            s.hot = Some(0);
        }
        let mut pl = plans(r, 3);
        for p in pl.iter_mut() {
            p.settle = true;
        }
        if r.chance(25) {
            pl[1].settle = false;
        }
        let n = if thorough { 10 } else { 4 };
        let at: Vec<f64> = (0..n).map(|_| r.f64()).collect();
        Scn { check: String::new(), seed: 0, ego: Some(s), plans: pl, crashes: None, p: json!({"at": at, "twice": r.chance(20)}) }
    }
    fn run(&self, c: &mut Ctx) {
        let s = c.spec();
        let p = c.scn.plans.clone();
        let mut q = p[1].clone();
        let explicit = !q.sigint_at.is_empty();
        q.sigint_at.clear();
        let a = c.ego(1, &q, &Image::new(), &s);
        let Some(oa) = ok(&a).cloned() else {
            c.count("base_failed", 1);
            return;
        };
        let ea = evals(&a);
        let total = a.stats.point_calls.max(1);
        let at: Vec<f64> = serde_json::from_value(c.scn.p["at"].clone()).unwrap_or_default();
        let twice = c.scn.p["twice"].as_bool() == Some(true);
        let lists: Vec<Vec<u64>> = if explicit {
            vec![p[1].sigint_at.clone()]
        } else {
            at.iter()
                .map(|f| {
                    let t = 1 + (f * total as f64) as u64;
                    if twice {
                        vec![t, t + 1, t + total / 7]
                    } else {
                        vec![t]
                    }
                })
                .collect()
        };
        for l in lists {
            let mut q = p[1].clone();
            q.sigint_at = l.clone();
            let mut f = c.scn.clone();
            f.plans[1].sigint_at = l.clone();
            let b = c.ego(1, &q, &Image::new(), &s);
            if no_verdict(&b) {
                continue;
            }
            if b.stats.signals == 0 {
                c.count("signal_before_handler", 1);
                continue;
            }
            c.o.nontrivial = true;
            c.count("crash_sigint", b.stats.signals);
            let Some(o) = ok(&b).cloned() else {
                c.viol_at(&format!("sigint-fails:{}", class(&b)), format!("SIGINT at {l:?} of {total}: the run ends with {}", ending(&b)), f);
                continue;
            };
            c.state(hash_rows(&o));
            let eb = evals(&b);
            let n = o.x_doe.len();
            if n > oa.x_doe.len() || !msame(&o.x_doe, &oa.x_doe[..n]) || !msame(&o.y_doe, &oa.y_doe[..n]) || !msame(&o.c_doe, &oa.c_doe[..n]) {
                c.viol_at("sigint-not-a-prefix", format!("SIGINT at {l:?}: the history of {n} rows is not the beginning of the history of the uninterrupted run"), f.clone());
                continue;
            }
            if eb.n > ea.n || !msame(&eb.x, &ea.x[..eb.x.len()]) {
                c.viol_at("sigint-evaluations", format!("SIGINT at {l:?}: the evaluations are not the first ones of the uninterrupted run"), f.clone());
            }
            if !o.term.contains("Interrupt") && !(o.term == oa.term && n == oa.x_doe.len()) {
                c.viol_at("sigint-status", format!("SIGINT at {l:?}: status {} with {n} of {} points", o.term, oa.x_doe.len()), f.clone());
            }
            if p[1].settle {
                // the handler ran at once: at most the current iteration is finished
                let first = b.evs.iter().filter(|e| matches!(e, Ev::Eval { disk, .. } if *disk as u64 + 1 > b.stats.signal_disk)).count();
                let _ = first;
                let late = eb.disk.iter().filter(|d| **d as u64 + 1 > b.stats.signal_disk).count();
                if l.len() == 1 && late > 2 {
                    c.viol_at("sigint-ignored", format!("SIGINT at {l:?} handled before disk operation {}: the objective was called {late} more times", b.stats.signal_disk), f.clone());
                }
            }
            // the interrupted run reports the best of what it evaluated
            let none = vec![];
            let m: Vec<(u8, f64)> = (0..n).map(|i| merit(&s, &o.y_doe[i], o.c_doe.get(i).unwrap_or(&none))).collect();
            match o.best_index {
                Some(b) if b < n && !m.iter().any(|x| better(*x, m[b])) && rclose(&o.x_opt, &o.x_doe[b]) => {}
                x => c.viol_at("sigint-optimum", format!("SIGINT at {l:?}: the reported optimum {:?} (index {x:?}) is not the best point of the history", o.y_opt), f.clone()),
            }
            if s.hot.is_some() {
                let d = c.ego(2, &p[2], &b.disk, &s);
                if no_verdict(&d) {
                    continue;
                }
                match ok(&d) {
                    Some(od) => {
                        if let Some(w) = diff(&oa, od) {
                            c.viol_at("sigint-resume-differs", format!("resumed after SIGINT at {l:?}: {w}"), f);
                        }
                    }
                    None => c.viol_at(&format!("sigint-resume-fails:{}", class(&d)), format!("resumed after SIGINT at {l:?}: {}", ending(&d)), f),
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------
// C17

pub struct C17;

fn judge_files(c: &mut Ctx, st: &Step) {
    let (s, o) = (&st.s, st.out());
    if s.outdir.is_none() {
        return;
    }
    let img = &st.inc.disk;
    let its = o.iter - if st.kind == Kind::Resumed { st.prev.as_ref().map(|p| p.iter).unwrap_or(o.iter) } else { 0 };
    let rows: Vec<Vec<f64>> = (0..o.x_raw.len()).map(|i| [o.x_raw[i].clone(), o.y_doe[i].clone(), o.c_doe[i].clone()].concat()).collect();
    let read = |f: &str| file(img, &s.file(f)).map(|b| npy(b));
    let e = evals(&st.inc);
    let init = if st.kind == Kind::Fresh && s.doe != 2 { 1 } else { 0 };
    if its > 0 || e.n > init {
        match read("egor_doe.npy") {
            None => st.viol(c, "doe-file-missing", format!("no egor_doe.npy after {} iterations", o.iter)),
            Some(None) => st.viol(c, "doe-file-unreadable", "egor_doe.npy cannot be read".into()),
            Some(Some(d)) => {
                if !msame(&d, &rows) {
                    st.viol(c, "doe-file", format!("egor_doe.npy ({} rows) is not the history of the result ({} rows)", d.len(), rows.len()));
                }
            }
        }
        match read("egor_history.npy") {
            None => st.viol(c, "history-file-missing", "no egor_history.npy".into()),
            Some(None) => st.viol(c, "history-file-unreadable", "egor_history.npy cannot be read".into()),
            Some(Some(h)) => {
                let b = o.best_index.unwrap_or(0).min(rows.len() - 1);
                let exp = [o.y_doe[b].clone(), o.x_raw[b].clone()].concat();
                if h.last().map(|r| rclose(r, &exp)) != Some(true) {
                    st.viol(c, "history-file", format!("the last row of egor_history.npy is {:?}, the optimum {exp:?}", h.last()));
                }
                if its > 0 && h.len() as u64 != its {
                    st.viol(c, "history-length", format!("egor_history.npy has {} rows after {its} iterations", h.len()));
                }
            }
        }
    }
    if st.kind != Kind::Resumed {
        match read("egor_initial_doe.npy") {
            None => st.viol(c, "initial-doe-missing", "no egor_initial_doe.npy".into()),
            Some(None) => st.viol(c, "initial-doe-unreadable", "egor_initial_doe.npy cannot be read".into()),
            Some(Some(d)) => {
                let w = s.width() + s.ny();
                let exp: Vec<Vec<f64>> = rows[..o.doe_size.min(rows.len())].iter().map(|r| r[..w].to_vec()).collect();
                if !msame(&d, &exp) {
                    st.viol(c, "initial-doe", format!("egor_initial_doe.npy ({} rows) is not the initial design ({} rows)", d.len(), exp.len()));
                }
            }
        }
    }
    match file(img, &s.file("egor_config.json")).map(|b| serde_json::from_slice::<Value>(b)) {
        Some(Ok(v)) => {
            if v["max_iters"] != json!(s.max_iters) || v["n_cstr"] != json!(s.n_cstr) || v["seed"] != json!(s.seed) {
                st.viol(c, "config-file", format!("egor_config.json does not describe this run: {} {} {}", v["max_iters"], v["n_cstr"], v["seed"]));
            }
            for (k, x) in [("n_doe", json!(s.n_doe)), ("n_start", json!(s.n_start)), ("q_points", json!(s.q_points)), ("outdir", json!(s.outdir)), ("warm_start", json!(s.warm))] {
                if v.get(k).is_some_and(|y| *y != x) {
                    st.viol(c, "config-file", format!("egor_config.json holds {k} = {}, the run was configured with {x}", v[k]));
                }
            }
        }
        Some(Err(e)) => st.viol(c, "config-unreadable", format!("egor_config.json: {e}")),
        None => st.viol(c, "config-missing", "no egor_config.json".into()),
    }
    if s.env.iter().any(|e| e == "EGOR_USE_RUN_RECORDER") {
        match file(img, &s.file("egor_run.json")).map(|b| serde_json::from_slice::<Value>(b)) {
            Some(Ok(v)) => {
                // all the points of the history, once
                let init: Vec<(Vec<f64>, f64)> = v["initial_samples"]["sampled_locations"].as_array().cloned().unwrap_or_default().iter().map(sample).collect();
                let its: Vec<(Vec<f64>, f64)> =
                    v["search_iterations"].as_array().cloned().unwrap_or_default().iter().flat_map(|i| i["sampled_locations"].as_array().cloned().unwrap_or_default()).map(|x| sample(&x)).collect();
                let all: Vec<(Vec<f64>, f64)> = init.into_iter().chain(its).collect();
                let exp: Vec<(Vec<f64>, f64)> = (0..rows.len()).map(|i| (o.x_raw[i].clone(), o.y_doe[i][0])).collect();
                let eq = |a: &(Vec<f64>, f64), b: &(Vec<f64>, f64)| rclose(&a.0, &b.0) && close(a.1, b.1);
                if all.len() != exp.len() || !all.iter().zip(&exp).all(|(a, b)| eq(a, b)) {
                    st.viol(c, "run-file", format!("egor_run.json lists {} points, the history has {} rows", all.len(), exp.len()));
                } else {
                    let sound = v["search_iterations"].as_array().cloned().unwrap_or_default().iter().enumerate().all(|(k, i)| {
                        i["iterations"] == json!(k + 1) && i["batch_size"] == json!(i["sampled_locations"].as_array().map(|a| a.len()).unwrap_or(0))
                    });
                    if !sound || v["algorithm_parameters"]["total_samples"] != json!(exp.len()) {
                        st.viol(c, "run-file-counts", format!("the counts of egor_run.json are wrong: {} samples for {} rows", v["algorithm_parameters"]["total_samples"], exp.len()));
                    }
                }
            }
            Some(Err(e)) => st.viol(c, "run-file-unreadable", format!("egor_run.json: {e}")),
            None => st.viol(c, "run-file-missing", "no egor_run.json".into()),
        }
    }
    if s.env.iter().any(|e| e == "EGOR_USE_GP_RECORDER") {
        let fresh = st.kind != Kind::Resumed;
        judge_gp_file(c, st, "egor_initial_gp.bin", fresh && its > 0);
        judge_gp_file(c, st, "egor_gp.bin", !s.trego && (if fresh { its > 1 } else { its > 0 && o.iter > 1 }));
    }
}

/// the surrogates recorded in a file (EGOR_USE_GP_RECORDER): all of them, trained with the first rows of the history
fn judge_gp_file(c: &mut Ctx, st: &Step, name: &str, must: bool) {
    use egobox_moe::MixtureGpSurrogate;
    let (s, o) = (&st.s, st.out());
    let Some(b) = file(&st.inc.disk, &s.file(name)) else {
        if must {
            st.viol(c, "gp-file-missing", format!("no {name} after {} iterations", o.iter));
        }
        return;
    };
    if !must && file(&st.before, &s.file(name)) == Some(b) {
        // of an earlier run
        return;
    }
    let models: Vec<Box<dyn MixtureGpSurrogate>> = match bincode::serde::decode_from_slice(b, bincode::config::standard()) {
        Ok((m, n)) if n == b.len() => m,
        Ok((_, n)) => return st.viol(c, "gp-file-unreadable", format!("{name}: {} bytes after the models", b.len() - n)),
        Err(e) => return st.viol(c, "gp-file-unreadable", format!("{name}: {e}")),
    };
    if models.len() != s.ny() {
        return st.viol(c, "gp-file-models", format!("{name} holds {} surrogates, the problem has {} outputs", models.len(), s.ny()));
    }
    c.count("gp_files_read", 1);
    for (k, m) in models.iter().enumerate() {
        let (xt, yt) = m.training_data();
        // the last points may be virtual ones (several points by iteration)
        let n = xt.nrows().saturating_sub(s.q_points - 1);
        // (a file this run had no occasion to write is the one of an earlier run)
        let low = if must && name == "egor_gp.bin" { o.doe_size.min(o.x_raw.len()) } else { 1 };
        let late = must && name == "egor_initial_gp.bin" && xt.nrows() > o.doe_size + s.q_points - 1;
        let bad = late || n > o.x_raw.len() || n < low || (0..n).any(|i| !rclose(&xt.row(i).to_vec(), &o.x_raw[i]) || !close(yt[i], o.y_doe[i][k]));
        if bad {
            return st.viol(c, "gp-file-data", format!("{name}: output {k} was trained with {} points which are not the first rows of the history ({} rows)", xt.nrows(), o.x_raw.len()));
        }
    }
}
fn sample(v: &Value) -> (Vec<f64>, f64) {
    (v["locations"].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect()).unwrap_or_default(), v["evaluations"].as_f64().unwrap_or(f64::NAN))
}

impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = episode of incarnations of a seeded problem with an output directory on the simulated disk, with crashes, SIGINT, short and interrupted writes; the files left on the disk are parsed and compared with the returned result; nontrivial as in C05",
            quick: 1000,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        episode_scn(r, &Bias { outdir: 100, env: 50, fcstr: 30, max_it: if thorough { 8 } else { 5 }, clusters: 8, ..Default::default() })
    }
    fn run(&self, c: &mut Ctx) {
        episode(c, &judge_files)
    }
}

pub fn numeric<T>(b: &Inc<T>) -> bool {
    b.end == End::Panic && NUMERIC.iter().any(|m| b.panic.contains(m))
}
