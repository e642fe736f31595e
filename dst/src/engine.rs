//! Scenario engine: generation from seeds, parallel execution, minimisation, replay, evidence.
use crate::ego::{self, EgoRes, EgoSpec};
use crate::inc::{self, End, Inc};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::disk::{CrashSpec, Image};
use simrt::{Plan, Prng, Stats};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// A scenario: everything that determines a simulated execution history.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scn {
    pub check: String,
    pub seed: u64,
    pub ego: Option<EgoSpec>,
    /// schedule / environment of the incarnations
    pub plans: Vec<Plan>,
    /// explicit crash points (chains); None: sampled from the seed
    pub crashes: Option<Vec<Vec<CrashSpec>>>,
    /// check specific parameters
    pub p: Value,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub key: String,
    pub msg: String,
    pub focus: Scn,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunOut {
    pub viols: Vec<Viol>,
    pub counters: BTreeMap<String, u64>,
    pub sched: Vec<u64>,
    pub states: Vec<u64>,
    pub stats: Stats,
    pub incs: u64,
    pub nontrivial: bool,
    pub digest: u64,
    /// digests of the incarnations, for debugging
    #[serde(skip)]
    pub trail: Vec<String>,
    pub recs: BTreeMap<usize, Vec<(u8, u64, u32)>>,
    pub note: String,
}

pub struct Ctx {
    pub scn: Scn,
    pub r: Prng,
    pub o: RunOut,
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hash_image(i: &Image) -> u64 {
    let mut v = vec![];
    for (k, c) in i {
        v.push(hash_bytes(k.as_bytes()));
        v.push(c.as_ref().map(|c| hash_bytes(c)).unwrap_or(1));
    }
    simrt::mix(&v)
}

impl Ctx {
    pub fn new(scn: &Scn) -> Ctx {
        Ctx { scn: scn.clone(), r: Prng::new(simrt::mix(&[scn.seed, 4242])), o: RunOut::default() }
    }
    pub fn spec(&self) -> EgoSpec {
        self.scn.ego.clone().expect("ego spec")
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.o.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn merge<T: Serialize>(&mut self, plan_idx: usize, i: &Inc<T>) {
        let s = &i.stats;
        let t = &mut self.o.stats;
        t.joins += s.joins;
        t.flips += s.flips;
        t.steals += s.steals;
        t.switches += s.switches;
        t.preempts += s.preempts;
        t.futex_waits += s.futex_waits;
        t.clock_reads += s.clock_reads;
        t.clock_jumps += s.clock_jumps;
        t.clock_stalls += s.clock_stalls;
        t.entropy_reads += s.entropy_reads;
        t.disk_calls += s.disk_calls;
        t.io_errors += s.io_errors;
        t.short_io += s.short_io;
        t.eintr += s.eintr;
        t.crashes += s.crashes;
        t.threads_spawned += s.threads_spawned;
        t.signals += s.signals;
        t.sim_ns += s.sim_ns;
        if s.sched_hash != 0 {
            self.o.sched.push(s.sched_hash);
        }
        self.o.incs += 1;
        let ev = bincode::serde::encode_to_vec((&i.evs, &i.out, i.end, &i.log, &i.panic), bincode::config::standard()).unwrap_or_default();
        self.o.trail.push(format!("sched={:x} ev={:x} points={} end={:?} {}", s.sched_hash, hash_bytes(&ev), i.points, i.end, i.panic.chars().take(60).collect::<String>()));
        self.o.digest = simrt::mix(&[self.o.digest, s.sched_hash, hash_bytes(&ev), i.points]);
        match i.end {
            End::Wall => self.count("no_verdict_wall", 1),
            End::Killed(_) => self.count("no_verdict_killed", 1),
            End::Panic => self.count("ended_by_panic", 1),
            _ => {}
        }
        self.o.recs.entry(plan_idx).or_insert_with(|| i.rec.clone());
    }
    pub fn ego(&mut self, plan_idx: usize, plan: &Plan, image: &Image, s: &EgoSpec) -> Inc<EgoRes> {
        let i = ego::exec(plan, image, s);
        self.merge(plan_idx, &i);
        i
    }
    pub fn work<T: Serialize + for<'a> Deserialize<'a>>(
        &mut self,
        plan_idx: usize,
        plan: &Plan,
        image: &Image,
        work: impl FnOnce() -> T + Send + 'static,
    ) -> Inc<T> {
        self.work_env(plan_idx, plan, image, inc::Env { vars: vec![], log_level: 0 }, work)
    }
    pub fn work_env<T: Serialize + for<'a> Deserialize<'a>>(
        &mut self,
        plan_idx: usize,
        plan: &Plan,
        image: &Image,
        env: inc::Env,
        work: impl FnOnce() -> T + Send + 'static,
    ) -> Inc<T> {
        let i = inc::run(plan, image, &env, work);
        self.merge(plan_idx, &i);
        i
    }
    pub fn state(&mut self, h: u64) {
        self.o.states.push(h);
    }
    pub fn viol(&mut self, key: &str, msg: String) {
        let f = self.scn.clone();
        self.viol_at(key, msg, f)
    }
    pub fn viol_at(&mut self, key: &str, msg: String, focus: Scn) {
        if self.o.viols.iter().any(|v| v.key == key) {
            return;
        }
        self.o.viols.push(Viol { key: key.into(), msg, focus });
    }
    pub fn viol_crash(&mut self, key: &str, msg: String, chain: &[CrashSpec]) {
        let mut f = self.scn.clone();
        f.crashes = Some(vec![chain.to_vec()]);
        self.viol_at(key, msg, f)
    }
    /// turn the observations of the callbacks into violations, for the keys accepted by `f`
    pub fn bads<T>(&mut self, i: &Inc<T>, f: impl Fn(&str) -> bool) {
        for (k, m) in i.bads() {
            if f(&k) {
                self.viol(&k, m);
            }
        }
    }
}

pub struct Meta {
    pub level: &'static str,
    pub rule: &'static str,
    /// number of scenarios of the quick tier
    pub quick: u64,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn meta(&self) -> Meta;
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn;
    fn run(&self, c: &mut Ctx);
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        generic_shrink(s)
    }
}

pub fn generic_shrink(s: &Scn) -> Vec<Scn> {
    let mut v = vec![];
    // simpler environments first
    for i in 0..s.plans.len() {
        let p = &s.plans[i];
        let mut t = |f: &dyn Fn(&mut Plan)| {
            let mut q = p.clone();
            f(&mut q);
            if q != *p {
                let mut c = s.clone();
                c.plans[i] = q;
                v.push(c);
            }
        };
        t(&|q| *q = Plan { seed: q.seed, io_faults: q.io_faults.clone(), crash_at: q.crash_at, sigint_at: q.sigint_at.clone(), settle: q.settle, ..Default::default() });
        t(&|q| {
            q.flip_ppm = 0;
            q.steal_ppm = 0;
            q.switch_ppm = 0;
            q.preempt_mean = 0;
            q.workers = 0;
            q.threads = 1;
            q.trace = None;
        });
        t(&|q| q.clock_ppm = 0);
        t(&|q| q.clock_seed = 1);
        t(&|q| q.entropy_seed = 1);
        t(&|q| {
            q.short_ppm = 0;
            q.eintr_ppm = 0;
        });
        t(&|q| q.steal_ppm = 0);
        t(&|q| q.flip_ppm = 0);
        t(&|q| q.switch_ppm = 0);
        t(&|q| q.preempt_mean = 0);
        for k in 0..p.sigint_at.len() {
            if p.sigint_at.len() > 1 {
                t(&|q| {
                    q.sigint_at.remove(k);
                });
            }
        }
        for k in 0..p.io_faults.len() {
            t(&|q| {
                q.io_faults.remove(k);
            });
        }
    }
    if let Some(cr) = &s.crashes {
        for k in 0..cr.len() {
            if cr.len() > 1 {
                let mut c = s.clone();
                c.crashes.as_mut().unwrap().remove(k);
                v.push(c);
            }
            for j in 0..cr[k].len() {
                if cr[k].len() > 1 {
                    let mut c = s.clone();
                    c.crashes.as_mut().unwrap()[k].remove(j);
                    v.push(c);
                }
                if let CrashSpec::Kill { ops, torn: Some(_) } = cr[k][j] {
                    let mut c = s.clone();
                    c.crashes.as_mut().unwrap()[k][j] = CrashSpec::Kill { ops, torn: None };
                    v.push(c);
                }
            }
        }
    }
    if let Some(e) = &s.ego {
        for e in ego::shrink(e) {
            let mut c = s.clone();
            c.ego = Some(e);
            c.crashes = None;
            v.push(c);
        }
    }
    v
}

/// swarm style choice of scheduling and environment perturbations
pub fn gen_plan(r: &mut Prng) -> Plan {
    let threads = *r.pick(&[1usize, 2, 3, 4, 8]);
    let sched = r.below(4);
    let p = Plan {
        seed: r.next(),
        threads,
        workers: if sched == 0 { 0 } else { r.range(1, 4) as usize },
        flip_ppm: if sched == 0 { 0 } else { *r.pick(&[0, 50_000, 300_000, 500_000]) },
        steal_ppm: if sched == 0 { 0 } else { *r.pick(&[0, 20_000, 200_000, 600_000]) },
        switch_ppm: if sched == 0 { 0 } else { *r.pick(&[0, 50_000, 300_000]) },
        preempt_mean: if sched == 0 { 0 } else { *r.pick(&[0, 200, 2000, 20000]) },
        entropy_seed: r.next(),
        clock_seed: r.next(),
        clock_ppm: *r.pick(&[0, 0, 20_000, 200_000]),
        io_faults: vec![],
        short_ppm: *r.pick(&[0, 0, 50_000, 300_000]),
        eintr_ppm: *r.pick(&[0, 0, 50_000, 200_000]),
        crash_at: None,
        sigint_at: vec![],
        settle: false,
        trace: None,
    };
    if sched == 3 && r.chance(30) {
        return busy(r, p);
    }
    p
}

/// a plan where the threads of the pool take work from each other all the time
pub fn busy(r: &mut Prng, p: Plan) -> Plan {
    Plan {
        threads: *r.pick(&[4usize, 8]),
        workers: r.range(2, 4) as usize,
        flip_ppm: *r.pick(&[0, 50_000]),
        steal_ppm: *r.pick(&[200_000, 600_000]),
        switch_ppm: *r.pick(&[50_000, 300_000]),
        preempt_mean: *r.pick(&[20, 200, 2000]),
        ..p
    }
}

pub fn run_scn(c: &dyn Check, s: &Scn) -> RunOut {
    let mut ctx = Ctx::new(s);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.run(&mut ctx)));
    if r.is_err() {
        ctx.count("harness_panic", 1);
    }
    ctx.o
}

pub fn scenario(c: &dyn Check, verif_seed: u64, idx: u64, thorough: bool) -> Scn {
    let seed = simrt::mix(&[verif_seed, hash_bytes(c.id().as_bytes()), idx]);
    let mut r = Prng::new(seed);
    let mut s = c.gen(&mut r, thorough);
    s.check = c.id().to_string();
    s.seed = seed;
    s
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
    #[serde(default)]
    pub status: String,
}

pub fn known() -> Vec<Known> {
    std::fs::read("/verif/known_findings.json")
        .ok()
        .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
        .and_then(|v| serde_json::from_value(v["findings"].clone()).ok())
        .unwrap_or_default()
}

struct Shared {
    next: AtomicU64,
}

pub fn check_main(c: &dyn Check, verif_seed: u64, thorough: bool, minutes: Option<f64>, workers: usize) -> i32 {
    let t0 = Instant::now();
    let meta = c.meta();
    println!("dst: property={} seed={verif_seed} tier={}", c.id(), if thorough { "thorough" } else { "quick" });
    let n = if thorough { u64::MAX } else { std::env::var("DST_N").ok().and_then(|s| s.parse().ok()).unwrap_or(meta.quick) };
    let budget = match minutes {
        Some(m) => Duration::from_secs_f64(m * 60.),
        None => {
            if thorough {
                Duration::from_secs(600)
            } else {
                Duration::from_secs(240)
            }
        }
    };
    let shared: &'static Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    };
    let recheck: u64 = std::env::var("DST_RECHECK").ok().and_then(|s| s.parse().ok()).unwrap_or(29);
    let mut kids = vec![];
    for _ in 0..workers {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut out = std::fs::File::from_raw_fd(fds[1]);
                std::panic::set_hook(Box::new(|i| {
                    eprintln!("harness panic: {i}");
                }));
                loop {
                    let idx = shared.next.fetch_add(1, Ordering::SeqCst);
                    if idx >= n || t0.elapsed() > budget {
                        break;
                    }
                    let s = scenario(c, verif_seed, idx, thorough);
                    let t1 = Instant::now();
                    let mut o = run_scn(c, &s);
                    if t1.elapsed() > Duration::from_secs(15) {
                        eprintln!("slow scenario {idx}: {:?}", t1.elapsed());
                    }
                    if idx % recheck == 0 {
                        let o2 = run_scn(c, &s);
                        o.counters.insert("determinism_rechecks".into(), 1);
                        if o2.digest != o.digest {
                            o.counters.insert("determinism_mismatch".into(), 1);
                            eprintln!("nondeterministic scenario {idx}");
                        }
                    }
                    o.recs.clear();
                    let line = serde_json::to_vec(&(idx, &o)).unwrap();
                    let _ = out.write_all(&(line.len() as u64).to_le_bytes());
                    if out.write_all(&line).is_err() {
                        break;
                    }
                }
                drop(out);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0], Vec::<u8>::new(), false));
        }
    }
    let first = std::env::var("DST_FIRST").is_ok();
    let mut outs: Vec<(u64, RunOut)> = vec![];
    let mut all_viols: BTreeMap<String, (u64, Viol)> = BTreeMap::new();
    while kids.iter().any(|k| !k.3) {
        let mut p: Vec<libc::pollfd> = kids
            .iter()
            .map(|k| libc::pollfd { fd: if k.3 { -1 } else { k.1 }, events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, 1000) };
        for (i, q) in p.iter().enumerate() {
            if q.revents == 0 || kids[i].3 {
                continue;
            }
            let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(kids[i].1) });
            let mut b = vec![0u8; 1 << 16];
            match f.read(&mut b) {
                Ok(0) | Err(_) => kids[i].3 = true,
                Ok(n) => kids[i].2.extend_from_slice(&b[..n]),
            }
            loop {
                let k = &mut kids[i].2;
                if k.len() < 8 {
                    break;
                }
                let l = u64::from_le_bytes(k[..8].try_into().unwrap()) as usize;
                if k.len() < 8 + l {
                    break;
                }
                let (idx, mut o): (u64, RunOut) = serde_json::from_slice(&k[8..8 + l]).expect("worker message");
                k.drain(..8 + l);
                for v in o.viols.drain(..) {
                    // developer option: stop at the first violation
                    if first && !known().iter().any(|k| k.property == c.id() && k.key == v.key) {
                        println!("found: key={} scenario={idx}: {}", v.key, v.msg);
                        println!("VIOLATION property={} replay=/none/{}", c.id(), v.key);
                        kids.iter().for_each(|k| unsafe {
                            libc::kill(k.0, libc::SIGKILL);
                        });
                        return 1;
                    }
                    let e = all_viols.entry(v.key.clone()).or_insert((idx, v.clone()));
                    if idx < e.0 {
                        *e = (idx, v);
                    }
                }
                outs.push((idx, o));
            }
        }
    }
    for k in &kids {
        let mut st = 0;
        unsafe { libc::waitpid(k.0, &mut st, 0) };
    }
    let explore = t0.elapsed().as_secs_f64();
    outs.sort_by_key(|o| o.0);

    // ---- verdict
    let known = known();
    let mut code = 0;
    let mut reported = 0;
    let mut notes = vec![];
    for k in known.iter().filter(|k| k.property == c.id() && k.status != "fixed") {
        if all_viols.contains_key(&k.key) {
            println!("KNOWN-FINDING: property={} {}", c.id(), k.what);
        } else {
            println!("KNOWN-FINDING: property={} {} (listed, not met by this run)", c.id(), k.what);
        }
    }
    let mut fresh: Vec<(u64, Viol)> = all_viols
        .into_values()
        .filter(|(_, v)| !known.iter().any(|k| k.property == c.id() && k.status != "fixed" && k.key == v.key))
        .collect();
    fresh.sort_by_key(|f| f.0);
    for (idx, v) in &fresh {
        println!("found: key={} scenario={idx}: {}", v.key, v.msg);
    }
    for (idx, v) in fresh.iter().take(3) {
        code = 1;
        let limit = if reported == 0 { 60 } else { 20 };
        let path = report(c, v, *idx, verif_seed, Duration::from_secs(limit));
        println!("VIOLATION property={} replay={path}", c.id());
        reported += 1;
    }

    // ---- evidence
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut sched: BTreeSet<u64> = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut st = Stats::default();
    let (mut incs, mut nt) = (0, 0u64);
    let mut nth: BTreeSet<u64> = BTreeSet::new();
    for (_, o) in &outs {
        for (k, v) in &o.counters {
            *counters.entry(k.clone()).or_insert(0) += v;
        }
        sched.extend(&o.sched);
        states.extend(&o.states);
        incs += o.incs;
        if o.nontrivial {
            nt += 1;
            nth.insert(o.digest);
        }
        let s = &o.stats;
        macro_rules! add { ($($f:ident),*) => { $( st.$f += s.$f; )* } }
        add!(joins, flips, steals, switches, preempts, futex_waits, clock_reads, clock_jumps, clock_stalls,
             entropy_reads, disk_calls, io_errors, short_io, eintr, crashes, threads_spawned, signals, sim_ns);
    }
    let _ = nt;
    let mismatch = counters.get("determinism_mismatch").copied().unwrap_or(0);
    let hp = counters.get("harness_panic").copied().unwrap_or(0);
    if mismatch > 0 {
        notes.push("determinism mismatch".to_string());
    }
    let samples: Vec<Value> = outs
        .iter()
        .filter(|o| o.1.nontrivial)
        .take(3)
        .map(|o| {
            let s = scenario(c, verif_seed, o.0, thorough);
            json!({"scenario": o.0, "seed": s.seed, "spec": serde_json::to_value(&s.ego).unwrap(), "p": s.p, "note": o.1.note,
                   "incarnations": o.1.incs, "plan0": s.plans.first().map(|p| format!("{p:?}"))})
        })
        .collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": c.id(),
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": verif_seed,
        "level": meta.level,
        "coverage": {
            "evaluations": incs,
            "distinct_nontrivial": nth.len(),
            "rule": meta.rule,
            "samples": samples,
            "scenarios": outs.len(),
            "simulated_runs": incs,
            "runs_per_hour": incs as f64 / explore * 3600.,
            "seeds_per_hour": outs.len() as f64 / explore * 3600.,
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "distinct_schedules": sched.len(),
            "distinct_schedules_measure": "hash of the sequence of all non default scheduling decisions of one incarnation",
            "distinct_states": states.len(),
            "distinct_states_measure": "hash of the disk image the next incarnation starts from, or of the final history when there is no crash",
            "injected": {
                "crashes": counters.iter().filter(|c| c.0.starts_with("crash_")).map(|c| (c.0.clone(), *c.1)).collect::<BTreeMap<_,_>>(),
                "signals": st.signals, "io_errors": st.io_errors, "short_io": st.short_io, "eintr": st.eintr,
                "clock_jumps": st.clock_jumps, "clock_stalls": st.clock_stalls, "preemptions": st.preempts,
                "join_order_flips": st.flips, "job_steals": st.steals, "context_switches": st.switches,
            },
            "seams_used": {"joins": st.joins, "clock_reads": st.clock_reads, "entropy_reads": st.entropy_reads,
                "disk_calls": st.disk_calls, "futex_waits": st.futex_waits, "threads": st.threads_spawned},
            "counters": counters,
            "real_components": meta.real,
            "stubbed_components": meta.stub,
        },
        "assumptions": meta.assumptions,
        "wall_s": wall,
        "violations": fresh.len(),
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    let path = format!("/verif/evidence/{}.json", c.id());
    std::fs::write(&path, serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "dst: {} scenarios={} runs={} nontrivial={} schedules={} states={} violations={} wall={:.1}s counters={:?}",
        c.id(), outs.len(), incs, nth.len(), sched.len(), states.len(), fresh.len(), wall, counters
    );
    if code == 0 && (hp > 0 || outs.is_empty()) {
        eprintln!("harness error");
        return 2;
    }
    code
}

fn has_key<'a>(o: &'a RunOut, key: &str) -> Option<&'a Viol> {
    o.viols.iter().find(|v| v.key == key)
}

fn report(c: &dyn Check, v: &Viol, idx: u64, vs: u64, limit: Duration) -> String {
    let t0 = Instant::now();
    let mut cur = v.clone();
    let mut steps = 0;
    // confirm that the focused scenario reproduces
    let o = run_scn(c, &cur.focus);
    if has_key(&o, &v.key).is_none() {
        let s = scenario(c, vs, idx, false);
        cur.focus = s;
    }
    'outer: loop {
        for cand in c.shrink(&cur.focus) {
            if t0.elapsed() > limit * 2 / 3 {
                break 'outer;
            }
            steps += 1;
            let o = run_scn(c, &cand);
            if let Some(w) = has_key(&o, &v.key) {
                if w.focus == cur.focus {
                    continue;
                }
                cur = w.clone();
                continue 'outer;
            }
        }
        break;
    }
    // schedule: keep only the decisions that matter
    for i in 0..cur.focus.plans.len() {
        let p = cur.focus.plans[i].clone();
        if p.trace.is_some() || p.flip_ppm + p.steal_ppm + p.switch_ppm + p.preempt_mean + p.short_ppm + p.eintr_ppm == 0 {
            continue;
        }
        let o = run_scn(c, &cur.focus);
        let Some(rec) = o.recs.get(&i).cloned() else { continue };
        let mut with = |t: Vec<(u8, u64, u32)>| -> Option<Viol> {
            let mut f = cur.focus.clone();
            f.plans[i].trace = Some(t);
            has_key(&run_scn(c, &f), &v.key).cloned()
        };
        let mut keep = rec;
        let Some(w) = with(keep.clone()) else { continue };
        let mut best = w;
        let mut chunk = keep.len().div_ceil(2).max(1);
        loop {
            let mut k = 0;
            while k < keep.len() {
                if t0.elapsed() > limit {
                    break;
                }
                let mut t = keep.clone();
                t.drain(k..(k + chunk).min(t.len()));
                steps += 1;
                if let Some(w) = with(t.clone()) {
                    keep = t;
                    best = w;
                } else {
                    k += chunk;
                }
            }
            if chunk == 1 || t0.elapsed() > limit {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        cur = best;
    }
    let dir = "/verif/replays";
    let _ = std::fs::create_dir_all(dir);
    let slug: String = cur.key.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(40).collect();
    let path = format!("{dir}/{}-{}-{:08x}.json", c.id(), slug, hash_bytes(&serde_json::to_vec(&cur.focus).unwrap()) as u32);
    let file = |v: &Viol| {
        json!({"property": c.id(), "key": v.key, "message": v.msg, "verif_seed": vs, "scenario_index": idx, "minimisation_steps": steps, "scenario": v.focus})
    };
    std::fs::write(&path, serde_json::to_vec_pretty(&file(&cur)).unwrap()).expect("replay file");
    let ok = |p: &str| {
        std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", p])
            .stdout(std::process::Stdio::null())
            .status()
            .map(|s| s.code() == Some(1))
            .unwrap_or(false)
    };
    if !ok(&path) {
        println!("note: the minimised scenario did not reproduce in a fresh process, falling back to the original one");
        std::fs::write(&path, serde_json::to_vec_pretty(&file(v)).unwrap()).expect("replay file");
        if !ok(&path) {
            println!("note: replay in a fresh process did not reproduce");
        }
    }
    println!("minimised ({steps} steps): key={} {}", cur.key, cur.msg);
    path
}

pub fn replay(checks: &[&dyn Check], path: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let s: Scn = serde_json::from_value(v["scenario"].clone()).expect("scenario");
    let key = v["key"].as_str().unwrap_or("").to_string();
    let c = checks.iter().find(|c| c.id() == s.check).expect("check");
    let o = run_scn(*c, &s);
    for w in &o.viols {
        println!("{}: {}", w.key, w.msg);
    }
    if has_key(&o, &key).is_some() {
        println!("VIOLATION property={} replay={path}", c.id());
        1
    } else {
        println!("not reproduced");
        0
    }
}
