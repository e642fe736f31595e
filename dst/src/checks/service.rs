//! C12: several optimizations in one process. C13: ask and tell. C14: sampling.
use super::common::*;
use super::recovery::diff;
use crate::ego::{self, rows, Bias, EgoOut, EgoRes, EgoSpec, Problem, XT};
use crate::engine::*;
use crate::inc::{self, bad, End, Inc};
use crate::model::gen_xt;
use egobox_doe::{FullFactorial, Lhs, LhsKind, Random, SamplingMethod};
use egobox_ego::gpmix::mixint::MixintContext;
use egobox_ego::{EgorServiceBuilder, XType};
use ndarray::Array2;
use ndarray_rand::rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::disk::{crash_image, CrashSpec, Image};
use simrt::{Plan, Prng};

type Res<T> = Result<T, String>;

fn endof<T>(i: &Inc<T>) -> String {
    format!("{:?} {}", i.end, i.panic)
}
fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {m}")
    })
}

/// a short and cheap optimization
fn light(s: &EgoSpec, i: u64) -> EgoSpec {
    EgoSpec {
        xt: vec![XT::F(0., 1.)],
        mixint: false,
        fun: i,
        family: 0,
        n_cstr: 0,
        n_fcstr: 0,
        n_doe: 4 + i as usize % 2,
        doe: 0,
        max_iters: 1,
        q_points: 1,
        n_start: 2,
        trego: s.trego && i % 3 == 0,
        coego: 0,
        kpls: 0,
        clusters: 1,
        gp_start: 1,
        cstr_infill: false,
        cstr_tol: None,
        seed: Some(i),
        outdir: s.outdir.as_ref().map(|_| "/simdisk/client-before".into()),
        warm: false,
        hot: None,
        target: None,
        sigint_at: None,
        panic_at: None,
        ..s.clone()
    }
}
/// number of things done before by the process
fn small(r: &mut Prng) -> u64 {
    *r.pick(&[0, 0, 0, 0, 1, 5, 12, 30])
}
/// the same run but for one thing
fn near(r: &mut Prng, s: &EgoSpec) -> EgoSpec {
    let mut s = s.clone();
    match r.below(8) {
        7 => s.theta = (s.theta + 1) % 4,
        0 => s.seed = s.seed.map(|x| x ^ 5),
        1 => s.n_start += 1,
        2 => s.infill = (s.infill + 1) % 3,
        3 => s.corr = (s.corr + 1) % 4,
        4 => s.max_iters += 1,
        5 => s.family = (s.family + 1) % 4,
        _ => s.fun += 1,
    }
    s
}

// ------------------------------------------------------------------------------------------
pub struct C12;

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = two or three seeded runs with separate output directories, executed alone and then together in one simulated process, by threads or by tasks of the thread pool, some resumed from a checkpoint cut by a kill, one possibly stopped by a panic of its objective; nontrivial = at least two runs succeed alone",
            quick: 250,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let n = 2 + r.below(2) as usize;
        let mut v: Vec<EgoSpec> = vec![];
        for k in 0..n {
            let b = Bias { env: if k == 0 { 25 } else { 0 }, noseed: 0, outdir: 100, target: 5, clusters: 8, coego: 10, max_it: if thorough { 4 } else { 3 }, ..Default::default() };
            let mut s = if k > 0 && r.chance(25) { near(r, &v[0]) } else { ego::gen(r, &b) };
            s.outdir = Some(format!("/simdisk/client{k}"));
            s.hot = if r.chance(60) { Some(0) } else { None };
            s.env = v.first().map(|f| f.env.clone()).unwrap_or(s.env);
            s.log_level = v.first().map(|f| f.log_level).unwrap_or(s.log_level);
            v.push(s);
        }
        let resumed: Vec<bool> = v.iter().map(|s| s.hot.is_some() && r.chance(35)).collect();
        let mut plans: Vec<Plan> = (0..4).map(|_| gen_plan(r)).collect();
        plans[0] = quiet(r.next());
        let pool = r.chance(40);
        // other runs in the same busy pool
        let crowd = if pool && r.chance(50) { 3 + r.below(8) } else { 0 };
        if crowd > 0 {
            plans[1] = crate::engine::busy(r, plans[1].clone());
            plans[2] = crate::engine::busy(r, plans[2].clone());
        }
        Scn {
            check: String::new(),
            seed: 0,
            ego: None,
            plans,
            crashes: None,
            p: json!({"runs": v, "resumed": resumed, "pool": pool, "crowd": crowd, "panic": if r.chance(20) { json!(r.below(4)) } else { json!(null) }, "cut": r.below(1_000_000), "n": if thorough { 3 } else { 2 }, "small": small(r)}),
        }
    }
    fn run(&self, c: &mut Ctx) {
        let specs: Vec<EgoSpec> = serde_json::from_value(c.scn.p["runs"].clone()).unwrap_or_default();
        let resumed: Vec<bool> = serde_json::from_value(c.scn.p["resumed"].clone()).unwrap_or_default();
        let pool = c.scn.p["pool"].as_bool() == Some(true);
        let p = c.scn.plans.clone();
        let mut img0 = Image::new();
        let mut solo: Vec<Option<(EgoOut, Image)>> = vec![];
        let mut starts = vec![];
        for (k, s) in specs.iter().enumerate() {
            let mut img = Image::new();
            if resumed.get(k) == Some(&true) {
                let z = c.ego(3, &p[3], &Image::new(), s);
                if ok(&z).is_some() {
                    let cut = c.scn.p["cut"].as_u64().unwrap_or(0) as usize * z.log.len() / 1_000_000;
                    img = crash_image(&Image::new(), &z.log, &CrashSpec::Kill { ops: cut, torn: None });
                }
            }
            img0.extend(img.clone());
            starts.push(img);
        }
        for (k, s) in specs.iter().enumerate() {
            let a = c.ego(0, &p[0], &starts[k], s);
            if no_verdict(&a) {
                return;
            }
            solo.push(ok(&a).map(|o| (o.clone(), a.disk.clone())));
        }
        if solo.iter().filter(|s| s.is_some()).count() < 2 {
            c.count("base_failed", 1);
            return;
        }
        c.o.nontrivial = true;
        let panics: Option<usize> = c.scn.p["panic"].as_u64().map(|k| k as usize % specs.len());
        for t in 1..=c.scn.p["n"].as_u64().unwrap_or(1) as usize {
            let mut all = specs.clone();
            let victim = if t == 1 { None } else { panics };
            if let Some(k) = victim {
                all[k].panic_at = Some(1);
            }
            let env = all[0].penv();
            let crowd = if pool { c.scn.p["crowd"].as_u64().unwrap_or(0) } else { 0 };
            for i in 0..crowd {
                all.push(EgoSpec { outdir: Some(format!("/simdisk/client-crowd{i}")), n_cstr: (i % 3) as usize, gp_start: 2, trego: false, ..light(&specs[0], i) });
            }
            let small = if t == 1 { c.scn.p["small"].as_u64().unwrap_or(0) } else { 0 };
            let b: Inc<Vec<Result<EgoRes, String>>> = c.work_env(t.min(2), &p[t.min(2)], &img0, env, move || {
                // what the process did before
                for i in 0..small {
                    let s = light(&all[0], i);
                    let _ = caught(|| ego::run(&s));
                }
                if pool {
                    use rayon::prelude::*;
                    all.par_iter().map(|s| caught(|| ego::run(s))).collect()
                } else {
                    std::thread::scope(|sc| {
                        let hs: Vec<_> = all[1..].iter().map(|s| sc.spawn(move || caught(|| ego::run(s)))).collect();
                        let mut v = vec![caught(|| ego::run(&all[0]))];
                        v.extend(hs.into_iter().map(|h| h.join().unwrap_or(Err("thread panics".into()))));
                        v
                    })
                }
            });
            if no_verdict(&b) {
                continue;
            }
            c.count(if pool { "groups_in_pool" } else { "groups_in_threads" }, 1);
            if victim.is_some() {
                c.count("groups_with_panic", 1);
            }
            c.bads(&b, |_| true);
            let Some(v) = (if b.end == End::Done { b.out.as_ref() } else { None }) else {
                c.viol(&format!("group-abnormal-end:{:?}", b.end).to_lowercase(), format!("{} runs which succeed alone, started together, end with {}", specs.len(), endof(&b)));
                continue;
            };
            c.state(hash_image(&b.disk));
            for (k, r) in v.iter().enumerate() {
                if victim == Some(k) || k >= specs.len() {
                    continue;
                }
                let Some((o, disk)) = &solo[k] else { continue };
                match r {
                    Ok(Ok(o2)) => {
                        if let Some(d) = diff(o, o2) {
                            c.viol("group-result-differs", format!("run {k} alone / together with {} other(s): {d}", specs.len() - 1));
                        }
                        let dir = format!("/simdisk/client{k}/");
                        let names = |i: &Image| i.iter().filter(|(n, f)| n.starts_with(&dir) && f.is_some() && !n.ends_with(".tmp")).map(|(n, _)| n.clone()).collect::<Vec<_>>();
                        if names(disk) != names(&b.disk) {
                            c.viol("group-files-differ", format!("files of run {k} alone {:?} / together {:?}", names(disk), names(&b.disk)));
                        }
                        for n in names(disk) {
                            if let (Some(x), Some(y)) = (file(disk, &n), file(&b.disk, &n)) {
                                let (x, y) = (super::io::content(&n, x), super::io::content(&n, y));
                                if x != y {
                                    c.viol(&format!("group-file-differs:{}", n.rsplit('/').next().unwrap_or("")), format!("{n} of run {k} is not the one written alone: {}", y.err().unwrap_or("other values".into())));
                                }
                            }
                        }
                    }
                    Ok(Err(e)) | Err(e) => c.viol("group-run-fails", format!("run {k} succeeds alone and fails together with others: {e}")),
                }
            }
            // nothing outside of the directories
            if let Some((n, _)) = b.disk.iter().find(|(n, f)| f.is_some() && !n.starts_with("/simdisk/client")) {
                c.viol("group-stray-file", format!("{n} is written outside of the output directories"));
            }
        }
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v = vec![];
        let n = s.p["runs"].as_array().map(|a| a.len()).unwrap_or(0);
        if n > 2 {
            for k in 0..n {
                let mut c = s.clone();
                for f in ["runs", "resumed"] {
                    if let Some(a) = c.p[f].as_array_mut() {
                        a.remove(k);
                    }
                }
                // the directories keep their order
                for i in 0..n - 1 {
                    c.p["runs"][i]["outdir"] = json!(format!("/simdisk/client{i}"));
                }
                v.push(c);
            }
        }
        for (f, x) in [("pool", json!(false)), ("panic", json!(null)), ("crowd", json!(0)), ("n", json!(1)), ("small", json!(0)), ("small", json!(3))] {
            let mut c = s.clone();
            c.p[f] = x;
            if c.p != s.p {
                v.push(c);
            }
        }
        for k in 0..n {
            for (f, x) in [("max_iters", json!(2)), ("max_iters", json!(1)), ("trego", json!(false)), ("coego", json!(0)), ("q_points", json!(1)), ("n_fcstr", json!(0)), ("kpls", json!(0)), ("clusters", json!(1)), ("env", json!([])), ("doe", json!(0)), ("hot", json!(null))] {
                let mut c = s.clone();
                c.p["runs"][k][f] = x;
                if f == "hot" {
                    c.p["resumed"][k] = json!(false);
                }
                if c.p != s.p {
                    v.push(c);
                }
            }
        }
        v.extend(generic_shrink(s));
        v
    }
}

// ------------------------------------------------------------------------------------------
pub struct C13;

/// the data a client keeps
type Data = (Vec<Vec<f64>>, Vec<Vec<f64>>);

fn limits(xt: &[XT]) -> Array2<f64> {
    let mut l = Array2::zeros((xt.len(), 2));
    for (i, t) in xt.iter().enumerate() {
        l[[i, 0]] = t.limits().0;
        l[[i, 1]] = t.limits().1;
    }
    l
}
/// a client of the service
#[derive(Clone, Serialize, Deserialize)]
struct Client {
    spec: EgoSpec,
    /// 0 scattered points, 1 some points twice, 2 one value for all, 3 a cloud of close points
    data: u8,
}
impl Client {
    fn start(&self) -> Data {
        let s = &self.spec;
        let p = Problem::new(s);
        let x: Vec<Vec<f64>> = rows(&ego::user_doe(s)).iter().map(|r| ego::fold(&s.xt, r)).collect();
        let mut x = x;
        match self.data {
            1 => x.extend(x.iter().take(2).cloned().collect::<Vec<_>>()),
            3 if !ego::discrete(&s.xt) => {
                let c = x[0].clone();
                for (k, r) in x.iter_mut().enumerate() {
                    for (v, c) in r.iter_mut().zip(&c) {
                        *v = c + (*v - c) * if k % 2 == 0 { 1e-3 } else { 1e-9 };
                    }
                }
            }
            _ => {}
        }
        let mut y: Vec<Vec<f64>> = x.iter().map(|r| p.eval(r)).collect();
        if self.data == 2 {
            let v = y[0].clone();
            y.iter_mut().for_each(|r| *r = v.clone());
        }
        (x, y)
    }
    /// a function giving suggestions for data
    fn service(&self) -> Res<Box<dyn Fn(&Data) -> Vec<Vec<f64>> + Sync>> {
        let mut s = self.spec.clone();
        s.doe = 0;
        let (d, ny) = (s.dim(), s.ny());
        let b = EgorServiceBuilder::optimize().configure(|c| ego::configure(&s, c));
        let m = move |v: &[Vec<f64>], n| ego::arr(v, n);
        let s3 = s.clone();
        let judge = move |x: Array2<f64>| {
            let x = rows(&x);
            for r in &x {
                ego::check_x(&s3.xt, r, "suggestion");
            }
            // several points come from the portfolio of variance weights
            let portfolio = s3.q_points == 1 && s3.env.iter().any(|e| e == "EGOR_USE_GP_VAR_PORTFOLIO");
            if x.len() != s3.q_points && !(portfolio && (1..=13).contains(&x.len())) {
                bad("suggestion-count", || format!("{} points suggested instead of {}", x.len(), s3.q_points));
            }
            x
        };
        if ego::discrete(&s.xt) || s.mixint {
            let e = b.min_within_mixint_space(&s.xtypes()).map_err(|e| format!("{e:?}"))?;
            Ok(Box::new(move |q: &Data| judge(e.suggest(&m(&q.0, d), &m(&q.1, ny)))))
        } else {
            let e = b.min_within(&limits(&s.xt)).map_err(|e| format!("{e:?}"))?;
            Ok(Box::new(move |q: &Data| judge(e.suggest(&m(&q.0, d), &m(&q.1, ny)))))
        }
    }
    fn steps(&self, f: &dyn Fn(&Data) -> Vec<Vec<f64>>, from: Data, n: usize) -> Vec<Vec<Vec<f64>>> {
        let p = Problem::new(&self.spec);
        let mut q = from;
        (0..n)
            .map(|_| {
                let x = f(&q);
                for r in &x {
                    q.0.push(r.clone());
                    q.1.push(p.eval(r));
                }
                x
            })
            .collect()
    }
    /// data after the first `k` answers
    fn after(&self, a: &[Vec<Vec<f64>>], k: usize) -> Data {
        let p = Problem::new(&self.spec);
        let mut q = self.start();
        for x in &a[..k] {
            for r in x {
                q.0.push(r.clone());
                q.1.push(p.eval(r));
            }
        }
        q
    }
}

impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = a client which asks the service for points, evaluates them and tells the result, run alone, then under another schedule, from a new service after a restart at some step with its data only, with a service already used for other data, and by several threads sharing one service; nontrivial = at least two suggestions were given",
            quick: 500,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let b = Bias { env: 20, noseed: 0, outdir: 0, target: 0, clusters: 10, coego: 0, trego: 0, enums: 0, fcstr: 0, cstr: 40, max_it: 3, ..Default::default() };
        let mut s = ego::gen(r, &b);
        s.n_fcstr = 0;
        s.coego = 0;
        s.trego = false;
        s.outdir = None;
        s.cstr_tol = s.cstr_tol.filter(|t| t.len() == s.n_cstr);
        let mut plans: Vec<Plan> = (0..4).map(|_| gen_plan(r)).collect();
        plans[0] = quiet(r.next());
        let n = 2 + r.below(if thorough { 4 } else { 2 });
        Scn { check: String::new(), seed: 0, ego: Some(s), plans, crashes: None, p: json!({"steps": n, "restart": r.below(n), "mode": *r.pick(&["alone", "shared", "used", "pool"]), "threads": 2 + r.below(2), "small": small(r), "data": *r.pick(&[0, 0, 0, 1, 2, 3])}) }
    }
    fn run(&self, c: &mut Ctx) {
        let cl = Client { spec: c.spec(), data: c.scn.p["data"].as_u64().unwrap_or(0) as u8 };
        let p = c.scn.plans.clone();
        let n = c.scn.p["steps"].as_u64().unwrap_or(2) as usize;
        let mode = c.scn.p["mode"].as_str().unwrap_or("alone").to_string();
        let threads = c.scn.p["threads"].as_u64().unwrap_or(2) as usize;
        let env = || cl.spec.penv();
        let c0 = cl.clone();
        let a: Inc<Res<Vec<Vec<Vec<f64>>>>> = c.work_env(0, &p[0], &Image::new(), env(), move || Ok(c0.steps(&*c0.service()?, c0.start(), n)));
        if no_verdict(&a) {
            return;
        }
        c.bads(&a, |_| true);
        if matches!(a.end, End::Deadlock | End::StepLimit) {
            c.viol("suggest-hang", endof(&a));
        }
        let Some(ans) = (match (a.end, &a.out) {
            (End::Done, Some(Ok(v))) => Some(v.clone()),
            _ => None,
        }) else {
            c.count("base_failed", 1);
            return;
        };
        c.o.nontrivial = true;
        c.state(hash_bytes(format!("{ans:?}").as_bytes()));
        // a restarted client: another process, only the data survive
        let k = (c.scn.p["restart"].as_u64().unwrap_or(0) as usize).min(n - 1);
        let (c1, q1) = (cl.clone(), cl.after(&ans, k));
        let b: Inc<Res<Vec<Vec<Vec<f64>>>>> = c.work_env(1, &p[1], &Image::new(), env(), move || Ok(c1.steps(&*c1.service()?, q1, n - k)));
        if !no_verdict(&b) {
            c.bads(&b, |_| true);
            match (b.end, &b.out) {
                (End::Done, Some(Ok(v))) => {
                    if let Some(i) = (0..v.len()).find(|&i| !msame(&v[i], &ans[k + i])) {
                        c.viol("suggest-differs-after-restart", format!("suggestion {} of a client restarted after {k} suggestions with the same data: {:?} instead of {:?}", k + i, v[i], ans[k + i]));
                    }
                }
                _ => c.viol("suggest-fails-after-restart", format!("a client restarted with its data ends with {}", endof(&b))),
            }
        }
        // a service shared by clients or already used
        let (c2, a2, m2) = (cl.clone(), ans.clone(), mode.clone());
        let small = c.scn.p["small"].as_u64().unwrap_or(0);
        let d: Inc<Res<Vec<Vec<Vec<Vec<f64>>>>>> = c.work_env(2, &p[2], &Image::new(), env(), move || {
            let f = c2.service()?;
            let f = &*f;
            // the process served other clients before
            for i in 0..small {
                let o = Client { spec: light(&c2.spec, i), data: 0 };
                let _ = caught(|| o.service().map(|g| o.steps(&*g, o.start(), 1)));
            }
            Ok(match m2.as_str() {
                "shared" => std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..threads)
                        .map(|t| {
                            let (c, a) = (&c2, &a2);
                            // every thread works on other data: the client at another age
                            sc.spawn(move || c.steps(f, c.after(a, t % n), n - t % n))
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
                }),
                "pool" => {
                    use rayon::prelude::*;
                    (0..threads).into_par_iter().map(|t| c2.steps(f, c2.after(&a2, t % n), n - t % n)).collect()
                }
                "used" => {
                    // all ages in reverse order through one service
                    let mut v: Vec<_> = (0..n).rev().map(|t| c2.steps(f, c2.after(&a2, t), 1)).collect();
                    v.reverse();
                    v
                }
                _ => vec![c2.steps(f, c2.start(), n)],
            })
        });
        if no_verdict(&d) {
            return;
        }
        c.bads(&d, |_| true);
        c.count(&format!("mode_{mode}"), 1);
        match (d.end, &d.out) {
            (End::Done, Some(Ok(v))) => {
                for (t, w) in v.iter().enumerate() {
                    let from = t % n;
                    let want = if mode == "used" { 1 } else { n - from };
                    if w.len() != want {
                        c.viol("suggest-panic-shared", format!("a client of a service ({mode}) panics"));
                        continue;
                    }
                    if let Some(i) = (0..w.len()).find(|&i| !msame(&w[i], &ans[from + i])) {
                        c.viol(&format!("suggest-differs-{mode}"), format!("suggestion {} for the same data, {mode} service: {:?} instead of {:?}", from + i, w[i], ans[from + i]));
                    }
                }
            }
            _ => c.viol(&format!("suggest-fails-{mode}"), format!("clients which succeed alone end with {} ({mode} service)", endof(&d))),
        }
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v = vec![];
        for (f, x) in [("mode", json!("alone")), ("data", json!(0)), ("small", json!(0)), ("small", json!(5)), ("steps", json!(1)), ("steps", json!(2)), ("threads", json!(2))] {
            let mut c = s.clone();
            c.p[f] = x;
            if c.p != s.p {
                v.push(c);
            }
        }
        v.extend(generic_shrink(s));
        v
    }
}

// ------------------------------------------------------------------------------------------
pub struct C14;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SSpec {
    xt: Vec<XT>,
    /// 0 classic, 1 centered, 2 maximin, 3 centered maximin, 4 optimized, 5 random, 6 full factorial
    kind: u8,
    mixint: bool,
    seed: u64,
    /// sizes of the successive designs
    ns: Vec<usize>,
}
fn lhs_kind(k: u8) -> LhsKind {
    match k {
        0 => LhsKind::Classic,
        1 => LhsKind::Centered,
        2 => LhsKind::Maximin,
        3 => LhsKind::CenteredMaximin,
        _ => LhsKind::Optimized,
    }
}
type Sampler = Box<dyn Fn(usize, bool) -> Array2<f64> + Sync>;

impl SSpec {
    fn sampler(&self) -> Sampler {
        fn wrap<S: SamplingMethod<f64> + Sync + 'static>(s: S) -> Sampler {
            Box::new(move |n, normalized| if normalized { s.normalized_sample(n) } else { s.sample(n) })
        }
        let rng = Xoshiro256Plus::seed_from_u64(self.seed);
        let l = limits(&self.xt);
        if self.mixint {
            let t: Vec<XType> = self.xt.iter().map(|t| t.real()).collect();
            let m = MixintContext::new(&t);
            match self.kind {
                5 => wrap(m.create_rand_sampling::<f64>(Some(self.seed))),
                6 => wrap(m.create_ffact_sampling::<f64>()),
                k => wrap(m.create_lhs_sampling::<f64>(lhs_kind(k), Some(self.seed))),
            }
        } else {
            match self.kind {
                5 => wrap(Random::new(&l).with_rng(rng)),
                6 => wrap(FullFactorial::new(&l)),
                k => wrap(Lhs::new(&l).with_rng(rng).kind(lhs_kind(k))),
            }
        }
    }
    /// are two designs of this sampler always different
    fn distinct(&self) -> bool {
        matches!(self.kind, 0 | 2 | 4 | 5) && self.xt.iter().any(|t| matches!(t, XT::F(a, b) if a < b))
    }
    /// what every design must satisfy
    fn judge(&self, x: &Array2<f64>, n: usize, normalized: bool) {
        let name = ["classic", "centered", "maximin", "centered-maximin", "optimized", "random", "full-factorial"][self.kind as usize];
        if x.nrows() != n {
            bad(&format!("sample-size:{name}"), || format!("{name} gives {} points instead of {n}", x.nrows()));
            return;
        }
        if normalized {
            if x.iter().any(|v| !(0. ..=1.).contains(v)) {
                bad(&format!("sample-unit:{name}"), || format!("{name} gives a value out of [0, 1]"));
            }
            if self.kind < 5 {
                for (j, col) in x.columns().into_iter().enumerate() {
                    let mut seen = vec![0; n];
                    for v in col {
                        // a point may touch the bound of its interval
                        let k = (v * n as f64 - 1e-9).floor().max(0.) as usize;
                        seen[k.min(n - 1)] += 1;
                    }
                    if seen.iter().any(|k| *k != 1) {
                        bad(&format!("lhs-stratum:{name}"), || format!("{name}: dimension {j} of {n} points has {seen:?} points per interval"));
                    }
                    if self.kind == 1 || self.kind == 3 {
                        let off = col.iter().map(|v| ((v * n as f64).fract() - 0.5).abs()).fold(0., f64::max);
                        if off > 1e-9 {
                            bad(&format!("lhs-centre:{name}"), || format!("{name}: a point is {off:e} away from the middle of its interval"));
                        }
                    }
                }
            }
            if self.kind == 6 {
                let r = rows(x);
                for i in 0..n {
                    if r[..i].contains(&r[i]) {
                        bad("ffact-duplicate", || format!("full factorial gives {:?} twice", r[i]));
                    }
                }
            }
        } else {
            let xt = &self.xt;
            for r in rows(x) {
                ego::check_x(xt, &r, &format!("sample-{name}"));
            }
        }
    }
    fn draw(&self, f: &Sampler) -> Vec<Vec<Vec<f64>>> {
        self.ns
            .iter()
            .enumerate()
            .map(|(k, n)| {
                let norm = k % 2 == 1;
                let x = f(*n, norm);
                self.judge(&x, *n, norm);
                rows(&x)
            })
            .collect()
    }
}

impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = a seeded sampler (any kind, continuous or mixed integer space) giving successive designs alone, under other schedules, and shared by several threads or tasks of the thread pool; nontrivial = every one",
            quick: 2500,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let mixint = r.chance(40);
        let mut xt = gen_xt(r, mixint);
        while r.chance(25) && xt.len() < 6 {
            xt.push(XT::F(-1., 2.));
        }
        let s = SSpec { kind: r.below(7) as u8, mixint, seed: r.next(), ns: (0..2 + r.below(3)).map(|_| *r.pick(&[1usize, 2, 3, 5, 8, 13, if thorough { 40 } else { 20 }])).collect(), xt };
        let mut plans: Vec<Plan> = (0..3).map(|_| gen_plan(r)).collect();
        plans[0] = quiet(r.next());
        let mode = *r.pick(&["threads", "pool", "both"]);
        let mut s = s;
        let mut threads = 2 + r.below(3);
        // many more tasks than threads in a busy pool
        if mode == "pool" && r.chance(45) {
            threads = 5 + r.below(12);
            s.xt.truncate(3);
            s.ns = (0..1 + r.below(2)).map(|_| *r.pick(&[2usize, 3, 5, 6, 8])).collect();
            s.kind = *r.pick(&[s.kind, 2, 4, 4]);
            plans[1] = busy(r, plans[1].clone());
        }
        Scn { check: String::new(), seed: 0, ego: None, plans, crashes: None, p: json!({"s": s, "mode": mode, "threads": threads}) }
    }
    fn run(&self, c: &mut Ctx) {
        let s: SSpec = serde_json::from_value(c.scn.p["s"].clone()).expect("sampler");
        let p = c.scn.plans.clone();
        let mode = c.scn.p["mode"].as_str().unwrap_or("threads").to_string();
        let threads = c.scn.p["threads"].as_u64().unwrap_or(2) as usize;
        let s0 = s.clone();
        let a: Inc<Vec<Vec<Vec<f64>>>> = c.work(0, &p[0], &Image::new(), move || s0.draw(&s0.sampler()));
        c.o.nontrivial = true;
        if no_verdict(&a) {
            // a sampler which never ends exhausts its processor time
            if let End::Killed(sig) = a.end {
                c.viol("sample-never-ends", format!("sampling is killed by signal {sig} after its processor time is exhausted: {s:?}"));
            }
            return;
        }
        c.bads(&a, |_| true);
        let Some(base) = (if a.end == End::Done { a.out.clone() } else { None }) else {
            c.viol(&format!("sample-abnormal:{:?}", a.end).to_lowercase(), format!("sampling ends with {}", endof(&a)));
            return;
        };
        c.state(hash_bytes(format!("{base:?}").as_bytes()));
        let s1 = s.clone();
        let m1 = mode.clone();
        let b: Inc<(Vec<Vec<Vec<f64>>>, Vec<Vec<Vec<f64>>>)> = c.work(1, &p[1], &Image::new(), move || {
            let alone = s1.draw(&s1.sampler());
            // a sampler shared by all and one of its own for each
            let f = s1.sampler();
            let shared = std::sync::Mutex::new(vec![]);
            let draw_shared = |s: &SSpec| {
                let d = s.draw(&f);
                shared.lock().unwrap().extend(d);
            };
            let own = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..if m1 == "pool" { 0 } else { threads.min(4) })
                    .map(|_| {
                        let (s, draw_shared) = (&s1, &draw_shared);
                        sc.spawn(move || {
                            draw_shared(s);
                            s.draw(&s.sampler())
                        })
                    })
                    .collect();
                let mut own = vec![];
                if m1 != "threads" {
                    use rayon::prelude::*;
                    own = (0..threads)
                        .into_par_iter()
                        .map(|k| {
                            draw_shared(&s1);
                            if k > 3 {
                                return alone.clone();
                            }
                            s1.draw(&s1.sampler())
                        })
                        .collect();
                } else {
                    draw_shared(&s1);
                }
                for h in hs {
                    match h.join() {
                        Ok(v) => own.push(v),
                        Err(_) => bad("sample-panic", || "sampling by a thread panics".into()),
                    }
                }
                own
            });
            // the random numbers of a shared sampler are used once
            let shared = shared.into_inner().unwrap();
            if s1.distinct() {
                for i in 0..shared.len() {
                    if shared[..i].iter().any(|d| msame(d, &shared[i])) {
                        bad("sample-shared-twice", || format!("the same design of {} points is given twice by a shared sampler", shared[i].len()));
                    }
                }
            }
            (alone, own.into_iter().find(|o| !o.iter().zip(&alone_of(&s1)).all(|(x, y)| msame(x, y))).unwrap_or_default())
        });
        if no_verdict(&b) {
            return;
        }
        c.bads(&b, |_| true);
        c.count(&format!("mode_{mode}"), 1);
        match (b.end, &b.out) {
            (End::Done, Some((alone, other))) => {
                if let Some(k) = (0..base.len()).find(|&k| !msame(&alone[k], &base[k])) {
                    c.viol("sample-differs", format!("design {k} of the same seeded sampler under another schedule differs"));
                }
                if !other.is_empty() {
                    c.viol("sample-own-differs", "a seeded sampler used by one thread among others gives another sequence of designs".into());
                }
            }
            _ => c.viol(&format!("sample-shared-abnormal:{:?}", b.end).to_lowercase(), format!("{threads} threads sharing a sampler end with {}", endof(&b))),
        }
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v = vec![];
        let n = s.p["s"]["ns"].as_array().map(|a| a.len()).unwrap_or(0);
        for k in 0..n {
            let mut c = s.clone();
            if let Some(a) = c.p["s"]["ns"].as_array_mut() {
                a.remove(k);
            }
            v.push(c);
        }
        for (f, x) in [("mode", json!("threads")), ("threads", json!(2))] {
            let mut c = s.clone();
            c.p[f] = x;
            if c.p != s.p {
                v.push(c);
            }
        }
        v.extend(generic_shrink(s));
        v
    }
}
fn alone_of(s: &SSpec) -> Vec<Vec<Vec<f64>>> {
    s.draw(&s.sampler())
}
#[allow(unused)]
fn unused(_: &inc::Env) {}
