//! C11: saved models. C15: predictions. C16: training.
use super::common::*;
use super::io::fault_kinds;
use crate::engine::*;
use crate::inc::{bad, End, Inc};
use crate::model::{self, MSpec, Model, Obs};
use ndarray::{Array2, Axis};
use serde_json::{json, Value};
use simrt::disk::{crash_image, CrashSpec, Image};
use simrt::rt::{kind, IoFault};
use simrt::{Plan, Prng};

type Res<T> = Result<T, String>;

fn path(bin: bool, k: usize) -> String {
    format!("/simdisk/model{k}.{}", if bin { "bin" } else { "json" })
}
fn fin<T>(i: &Inc<Res<T>>) -> String {
    match (i.end, &i.out) {
        (End::Done, Some(Ok(_))) => "Ok".into(),
        (End::Done, Some(Err(e))) => format!("Err({e})"),
        (e, _) => format!("{e:?} {}", i.panic),
    }
}
fn good<T>(i: &Inc<Res<T>>) -> Option<&T> {
    match (i.end, &i.out) {
        (End::Done, Some(Ok(t))) => Some(t),
        _ => None,
    }
}
/// an error or a panic of the training is not the subject here, a run that never ends is
fn hang<T>(c: &mut Ctx, key: &str, i: &Inc<T>) {
    if matches!(i.end, End::Deadlock | End::StepLimit) {
        c.viol(&format!("{key}:{:?}", i.end).to_lowercase(), format!("{:?} {}", i.end, i.panic));
    }
}
pub fn mspec(c: &Ctx) -> MSpec {
    serde_json::from_value(c.scn.p["m"].clone()).expect("model spec")
}
fn shrink_model(s: &Scn) -> Vec<Scn> {
    let mut v = vec![];
    let mut put = |f: &dyn Fn(&mut Value)| {
        let mut c = s.clone();
        f(&mut c.p);
        if c.p != s.p {
            v.push(c)
        }
    };
    put(&|p| p["faults"] = json!([]));
    put(&|p| p["others"] = json!([]));
    put(&|p| p["m"]["clusters"] = json!(1));
    put(&|p| p["m"]["kpls"] = json!(0));
    put(&|p| p["m"]["regr"] = json!(0));
    put(&|p| p["m"]["corr"] = json!(0));
    put(&|p| p["m"]["tuning"] = json!(0));
    put(&|p| p["m"]["family"] = json!(0));
    put(&|p| {
        let k = p["others"].as_array().map(|a| a.len()).unwrap_or(0);
        for i in 0..k {
            p["others"][i] = json!(null);
        }
    });
    v.extend(generic_shrink(s));
    v
}

// ------------------------------------------------------------------------------------------
pub struct C11;

impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = a model (mixture, mixed integer mixture or single expert; full or sparse; seeded data and settings) trained and saved by one simulated process, loaded by others: after a normal end, after a kill at points of the save, with storage faults or interrupted and short calls during load and save, by several threads at once; nontrivial = the model was trained and saved",
            quick: 500,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let m = model::gen(r);
        let plans: Vec<Plan> = (0..4).map(|_| gen_plan(r)).collect();
        let faults: Vec<Value> = (0..if thorough { 14 } else { 6 })
            .map(|_| {
                let (name, k, e) = fault_kinds(r);
                json!({"name": name, "kinds": k, "errno": e, "at": r.below(1_000_000), "len": *r.pick(&[1u64, 1, 2, 1 << 40])})
            })
            .collect();
        Scn { check: String::new(), seed: 0, ego: None, plans, crashes: None, p: json!({"m": m, "bin": r.chance(50), "old": r.chance(40), "old_more": *r.pick(&[0u64, 0, 4]), "retrain": r.chance(15), "faults": faults, "cuts": if thorough { 12 } else { 5 }}) }
    }
    fn run(&self, c: &mut Ctx) {
        let m = mspec(c);
        let p = c.scn.plans.clone();
        let bin = c.scn.p["bin"].as_bool() == Some(true);
        let retrain = c.scn.p["retrain"].as_bool() == Some(true);
        let file = path(bin, 0);
        let mut sound = p[0].clone();
        sound.short_ppm = 0;
        sound.eintr_ppm = 0;
        // a model of the same kind may already be there
        let mut img0 = Image::new();
        let mut old: Option<Obs> = None;
        let pts = m.points(9, 3);
        let saver = |m: MSpec, f: String| {
            let x = pts.clone();
            move || -> Res<(Obs, Obs, Obs, Res<()>)> {
                let g = model::train(&m)?;
                let o = g.observe(&x);
                let q = if retrain { g.retrain() } else { Obs::default() };
                // what the loaded object can show
                let few = Model::predict(&g, &x);
                let r = g.save(&f, bin);
                Ok((o, few, q, r))
            }
        };
        if c.scn.p["old"].as_bool() == Some(true) {
            let mut mo = m.clone();
            mo.seed ^= 0x9e37;
            // as long as the new file or longer
            mo.n += c.scn.p["old_more"].as_u64().unwrap_or(4) as usize;
            let i = c.work(3, &p[3], &img0, saver(mo, file.clone()));
            if let Some((o, f, _, Ok(()))) = good(&i) {
                old = Some(if m.kind == 2 { f.clone() } else { o.clone() });
                img0 = i.disk;
            }
        }
        let a = c.work(0, &sound, &img0, saver(m.clone(), file.clone()));
        hang(c, "model-hang", &a);
        let Some((obs, few, q, saved)) = good(&a).cloned() else {
            c.count("not_trained", 1);
            return;
        };
        if let Err(e) = saved {
            c.viol("save-fails", format!("the model cannot be saved: {e}"));
            return;
        }
        c.o.nontrivial = true;
        c.count(&format!("kind{}_sparse{}_{}", m.kind, m.sparse, if bin { "bin" } else { "json" }), 1);
        let want = |kind: u8, o: &Obs| -> Option<String> {
            // only the predictions of a single surrogate can be observed through the loader
            loaded_diff(if kind == 2 { &few } else { &obs }, o, kind == 2)
        };
        c.state(hash_image(&a.disk));
        // load by two threads at once, then save again
        let (m1, f1, g1) = (m.clone(), file.clone(), path(bin, 1));
        // a file loaded, replaced and loaded again
        let over = old.is_some().then(|| path(bin, 3));
        let mut disk1 = a.disk.clone();
        if let Some(o) = &over {
            disk1.insert(o.clone(), img0.get(&file).cloned().flatten());
        }
        let b = c.work(1, &p[1], &disk1, move || -> Res<(Obs, Obs, Obs)> {
            let x = m1.points(9, 3);
            if let Some(o) = &over {
                let _ = Model::load(m1.kind, o, bin);
            }
            let h = {
                let (m, f, x) = (m1.clone(), f1.clone(), x.clone());
                std::thread::spawn(move || Model::load(m.kind, &f, bin).map(|g| g.observe(&x)))
            };
            let g = Model::load(m1.kind, &f1, bin)?;
            let o = g.observe(&x);
            let o2 = h.join().map_err(|_| "panic".to_string())??;
            g.save(&g1, bin)?;
            let o2 = match &over {
                Some(f) => {
                    g.save(f, bin)?;
                    let again = Model::load(m1.kind, f, bin)?.observe(&x);
                    // the first difference is reported
                    if loaded_diff(&o, &again, m1.kind == 2).is_some() { again } else { o2 }
                }
                None => o2,
            };
            Ok((o, o2, if retrain { g.retrain() } else { Obs::default() }))
        });
        match good(&b) {
            None if no_verdict(&b) => {}
            None => {
                // JSON has no infinity: the file of such a model cannot be read back
                let infinite = !bin && obs.v.iter().any(|(k, v)| k.starts_with("params") && v.iter().any(|z| !z.is_finite())) && fin(&b).contains("invalid type: null");
                c.viol(if infinite { "load-fails-infinite-json" } else { "load-fails" }, format!("the saved model cannot be loaded: {}", fin(&b)))
            }
            Some((o, o2, q2)) => {
                if let Some(d) = want(m.kind, o).or_else(|| want(m.kind, o2)) {
                    c.viol("loaded-differs", format!("the loaded model is not the saved model (saved / loaded): {d}"));
                }
                if let Some(d) = q.v.iter().zip(&q2.v).find(|(x, y)| gap(&x.1, &y.1) > 1e-6).map(|(x, y)| format!("{} = {:?} / {:?}", x.0, x.1, y.1)) {
                    c.viol("loaded-retrains-differently", format!("cross validation of the loaded model (saved / loaded): {d}"));
                }
                if super::common::file(&b.disk, &path(bin, 1)) != super::common::file(&a.disk, &file) {
                    c.viol("saved-again-differs", "saving the loaded model does not write the same file".into());
                }
            }
        }
        // kill during the save
        let ncut = c.scn.p["cuts"].as_u64().unwrap_or(4);
        let chains = c.scn.crashes.clone();
        let cuts: Vec<CrashSpec> = match chains {
            Some(v) => v.into_iter().filter_map(|x| x.first().cloned()).collect(),
            None => (0..ncut).map(|_| sample_crash(&mut c.r, &a.log, &[], false)).collect(),
        };
        for cut in cuts {
            let img = crash_image(&img0, &a.log, &cut);
            let there = super::common::file(&img, &file).cloned();
            let l = load(c, 2, &p[2], &img, &m, bin);
            c.count("crash_kill", 1);
            match good(&l) {
                Some(o) => {
                    let is_old = old.as_ref().is_some_and(|w| loaded_diff(w, o, m.kind == 2).is_none());
                    if let (Some(d), false) = (want(m.kind, o), is_old) {
                        c.viol_crash("torn-model-loaded", format!("after a kill during the save a file of {:?} bytes loads as another model: {d}", there.map(|t| t.len())), &[cut.clone()]);
                    }
                }
                None if no_verdict(&l) || matches!(l.end, End::Done) => {}
                None => c.viol_crash(&format!("torn-model-abnormal:{}", fin(&l).chars().take(50).collect::<String>()), format!("after a kill during the save, loading a file of {:?} bytes ends with {}", there.map(|t| t.len()), fin(&l)), &[cut.clone()]),
            }
        }
        // storage faults during load and save
        let (m2, f2, g2) = (m.clone(), file.clone(), path(bin, 2));
        let cycle = move || -> Res<(Obs, Res<()>)> {
            let g = Model::load(m2.kind, &f2, bin)?;
            let o = g.observe(&m2.points(9, 3));
            Ok((o, g.save(&g2, bin)))
        };
        let clean = c.work(2, &sound, &a.disk, cycle.clone());
        if good(&clean).is_none() {
            return;
        }
        let faults = c.scn.p["faults"].as_array().cloned().unwrap_or_default();
        for (fi, f) in faults.iter().enumerate() {
            let mut plan = sound.clone();
            let kinds = f["kinds"].as_u64().unwrap_or(255) as u32;
            let hit: Vec<usize> = clean.call_kinds.iter().enumerate().filter(|(_, k)| **k & kinds != 0).map(|(i, _)| i).collect();
            if hit.is_empty() {
                continue;
            }
            let at = hit[f["at"].as_u64().unwrap_or(0) as usize * hit.len() / 1_000_000] as u64;
            plan.io_faults = vec![IoFault { at, len: f["len"].as_u64().unwrap_or(1), kinds, errno: f["errno"].as_i64().unwrap_or(5) as i32 }];
            if fi == 0 {
                // or interrupted and short calls only
                plan.io_faults.clear();
                plan.short_ppm = 500_000;
                plan.eintr_ppm = 400_000;
            }
            let b = c.work(2, &plan, &a.disk, cycle.clone());
            if no_verdict(&b) {
                continue;
            }
            c.count(if fi == 0 { "fault_noise" } else { "fault_io" }, 1);
            let mut focus = c.scn.clone();
            focus.p["faults"] = if fi == 0 { json!([f]) } else { json!([faults[0], f]) };
            focus.p["cuts"] = json!(0);
            let what = if fi == 0 { "interrupted and short calls".to_string() } else { format!("{} on calls {:?}", f["name"], b.injected.iter().map(|i| i.0).take(5).collect::<Vec<_>>()) };
            match (b.end, &b.out) {
                (End::Done, Some(Ok((o, s)))) => {
                    if let Some(d) = want(m.kind, o) {
                        c.viol_at("io-model-differs", format!("{what}: the model is loaded but differs: {d}"), focus.clone());
                    }
                    let whole = super::common::file(&b.disk, &path(bin, 2)) == super::common::file(&clean.disk, &path(bin, 2));
                    if s.is_ok() && !whole {
                        c.viol_at("io-save-ok-incomplete", format!("{what}: the save succeeds without writing the model"), focus.clone());
                    }
                    if fi == 0 && s.is_err() {
                        c.viol_at("io-noise-fails", format!("{what}: the save fails {s:?}"), focus.clone());
                    }
                }
                (End::Done, _) if fi > 0 => {}
                _ => c.viol_at("io-model-abnormal", format!("{what}: {}", fin(&b)), focus.clone()),
            }
            if super::common::file(&b.disk, &file) != super::common::file(&a.disk, &file) {
                c.viol_at("io-model-source-changed", format!("{what}: the loaded file was modified"), focus);
            }
        }
        let _ = kind::ALL;
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        shrink_model(s)
    }
}

/// what the model holds is the same to the bit, what it computes may be rounded in another way
/// (the matrices of a loaded model have another memory layout)
fn loaded_diff(a: &Obs, b: &Obs, single: bool) -> Option<String> {
    if !single {
        let keep = |o: &Obs| Obs { text: o.text.clone(), v: o.v.iter().filter(|(k, _)| !computed(k)).cloned().collect() };
        if let Some(d) = keep(a).diff(&keep(b)) {
            return Some(d);
        }
    }
    for (k, v) in a.v.iter().filter(|(k, _)| computed(k)) {
        if single && b.get(k).is_empty() && k.contains("gradients") {
            continue;
        }
        let e = gap(v, b.get(k));
        if e > tol(k) {
            return Some(format!("{k} differ by {e:.1e} (relative): {} / {}", short(v), short(b.get(k))));
        }
    }
    None
}
fn computed(k: &str) -> bool {
    k.starts_with("predict") || k.contains("gradients") || k.starts_with("valvar")
}

fn load(c: &mut Ctx, pi: usize, plan: &Plan, img: &Image, m: &MSpec, bin: bool) -> Inc<Res<Obs>> {
    let (m, f) = (m.clone(), path(bin, 0));
    c.work(pi, plan, img, move || Model::load(m.kind, &f, bin).map(|g| g.observe(&m.points(9, 3))))
}

// ------------------------------------------------------------------------------------------
pub struct C15;

/// largest difference relative to the largest magnitude
fn gap(a: &[f64], b: &[f64]) -> f64 {
    if a.len() != b.len() {
        return f64::INFINITY;
    }
    let s = a.iter().chain(b).filter(|v| v.is_finite()).fold(1e-300f64, |m, v| m.max(v.abs()));
    a.iter()
        .zip(b)
        .map(|(x, y)| {
            if x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) {
                0.
            } else if x.is_nan() != y.is_nan() {
                f64::INFINITY
            } else {
                (x - y).abs() / s
            }
        })
        .fold(0., f64::max)
}

impl Check for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = a trained model queried for values, variances and derivatives at a set of points: at once, by concurrent threads and from the thread pool, point by point and in another order, under several schedules, numbers of threads, entropies and clocks; nontrivial = the model was trained and queried concurrently",
            quick: 800,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let m = model::gen(r);
        let mut plans: Vec<Plan> = (0..3).map(|_| gen_plan(r)).collect();
        plans[0] = quiet(r.next());
        Scn { check: String::new(), seed: 0, ego: None, plans, crashes: None, p: json!({"m": m, "points": *r.pick(&[1u64, 2, 7, 20, 45]), "threads": 1 + r.below(3), "runs": if thorough { 2 } else { 1 }}) }
    }
    fn run(&self, c: &mut Ctx) {
        let m = mspec(c);
        let p = c.scn.plans.clone();
        let n = c.scn.p["points"].as_u64().unwrap_or(7) as usize;
        let threads = c.scn.p["threads"].as_u64().unwrap_or(2) as usize;
        // the reference: nothing else happens
        let m0 = m.clone();
        let a = c.work(0, &p[0], &Image::new(), move || -> Res<Obs> { Ok(model::train(&m0)?.predict(&m0.points(n, 4))) });
        hang(c, "predict-hang", &a);
        let Some(base) = good(&a).cloned() else {
            c.count("not_trained", 1);
            return;
        };
        for k in 1..=c.scn.p["runs"].as_u64().unwrap_or(1) as usize {
            let m1 = m.clone();
            let b = c.work(k, &p[k.min(p.len() - 1)], &Image::new(), move || -> Res<(Vec<Obs>, Obs, Obs)> {
                let g = model::train(&m1)?;
                let x = m1.points(n, 4);
                let mut all = vec![];
                // several callers share the model
                std::thread::scope(|s| {
                    let hs: Vec<_> = (0..threads)
                        .map(|t| {
                            let (g, x) = (&g, &x);
                            s.spawn(move || {
                                if t == 1 {
                                    use rayon::prelude::*;
                                    let v: Vec<Obs> = (0..3).into_par_iter().map(|_| g.predict(x)).collect();
                                    v
                                } else {
                                    vec![g.predict(x)]
                                }
                            })
                        })
                        .collect();
                    all.push(g.predict(&x));
                    for h in hs {
                        match h.join() {
                            Ok(v) => all.extend(v),
                            Err(_) => bad("predict-panic", || "a concurrent prediction panics".into()),
                        }
                    }
                });
                // one point at a time, and in reverse order
                let mut single = Obs::default();
                for i in 0..n {
                    let xi = x.select(Axis(0), &[i]);
                    for (k, v) in g.predict(&xi).v {
                        match single.v.iter_mut().find(|(l, _)| *l == k) {
                            Some((_, w)) => w.extend(v),
                            None => single.v.push((k, v)),
                        }
                    }
                }
                let rev: Vec<usize> = (0..n).rev().collect();
                let xr: Array2<f64> = x.select(Axis(0), &rev);
                let mut back = g.predict(&xr);
                for (_, v) in back.v.iter_mut() {
                    let w = v.len() / n.max(1);
                    *v = (0..n).rev().flat_map(|i| v[i * w..(i + 1) * w].to_vec()).collect();
                }
                Ok((all, single, back))
            });
            if no_verdict(&b) {
                continue;
            }
            hang(c, "predict-hang", &b);
            c.bads(&b, |_| true);
            let Some((all, single, back)) = good(&b) else {
                c.viol("predict-fails", format!("predictions succeed alone and end with {} with concurrent callers", fin(&b)));
                continue;
            };
            c.o.nontrivial = true;
            c.state(hash_bytes(format!("{:?}", base.v).as_bytes()));
            for o in all {
                if let Some(d) = base.diff(o) {
                    c.viol("predict-depends-on-schedule", format!("same model, same points, other schedule or concurrent callers: {d}"));
                }
            }
            for (name, o) in [("one by one", single), ("in another order", back)] {
                for (k, v) in &base.v {
                    let e = gap(v, o.get(k));
                    let ppt = (e.log10() + 20.).max(0.) as u64;
                    if std::env::var("DST_GAPS").is_ok() {
                        c.count(&format!("gap_{k}_{ppt:02}"), 1);
                    }
                    if e > tol(k) {
                        c.viol(&format!("predict-depends-on-batch:{k}"), format!("{k} of {n} points at once and {name} differ by {e:.1e} (relative)"));
                    }
                }
            }
            for (u, v) in [("predict", "valvar.0"), ("predict_var", "valvar.1"), ("gradients", "valvar_gradients.0"), ("var_gradients", "valvar_gradients.1")] {
                let e = gap(base.get(u), base.get(v));
                if std::env::var("DST_GAPS").is_ok() {
                    c.count(&format!("gap_{v}_vs_{:02}", (e.log10() + 20.).max(0.) as u64), 1);
                }
                if e > tol(u) {
                    c.viol(&format!("predict-valvar:{v}"), format!("{v} and {u} differ by {e:.1e} (relative)"));
                }
            }
        }
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v = vec![];
        for n in [1, 2, 7] {
            if s.p["points"].as_u64() > Some(n) {
                let mut c = s.clone();
                c.p["points"] = json!(n);
                v.push(c);
            }
        }
        v.extend(shrink_model(s));
        v
    }
}
fn tol(k: &str) -> f64 {
    if k.contains("var") {
        1e-6
    } else {
        1e-7
    }
}

// ------------------------------------------------------------------------------------------
pub struct C16;

impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = a seeded training (data, settings, seed) run alone, then under other schedules, numbers of threads, entropies and clocks, after other trainings of the same process, and concurrently with them; nontrivial = the model was trained",
            quick: 600,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let m = model::gen(r);
        let mut plans: Vec<Plan> = (0..4).map(|_| gen_plan(r)).collect();
        plans[0] = quiet(r.next());
        let others: Vec<MSpec> = (0..1 + r.below(2)).map(|_| if r.chance(60) { near(r, &m) } else { model::gen(r) }).collect();
        // a process which trained many models before
        let small = if r.chance(30) { *r.pick(&[3u64, 10, 40]) } else { 0 };
        Scn { check: String::new(), seed: 0, ego: None, plans, crashes: None, p: json!({"m": m, "others": others, "mode": *r.pick(&["alone", "threads", "pool", "after", "twice"]), "runs": if thorough { 3 } else { 2 }, "retrain": r.chance(10), "small": small}) }
    }
    fn run(&self, c: &mut Ctx) {
        let m = mspec(c);
        let p = c.scn.plans.clone();
        let retrain = c.scn.p["retrain"].as_bool() == Some(true);
        let others: Vec<MSpec> = c.scn.p["others"].as_array().map(|a| a.iter().filter_map(|v| serde_json::from_value(v.clone()).ok()).collect()).unwrap_or_default();
        let mode = c.scn.p["mode"].as_str().unwrap_or("alone").to_string();
        let small = c.scn.p["small"].as_u64().unwrap_or(0);
        let solo = move |m: &MSpec| -> Res<(Obs, Obs)> {
            let g = model::train(m)?;
            Ok((g.observe(&m.points(8, 3)), if retrain { g.retrain() } else { Obs::default() }))
        };
        let m0 = m.clone();
        let a = c.work(0, &p[0], &Image::new(), move || solo(&m0));
        if no_verdict(&a) {
            return;
        }
        hang(c, "train-hang", &a);
        if good(&a).is_some() {
            c.o.nontrivial = true;
        } else {
            c.count("not_trained", 1);
        }
        if let Some((o, _)) = good(&a) {
            c.state(hash_bytes(format!("{:?}", o.v).as_bytes()));
        }
        for k in 1..=c.scn.p["runs"].as_u64().unwrap_or(2) as usize {
            let (m1, o1) = (m.clone(), others.clone());
            let md = if k == 1 { "alone".to_string() } else { mode.clone() };
            let md1 = md.clone();
            let b = c.work(k, &p[k.min(p.len() - 1)], &Image::new(), move || -> Res<(Obs, Obs)> {
                if md1 != "alone" {
                    for i in 0..small {
                        let o = MSpec { kind: 0, xt: vec![crate::ego::XT::F(0., 1.)], n: 5 + i as usize % 3, seed: i, clusters: 1, kpls: 0, sparse: 0, n_start: 1, max_eval: 10, tuning: 0, regr: 0, ..m1.clone() };
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| model::train(&o).is_ok()));
                    }
                }
                match md1.as_str() {
                    "after" => {
                        for o in &o1 {
                            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| model::train(o).is_ok()));
                        }
                        solo(&m1)
                    }
                    "twice" => {
                        let _ = solo(&m1);
                        solo(&m1)
                    }
                    "threads" => std::thread::scope(|s| {
                        let hs: Vec<_> = o1.iter().map(|o| s.spawn(move || model::train(o).is_ok())).collect();
                        let r = solo(&m1);
                        for h in hs {
                            let _ = h.join();
                        }
                        r
                    }),
                    "pool" => {
                        use rayon::prelude::*;
                        let all: Vec<MSpec> = std::iter::once(m1.clone()).chain(o1.iter().cloned()).collect();
                        let mut v: Vec<Res<(Obs, Obs)>> = all.par_iter().map(|o| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| solo(o))).unwrap_or(Err("panic".into()))).collect();
                        v.swap_remove(0)
                    }
                    _ => solo(&m1),
                }
            });
            if no_verdict(&b) {
                continue;
            }
            c.count(&format!("mode_{md}"), 1);
            hang(c, "train-hang", &b);
            match (good(&a), good(&b)) {
                (Some((o, q)), Some((o2, q2))) => {
                    if let Some(d) = o.diff(o2) {
                        c.viol(&format!("training-differs:{}", d.split(['[', ' ']).next().unwrap_or("")), format!("same data, settings and seed, other environment ({md}): {d}"));
                    }
                    if let Some(d) = q.diff(q2) {
                        c.viol("cross-validation-differs", format!("same model, other environment ({md}): {d}"));
                    }
                }
                (None, None) => {}
                (x, _) => c.viol("training-end-differs", format!("same data, settings and seed: {} alone, {} in another environment ({md})", fin(&a), if x.is_some() { fin(&b) } else { "Ok".into() })),
            }
        }
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v = vec![];
        if s.p["mode"] != "alone" {
            let mut c = s.clone();
            c.p["mode"] = json!("alone");
            v.push(c);
        }
        for x in [0, 3, 10] {
            let mut c = s.clone();
            c.p["small"] = json!(x);
            if c.p["small"].as_u64() < s.p["small"].as_u64() {
                v.push(c);
            }
        }
        v.extend(shrink_model(s));
        v
    }
}
/// another training of the same shape: one thing differs
fn near(r: &mut Prng, m: &MSpec) -> MSpec {
    let mut o = m.clone();
    match r.below(8) {
        0 => o.corr = (o.corr + 1 + r.below(3) as u8) % 5,
        1 => o.n_start = (o.n_start + 1) % 4,
        2 => o.max_eval += 7,
        3 => o.recomb = (o.recomb + 1) % 3,
        4 if o.clusters == 1 => o.tuning = (o.tuning + 1 + r.below(3) as u8) % 4,
        5 => o.family = (o.family + 1) % 6,
        _ => o.seed ^= 77,
    }
    o
}
