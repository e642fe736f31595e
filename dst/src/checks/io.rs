//! C10: faults of the storage during a run. C11: saved models.
use super::common::*;
use super::recovery::{diff, npy, plans};
use crate::ego::{self, Bias, EgoRes};
use crate::engine::*;
use crate::inc::{End, Inc};
use serde_json::{json, Value};
use simrt::disk::{crash_image, Image};
use simrt::rt::{kind, IoFault};
use simrt::Prng;

pub const EIO: i32 = 5;
pub const EACCES: i32 = 13;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
pub const EMFILE: i32 = 24;

/// which kinds of calls fail with which errors
pub fn fault_kinds(r: &mut Prng) -> (&'static str, u32, i32) {
    *r.pick(&[
        ("error", kind::ALL, EIO),
        ("error", kind::ALL_W, EIO),
        ("disk full", kind::WRITE | kind::SYNC | kind::OPEN_W | kind::MKDIR, ENOSPC),
        ("disk full", kind::WRITE, ENOSPC),
        ("lost permission", kind::OPEN_W | kind::RENAME | kind::MKDIR | kind::UNLINK, EACCES),
        ("read only", kind::ALL_W, EROFS),
        ("no descriptor", kind::OPEN_R | kind::OPEN_W, EMFILE),
        ("sync error", kind::SYNC, EIO),
        ("rename error", kind::RENAME, EIO),
        ("read error", kind::READ | kind::OPEN_R, EIO),
    ])
}

/// remove what depends on the clock
fn timeless(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.remove("time");
            for (_, x) in m.iter_mut() {
                timeless(x);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(timeless),
        _ => {}
    }
}
/// Err: the file cannot be read at all
pub fn content(name: &str, b: &[u8]) -> Result<Value, String> {
    if name.ends_with(".npy") {
        return match npy(b) {
            Some(m) => Ok(json!(m.iter().map(|r| r.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>()).collect::<Vec<_>>())),
            None => Err("not a npy file".into()),
        };
    }
    if name.ends_with(".json") {
        return match serde_json::from_slice::<Value>(b) {
            Ok(mut v) => {
                timeless(&mut v);
                Ok(v)
            }
            Err(e) => Err(format!("{e}")),
        };
    }
    if name.ends_with(".bin") {
        // recorded models
        return match bincode::serde::decode_from_slice::<Vec<Box<dyn egobox_moe::MixtureGpSurrogate>>, _>(b, bincode::config::standard()) {
            Ok((m, n)) if n == b.len() => Ok(json!(m.iter().map(|g| format!("{g}")).collect::<Vec<_>>())),
            Ok((_, n)) => Err(format!("{n} bytes of {} decoded", b.len())),
            Err(e) => Err(format!("{e}")),
        };
    }
    Ok(json!(hash_bytes(b)))
}
/// optional debug records: their errors are logged and do not stop the run
fn diagnostic(n: &str) -> bool {
    ["/egor_gp.bin", "/egor_initial_gp.bin", "/egor_run.json"].iter().any(|x| n.ends_with(x))
}
/// left behind by an interrupted replacement, never read
fn scratch(n: &str) -> bool {
    n.ends_with(".tmp")
}

pub struct C10;

impl C10 {
    fn ready(&self, r: &mut Prng) -> (crate::ego::EgoSpec, &'static str) {
        let b = Bias { env: 40, noseed: 10, outdir: 90, target: 5, clusters: 8, coego: 8, max_it: 3, ..Default::default() };
        let mut s = ego::gen(r, &b);
        let start = *r.pick(&["fresh", "fresh", "resumed", "warm"]);
        match start {
            "resumed" => s.hot = Some(0),
            "warm" => {
                s.warm = true;
                s.outdir.get_or_insert("/simdisk/out".into());
            }
            _ => {
                if r.chance(60) {
                    s.hot = Some(0)
                }
            }
        }
        (s, start)
    }
}

impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn meta(&self) -> Meta {
        Meta {
            level: "exploration",
            rule: "scenario = seeded run (fresh, resumed from a checkpoint or warm started) on a sound disk, then the same run under the same schedule with injected storage faults (failing opens, reads, writes, syncs, renames, mkdirs; one call, a few, or until the end of the run; or interrupted and short calls), then a run on the disk it left once the faults have stopped; nontrivial = at least one fault was injected",
            quick: 200,
            real: REAL,
            stub: STUB,
            assumptions: ASSUME,
        }
    }
    fn gen(&self, r: &mut Prng, thorough: bool) -> Scn {
        let (s, start) = self.ready(r);
        let plans = plans(r, 4);
        let n = if thorough { 12 } else { 5 };
        let faults: Vec<Value> = (0..n)
            .map(|_| {
                let (name, k, e) = fault_kinds(r);
                json!({"name": name, "kinds": k, "errno": e, "at": r.below(1_000_000), "len": *r.pick(&[1u64, 1, 1, 2, 4, 1 << 40]), "noise": r.chance(15)})
            })
            .collect();
        Scn { check: String::new(), seed: 0, ego: Some(s), plans, crashes: None, p: json!({"start": start, "faults": faults, "cut": r.below(1_000_000)}) }
    }
    fn run(&self, c: &mut Ctx) {
        let s = c.spec();
        let p = c.scn.plans.clone();
        let start = c.scn.p["start"].as_str().unwrap_or("fresh").to_string();
        // the disk before the run
        let mut img0 = Image::new();
        if start != "fresh" {
            let mut s0 = s.clone();
            s0.warm = false;
            let z = c.ego(3, &p[3], &img0, &s0);
            if ok(&z).is_none() {
                c.count("base_failed", 1);
                return;
            }
            img0 = if start == "resumed" {
                let cut = c.scn.p["cut"].as_u64().unwrap_or(0) as usize * z.log.len() / 1_000_000;
                crash_image(&img0, &z.log, &simrt::disk::CrashSpec::Kill { ops: cut, torn: None })
            } else {
                z.disk
            };
        }
        // same decisions with and without faults
        let mut base = p[0].clone();
        base.short_ppm = 0;
        base.eintr_ppm = 0;
        let a = c.ego(0, &base, &img0, &s);
        let Some(oa) = ok(&a).cloned() else {
            c.count("base_failed", 1);
            return;
        };
        let faults = c.scn.p["faults"].as_array().cloned().unwrap_or_default();
        for (fi, f) in faults.iter().enumerate() {
            let only = |c: &Ctx| {
                let mut scn = c.scn.clone();
                scn.p["faults"] = json!([faults[fi].clone()]);
                scn
            };
            let noise = f["noise"].as_bool() == Some(true);
            let mut plan = base.clone();
            let kinds = f["kinds"].as_u64().unwrap_or(255) as u32;
            let errno = f["errno"].as_i64().unwrap_or(5) as i32;
            if noise {
                plan.short_ppm = 500_000;
                plan.eintr_ppm = 400_000;
            } else {
                // the n-th of the calls which can fail this way
                let hit: Vec<usize> = a.call_kinds.iter().enumerate().filter(|(_, k)| **k & kinds != 0).map(|(i, _)| i).collect();
                if hit.is_empty() {
                    continue;
                }
                let at = hit[f["at"].as_u64().unwrap_or(0) as usize * hit.len() / 1_000_000] as u64;
                plan.io_faults = vec![IoFault { at, len: f["len"].as_u64().unwrap_or(1), kinds, errno }];
            }
            let b = c.ego(1, &plan, &img0, &s);
            if no_verdict(&b) {
                continue;
            }
            let what = if noise {
                "interrupted and short reads and writes".to_string()
            } else {
                format!("{} (errno {errno}) on calls {:?}", f["name"].as_str().unwrap_or(""), b.injected.iter().map(|i| i.0).take(6).collect::<Vec<_>>())
            };
            if !b.injected.is_empty() {
                c.o.nontrivial = true;
                c.count(&format!("fault_{}", f["name"].as_str().unwrap_or("").replace(' ', "_")), 1);
            } else if noise {
                c.o.nontrivial |= b.stats.eintr + b.stats.short_io > 0;
                c.count("fault_noise", 1);
            }
            c.state(hash_image(&b.disk));
            let focus = only(c);
            let mut v: Vec<(String, String)> = vec![];
            self.judge(&s, &a, &oa, &b, noise, &img0, &what, &mut v);
            // once the storage works again
            let c2 = c.ego(2, &p[2], &b.disk, &s);
            if !no_verdict(&c2) {
                self.healed(&s, &start, &img0, &oa, &b, &c2, &what, &mut v);
            }
            for (k, m) in v {
                c.viol_at(&k, m, focus.clone());
            }
        }
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        let mut v = vec![];
        let f = s.p["faults"].as_array().cloned().unwrap_or_default();
        if f.len() == 1 {
            if f[0]["len"].as_u64() != Some(1) && f[0]["noise"].as_bool() != Some(true) {
                let mut c = s.clone();
                c.p["faults"][0]["len"] = json!(1);
                v.push(c);
            }
        } else {
            for x in f {
                let mut c = s.clone();
                c.p["faults"] = json!([x]);
                v.push(c);
            }
        }
        v.extend(generic_shrink(s));
        v
    }
}

impl C10 {
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, s: &ego::EgoSpec, a: &Inc<EgoRes>, oa: &ego::EgoOut, b: &Inc<EgoRes>, noise: bool, img0: &Image, what: &str, v: &mut Vec<(String, String)>) {
        match (b.end, &b.out) {
            (End::Done, Some(Ok(ob))) => {
                if let Some(d) = diff(oa, ob) {
                    v.push(("io-wrong-result".into(), format!("{what}: the run succeeds with another result: {d}")));
                }
                // success means that every file was written
                for (n, x) in &a.disk {
                    let (Some(x), false) = (x, scratch(n) || (diagnostic(n) && !noise)) else { continue };
                    match file(&b.disk, n) {
                        None => v.push(("io-missing-file".into(), format!("{what}: the run succeeds but {n} was not written"))),
                        Some(y) => {
                            let (cx, cy) = (content(n, x), content(n, y));
                            if cx != cy {
                                v.push((format!("io-wrong-file:{}", n.rsplit('/').next().unwrap_or("")), format!("{what}: the run succeeds but {n} has not the content written without faults: {}", cy.err().unwrap_or("other values".into()))));
                            }
                        }
                    }
                }
            }
            (End::Done, _) => {
                if noise {
                    v.push(("io-noise-fails".into(), format!("{what}: the run ends with {}", ending(b))));
                }
            }
            _ => v.push((format!("io-abnormal-end:{}", class(b)), format!("{what}: the run ends with {} instead of an error", ending(b)))),
        }
        // whatever the end, no file is left damaged
        for (n, y) in &b.disk {
            let (Some(y), false) = (y, scratch(n)) else { continue };
            if let Err(e) = content(n, y) {
                v.push((format!("io-damaged-file:{}", n.rsplit('/').next().unwrap_or("")), format!("{what}: {n} is left unreadable ({e}, {} bytes)", y.len())));
            }
        }
        for (n, x) in img0 {
            if x.is_some() && !scratch(n) && file(&b.disk, n).is_none() {
                v.push(("io-lost-file".into(), format!("{what}: {n} which existed before the run is gone")));
            }
        }
        let _ = s;
    }
    #[allow(clippy::too_many_arguments)]
    fn healed(&self, s: &ego::EgoSpec, start: &str, img0: &Image, oa: &ego::EgoOut, b: &Inc<EgoRes>, h: &Inc<EgoRes>, what: &str, v: &mut Vec<(String, String)>) {
        let Some(oh) = ok(h) else {
            if start == "warm" && h.end == End::Panic && super::recovery::NUMERIC.iter().any(|m| h.panic.contains(m)) {
                return;
            }
            v.push((format!("io-healed-fails:{}", class(h)), format!("{what}: a run started on the disk left once the faults have stopped ends with {}", ending(h))));
            return;
        };
        if start == "warm" {
            // every evaluation recorded before the faults is still used
            let n = file(img0, &s.file("egor_doe.npy")).and_then(|f| npy(f)).map(|m| m.len()).unwrap_or(0);
            let k = n.min(oa.x_doe.len());
            let rerun_from_x = s.doe == 1 || s.doe == 2;
            if !rerun_from_x && s.hot.is_none() && (oh.x_doe.len() < n || !msame(&oh.x_doe[..k], &oa.x_doe[..k])) {
                v.push(("io-healed-lost-points".into(), format!("{what}: the {n} points recorded before the faults are not used any more (history of {} rows)", oh.x_doe.len())));
            }
            return;
        }
        if s.hot.is_some() || ok(b).is_none() {
            if let Some(d) = diff(oa, oh) {
                v.push(("io-healed-differs".into(), format!("{what}: the run started on the disk left once the faults have stopped does not end with the result of the undisturbed run: {d}")));
            }
        }
    }
}
