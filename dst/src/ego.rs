//! Optimizer workloads: a specification is pure data, `run` executes it against the real code.
use crate::inc::{self, bad, collect, Ev};
use egobox_ego::*;
use egobox_moe::{NbClusters, Recombination, ThetaTuning};
use ndarray::{Array1, Array2, ArrayView2};
use serde::{Deserialize, Serialize};
use simrt::Prng;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum XT {
    F(f64, f64),
    I(i32, i32),
    O(Vec<f64>),
    E(usize),
}
impl XT {
    pub fn real(&self) -> XType {
        match self {
            XT::F(a, b) => XType::Float(*a, *b),
            XT::I(a, b) => XType::Int(*a, *b),
            XT::O(v) => XType::Ord(v.clone()),
            XT::E(n) => XType::Enum(*n),
        }
    }
    /// columns in the relaxed space
    pub fn width(&self) -> usize {
        if let XT::E(n) = self {
            *n
        } else {
            1
        }
    }
    /// relaxed limits
    pub fn limits(&self) -> (f64, f64) {
        match self {
            XT::F(a, b) => (*a, *b),
            XT::I(a, b) => (*a as f64, *b as f64),
            XT::O(v) => (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max)),
            XT::E(n) => (0., *n as f64 - 1.),
        }
    }
    /// is `v` an admissible user space value
    pub fn valid(&self, v: f64) -> bool {
        match self {
            XT::F(a, b) => {
                let t = 1e-9 * (b - a).abs().max(1e-300);
                v.is_finite() && v >= a - t && v <= b + t
            }
            XT::I(a, b) => v.fract() == 0. && v >= *a as f64 && v <= *b as f64,
            XT::O(l) => l.iter().any(|x| *x == v),
            XT::E(n) => v.fract() == 0. && v >= 0. && v < *n as f64,
        }
    }
    pub fn unit(&self, v: f64) -> f64 {
        let (a, b) = self.limits();
        if b > a {
            (v - a) / (b - a)
        } else {
            0.
        }
    }
}
pub fn discrete(xt: &[XT]) -> bool {
    xt.iter().any(|t| !matches!(t, XT::F(..)))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EgoSpec {
    pub xt: Vec<XT>,
    /// use the mixed integer API even if all variables are continuous
    pub mixint: bool,
    /// seed of the objective / constraints functions
    pub fun: u64,
    /// 0 smooth, 1 multimodal, 2 plateaus, 3 discontinuous, 4 and 5 badly scaled, 6 constant,
    /// 7 huge penalty in places
    pub family: u8,
    pub n_cstr: usize,
    pub n_fcstr: usize,
    pub n_doe: usize,
    /// user given initial design: 0 none, 1 x only, 2 x and y
    pub doe: u8,
    pub max_iters: usize,
    pub q_points: usize,
    pub qei: u8,
    pub q_optmod: usize,
    pub infill: u8,
    pub cobyla: bool,
    pub n_start: usize,
    pub trego: bool,
    pub coego: usize,
    pub kpls: usize,
    /// 0: automatic
    pub clusters: usize,
    /// 0: smooth(1.), 1: hard, 2: smooth(None)
    pub recomb: u8,
    pub regr: u8,
    pub corr: u8,
    pub gp_start: usize,
    pub cstr_infill: bool,
    pub utb: bool,
    pub cstr_tol: Option<Vec<f64>>,
    pub seed: Option<u64>,
    pub outdir: Option<String>,
    pub warm: bool,
    /// None: disabled, Some(0): enabled, Some(n): n more iterations
    pub hot: Option<u64>,
    pub target: Option<f64>,
    pub env: Vec<String>,
    pub log_level: u8,
    /// evaluate rows in parallel with rayon
    pub par: bool,
    /// raise SIGINT inside of the n-th call of the objective
    pub sigint_at: Option<u64>,
    /// panic inside of the n-th call of the objective
    pub panic_at: Option<u64>,
    /// hyperparameters tuning: 0 default, 1 given bounds, 2 given bounds and start by dimension,
    /// 3 given start
    #[serde(default)]
    pub theta: u8,
    /// evaluations of the likelihood, 0: 30
    #[serde(default)]
    pub evals: usize,
}

impl EgoSpec {
    pub fn dim(&self) -> usize {
        self.xt.len()
    }
    pub fn width(&self) -> usize {
        self.xt.iter().map(|t| t.width()).sum()
    }
    pub fn ny(&self) -> usize {
        1 + self.n_cstr
    }
    pub fn n_doe_real(&self) -> usize {
        if self.n_doe == 0 {
            (self.width() + 1).max(5)
        } else {
            self.n_doe
        }
    }
    pub fn tol(&self, i: usize) -> f64 {
        match &self.cstr_tol {
            Some(v) if i < v.len() => v[i],
            _ => 1e-4,
        }
    }
    pub fn chkpt(&self) -> String {
        let d = self.outdir.clone().unwrap_or_else(|| ".checkpoints".into());
        simrt::disk::normalize(&format!("{d}/egor_checkpoint.json"))
    }
    pub fn file(&self, f: &str) -> String {
        let d = self.outdir.clone().unwrap_or_else(|| ".".into());
        simrt::disk::normalize(&format!("{d}/{f}"))
    }
    pub fn penv(&self) -> inc::Env {
        inc::Env { vars: self.env.iter().map(|k| (k.clone(), "1".to_string())).collect(), log_level: self.log_level }
    }
    /// size measure for minimisation
    pub fn xtypes(&self) -> Vec<XType> {
        self.xt.iter().map(|t| t.real()).collect()
    }
}

/// The problem: a pure function of (spec.fun, spec.family, x)
#[derive(Clone)]
pub struct Problem {
    xt: Vec<XT>,
    fam: u8,
    terms: Vec<Vec<(f64, f64, f64, f64)>>,
    pub n_cstr: usize,
    pub n_fcstr: usize,
}

impl Problem {
    pub fn new(s: &EgoSpec) -> Self {
        Self::build(&s.xt, s.fun, s.family, s.n_cstr, s.n_fcstr)
    }
    pub fn seeded(xt: &[XT], seed: u64, family: u8) -> Self {
        Self::build(xt, seed, family, 0, 0)
    }
    fn build(xt: &[XT], seed: u64, fam: u8, n_cstr: usize, n_fcstr: usize) -> Self {
        let mut r = Prng::new(simrt::mix(&[seed, 77]));
        let terms = (0..1 + n_cstr + n_fcstr)
            .map(|_| {
                xt.iter()
                    .map(|_| (0.3 + r.f64(), r.f64(), r.f64() * 0.8, 2. + 9. * r.f64()))
                    .collect()
            })
            .collect();
        Problem { xt: xt.to_vec(), fam, terms, n_cstr, n_fcstr }
    }
    fn raw(&self, k: usize, x: &[f64], grad: Option<&mut [f64]>) -> f64 {
        let mut f = 0.;
        let mut g = vec![0.; x.len()];
        for i in 0..self.xt.len().min(x.len()) {
            let t = self.xt[i].unit(x[i]);
            let (a, c, b, w) = self.terms[k][i];
            let d = t - c;
            f += a * d * d + b * 0.3 * (w * t).sin();
            let (lo, hi) = self.xt[i].limits();
            let s = if hi > lo { 1. / (hi - lo) } else { 0. };
            g[i] = (2. * a * d + b * 0.3 * w * (w * t).cos()) * s;
        }
        if let Some(out) = grad {
            for (o, v) in out.iter_mut().zip(g) {
                *o = v;
            }
        }
        f
    }
    pub fn obj(&self, x: &[f64]) -> f64 {
        let f = self.raw(0, x, None);
        match self.fam {
            0 | 1 => f,
            2 => (f * 4.).floor() / 4.,
            3 => {
                if self.xt[0].unit(x[0]) > 0.55 {
                    f + 1.5
                } else {
                    f
                }
            }
            4 => f * 1e6 - 3e5,
            6 => 0.25,
            // a penalty where the evaluation fails
            7 if (self.xt[0].unit(x[0]) * 7.3).fract() < 0.2 => 1e30,
            7 => f,
            _ => f * 1e-3,
        }
    }
    /// constraints: satisfied when <= tol
    pub fn cstr(&self, j: usize, x: &[f64]) -> f64 {
        let off = if self.fam == 3 { 0.02 } else { 0.35 };
        self.raw(1 + j, x, None) - off
    }
    pub fn fcstr(&self, j: usize, x: &[f64], grad: Option<&mut [f64]>) -> f64 {
        3.5 * (self.raw(1 + self.n_cstr + j, x, grad.map(|g| g)) - 0.4)
    }
    pub fn eval(&self, x: &[f64]) -> Vec<f64> {
        let mut v = vec![self.obj(x)];
        for j in 0..self.n_cstr {
            v.push(self.cstr(j, x));
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EgoOut {
    pub x_opt: Vec<f64>,
    pub y_opt: Vec<f64>,
    pub x_doe: Vec<Vec<f64>>,
    pub y_doe: Vec<Vec<f64>>,
    pub c_doe: Vec<Vec<f64>>,
    /// relaxed x
    pub x_raw: Vec<Vec<f64>>,
    pub iter: u64,
    pub max_iters: u64,
    pub term: String,
    pub doe_size: usize,
    pub best_index: Option<usize>,
    pub added: usize,
    pub feasibility: bool,
    pub last_best_iter: u64,
    /// hash of every field of the final state, but for the times, the counters and the status
    pub state: BTreeMap<String, u64>,
}

fn state_hash(s: &egobox_ego::EgorState<f64>) -> BTreeMap<String, u64> {
    let skip = ["time", "counts", "termination_status", "max_iters", "run_data", "data"];
    match serde_json::to_value(s) {
        Ok(serde_json::Value::Object(m)) => m
            .into_iter()
            .filter(|(k, _)| !skip.contains(&k.as_str()))
            .map(|(k, v)| (k, v.to_string().bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))))
            .collect(),
        _ => BTreeMap::new(),
    }
}

pub type EgoRes = std::result::Result<EgoOut, String>;

pub fn rows(a: &Array2<f64>) -> Vec<Vec<f64>> {
    a.rows().into_iter().map(|r| r.to_vec()).collect()
}
pub fn arr(v: &[Vec<f64>], nc: usize) -> Array2<f64> {
    Array2::from_shape_vec((v.len(), nc), v.iter().flatten().cloned().collect()).unwrap()
}

pub fn infill(k: u8) -> InfillStrategy {
    match k {
        0 => InfillStrategy::LogEI,
        1 => InfillStrategy::EI,
        2 => InfillStrategy::WB2,
        _ => InfillStrategy::WB2S,
    }
}
pub fn regr(k: u8) -> RegressionSpec {
    match k {
        0 => RegressionSpec::CONSTANT,
        1 => RegressionSpec::LINEAR,
        2 => RegressionSpec::QUADRATIC,
        _ => RegressionSpec::CONSTANT | RegressionSpec::LINEAR,
    }
}
pub fn corr(k: u8) -> CorrelationSpec {
    match k {
        0 => CorrelationSpec::SQUAREDEXPONENTIAL,
        1 => CorrelationSpec::ABSOLUTEEXPONENTIAL,
        2 => CorrelationSpec::MATERN32,
        3 => CorrelationSpec::MATERN52,
        _ => CorrelationSpec::SQUAREDEXPONENTIAL | CorrelationSpec::MATERN52,
    }
}

/// deterministic initial design given by the user (relaxed space, like the documentation asks)
pub fn user_doe(s: &EgoSpec) -> Array2<f64> {
    let mut r = Prng::new(simrt::mix(&[s.fun, 78]));
    let n = s.n_doe_real();
    let w = s.width();
    let mut lims = vec![];
    for t in &s.xt {
        for _ in 0..t.width() {
            lims.push(if let XT::E(_) = t { (0., 1.) } else { t.limits() });
        }
    }
    let mut x = Array2::zeros((n, w));
    for i in 0..n {
        for j in 0..w {
            let (a, b) = lims[j];
            x[[i, j]] = a + (b - a) * ((i as f64 + r.f64()) / n as f64 * 7.31 % 1.0);
        }
    }
    // every row is given in its discrete form
    for i in 0..n {
        let mut c = 0;
        for t in &s.xt {
            match t {
                XT::F(..) => {}
                XT::I(..) => x[[i, c]] = x[[i, c]].round(),
                XT::O(v) => {
                    let z = x[[i, c]];
                    let mut b = v[0];
                    for u in v {
                        if (u - z).abs() < (b - z).abs() {
                            b = *u;
                        }
                    }
                    x[[i, c]] = b;
                }
                XT::E(n) => {
                    let k = (r.below(*n as u64)) as usize;
                    for l in 0..*n {
                        x[[i, c + l]] = if l == k { 1. } else { 0. };
                    }
                }
            }
            c += t.width();
        }
    }
    x
}

/// user space coordinates of a relaxed row (independent re-implementation)
pub fn fold(xt: &[XT], r: &[f64]) -> Vec<f64> {
    let mut c = 0;
    let mut out = vec![];
    for t in xt {
        match t {
            XT::F(..) => out.push(r[c]),
            XT::I(..) => out.push(r[c].round()),
            XT::O(v) => {
                let mut b = v[0];
                for u in v {
                    if (u - r[c]).abs() < (b - r[c]).abs() {
                        b = *u;
                    }
                }
                out.push(b)
            }
            XT::E(n) => {
                let mut k = 0;
                for l in 0..*n {
                    if r[c + l] > r[c + k] {
                        k = l;
                    }
                }
                out.push(k as f64)
            }
        }
        c += t.width();
    }
    out
}

pub fn configure(s: &EgoSpec, c: EgorConfig) -> EgorConfig {
    let mut c = c
        .max_iters(s.max_iters)
        .n_start(s.n_start)
        .n_doe(s.n_doe)
        .n_cstr(s.n_cstr)
        .q_points(s.q_points)
        .q_optmod(s.q_optmod)
        .qei_strategy(match s.qei {
            0 => QEiStrategy::KrigingBeliever,
            1 => QEiStrategy::KrigingBelieverLowerBound,
            2 => QEiStrategy::KrigingBelieverUpperBound,
            _ => QEiStrategy::ConstantLiarMinimum,
        })
        .infill_strategy(infill(s.infill))
        .infill_optimizer(if s.cobyla { InfillOptimizer::Cobyla } else { InfillOptimizer::Slsqp })
        .configure_gp(|g| {
            let g = g
                .regression_spec(regr(s.regr))
                .correlation_spec(corr(s.corr))
                .n_start(s.gp_start)
                .max_eval(if s.evals == 0 { 30 } else { s.evals })
                .n_clusters(if s.clusters == 0 { NbClusters::auto() } else { NbClusters::fixed(s.clusters) })
                .recombination(match s.recomb {
                    0 => Recombination::Smooth(Some(1.)),
                    1 => Recombination::Hard,
                    _ => Recombination::Smooth(None),
                });
            let d = if s.kpls > 0 { s.kpls } else { s.width() };
            let g = match s.theta {
                0 => g,
                1 => g.theta_tuning(ThetaTuning::Full { init: ndarray::array![0.2], bounds: ndarray::array![(1e-3, 5.)] }),
                2 => g.theta_tuning(ThetaTuning::Full {
                    init: Array1::from_iter((0..d).map(|i| 0.1 * (i + 1) as f64)),
                    bounds: Array1::from_iter((0..d).map(|i| (1e-4, 2. * (i + 1) as f64))),
                }),
                _ => g.theta_tuning(ThetaTuning::Full { init: ndarray::array![1.], bounds: ndarray::array![ThetaTuning::<f64>::DEFAULT_BOUNDS] }),
            };
            if s.kpls > 0 {
                g.kpls(s.kpls)
            } else {
                g
            }
        })
        .trego(s.trego)
        .coego(if s.coego > 0 { CoegoStatus::Enabled(s.coego) } else { CoegoStatus::Disabled })
        .cstr_infill(s.cstr_infill)
        .cstr_strategy(if s.utb { ConstraintStrategy::UpperTrustBound } else { ConstraintStrategy::MeanConstraint })
        .warm_start(s.warm)
        .hot_start(s.hot.into());
    if let Some(t) = &s.cstr_tol {
        c = c.cstr_tol(Array1::from_vec(t.iter().map(|v| infinite(*v)).collect()));
    }
    if let Some(x) = s.seed {
        c = c.seed(x);
    }
    if let Some(o) = &s.outdir {
        c = c.outdir(o.clone());
    }
    if let Some(t) = s.target {
        c = c.target(infinite(t));
    }
    if s.doe > 0 {
        let x = user_doe(s);
        let d = if s.doe == 2 {
            let p = Problem::new(s);
            let mut y = Array2::zeros((x.nrows(), s.ny()));
            for i in 0..x.nrows() {
                let v = p.eval(&fold(&s.xt, &x.row(i).to_vec()));
                y.row_mut(i).assign(&Array1::from_vec(v));
            }
            ndarray::concatenate![ndarray::Axis(1), x, y]
        } else {
            x
        };
        c = c.doe(&d);
    }
    c
}

/// check a user space point handed out by the optimizer
pub fn check_x(s: &[XT], x: &[f64], who: &str) {
    if x.len() != s.len() {
        bad(&format!("{who}:dim"), || format!("{who} got a point of dimension {} instead of {}: {x:?}", x.len(), s.len()));
        return;
    }
    if who == "constraint" && x.iter().any(|v| v.is_nan()) {
        // the inner optimizers probe such a point when the criterion has no gradient
        return;
    }
    for (i, t) in s.iter().enumerate() {
        if !t.valid(x[i]) {
            bad(&format!("{who}:domain"), || format!("{who} got x[{i}]={:?} which is not in {t:?} (x={x:?})", x[i]));
        }
    }
}

fn raise_sigint() {
    if simrt::is_sim_thread() {
        simrt::sigint();
        simrt::point();
    }
}

/// The objective function given to the optimizer
pub fn objective(s: &EgoSpec) -> impl Fn(&ArrayView2<f64>) -> Array2<f64> + Clone + Send + Sync {
    let p = Problem::new(s);
    let s = s.clone();
    let calls = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    move |x: &ArrayView2<f64>| -> Array2<f64> {
        // number of the call
        let n = calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if s.panic_at == Some(n) {
            panic!("injected objective panic");
        }
        let mut y = Array2::zeros((x.nrows(), s.ny()));
        if s.par {
            use rayon::prelude::*;
            let v: Vec<Vec<f64>> = (0..x.nrows()).into_par_iter().map(|i| p.eval(&x.row(i).to_vec())).collect();
            for (i, r) in v.into_iter().enumerate() {
                y.row_mut(i).assign(&Array1::from_vec(r));
            }
        } else {
            for i in 0..x.nrows() {
                let v = p.eval(&x.row(i).to_vec());
                y.row_mut(i).assign(&Array1::from_vec(v));
            }
        }
        for r in x.rows() {
            check_x(&s.xt, &r.to_vec(), "objective");
        }
        if s.sigint_at == Some(n) {
            raise_sigint();
        }
        simrt::outside(|| {
            let d = inc::disk_len();
            let xs = x.rows().into_iter().map(|r| r.to_vec()).collect();
            let ys = rows(&y);
            collect(|c| c.evs.push(Ev::Eval { x: xs, y: ys, disk: d }));
        });
        simrt::point();
        y
    }
}

fn out<F: Fn() -> Vec<Vec<f64>>>(r: &OptimResult<f64>, c: F, raw: Vec<Vec<f64>>) -> EgoOut {
    EgoOut {
        x_opt: r.x_opt.to_vec(),
        y_opt: r.y_opt.to_vec(),
        x_doe: rows(&r.x_doe),
        y_doe: rows(&r.y_doe),
        c_doe: c(),
        x_raw: raw,
        iter: r.state.iter,
        max_iters: r.state.max_iters,
        term: format!("{:?}", r.state.termination_status),
        doe_size: r.state.doe_size,
        best_index: r.state.best_index,
        added: r.state.added,
        feasibility: r.state.feasibility,
        last_best_iter: r.state.last_best_iter,
        state: state_hash(&r.state),
    }
}

/// Body of one incarnation
pub fn run(s: &EgoSpec) -> EgoRes {
    let p = Problem::new(s);
    let s2 = s.clone();
    let fc: Vec<_> = (0..s.n_fcstr)
        .map(|j| {
            let p = p.clone();
            let xt = s.xt.clone();
            move |x: &[f64], g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>| -> f64 {
                collect(|c| c.fcstr_calls += 1);
                check_x(&xt, x, "constraint");
                p.fcstr(j, x, g)
            }
        })
        .collect();
    let f = EgorFactory::optimize(objective(s)).subject_to(fc).configure(|c| configure(s, c));
    let fin = |r: egobox_ego::Result<OptimResult<f64>>| -> EgoRes {
        match r {
            Ok(r) => {
                let (xr, c) = match &r.state.data {
                    Some((x, _, c)) => (rows(x), rows(c)),
                    None => (vec![], vec![]),
                };
                Ok(out(&r, || c.clone(), xr))
            }
            Err(e) => Err(format!("{e:?}")),
        }
    };
    if discrete(&s2.xt) || s2.mixint {
        match f.min_within_mixint_space(&s2.xtypes()) {
            Ok(e) => fin(e.run()),
            Err(e) => Err(format!("{e:?}")),
        }
    } else {
        let mut lim = Array2::zeros((s2.xt.len(), 2));
        for (i, t) in s2.xt.iter().enumerate() {
            let (a, b) = t.limits();
            lim[[i, 0]] = a;
            lim[[i, 1]] = b;
        }
        match f.min_within(&lim) {
            Ok(e) => fin(e.run()),
            Err(e) => Err(format!("{e:?}")),
        }
    }
}

/// state data may have been consumed by the result: take what is there
pub fn data_of(o: &EgoOut) -> bool {
    !o.x_raw.is_empty()
}

pub struct Bias {
    pub mixed: u64,
    pub cstr: u64,
    pub fcstr: u64,
    pub outdir: u64,
    pub doe: u64,
    pub env: u64,
    pub trego: u64,
    pub coego: u64,
    pub clusters: u64,
    pub target: u64,
    pub noseed: u64,
    /// chance to allow several categorical variables (known finding C06 fold-second-enum)
    pub enums: u64,
    pub max_it: u64,
}
impl Default for Bias {
    fn default() -> Self {
        Bias {
            mixed: 35,
            cstr: 40,
            fcstr: 30,
            outdir: 60,
            doe: 20,
            env: 20,
            trego: 25,
            coego: 12,
            clusters: 20,
            target: 10,
            noseed: 10,
            enums: 0,
            max_it: 4,
        }
    }
}

pub fn gen_xt(r: &mut Prng, mixed: bool, dmax: u64) -> Vec<XT> {
    let d = r.range(1, dmax) as usize;
    let mut v: Vec<XT> = (0..d)
        .map(|_| {
            let k = if mixed { r.below(5) } else { 0 };
            match k {
                1 => {
                    let a = r.range(0, 10) as i32 - 5;
                    XT::I(a, a + r.range(2, 12) as i32)
                }
                2 => {
                    let n = r.range(2, 4);
                    let mut z = -3. + 4. * r.f64();
                    XT::O((0..n)
                        .map(|_| {
                            z += 0.5 + (r.f64() * 30.).round() / 10.;
                            z
                        })
                        .collect())
                }
                3 => XT::E(r.range(2, 3) as usize),
                _ => {
                    let a = (r.f64() * 40.).round() / 2. - 10.;
                    let w = *r.pick(&[1., 2.5, 10., 0.02, 300.]);
                    XT::F(a, a + w)
                }
            }
        })
        .collect();
    if mixed && !discrete(&v) {
        let i = r.below(d as u64) as usize;
        let c = [XT::I(0, 8), XT::E(3), XT::O(vec![1., 2.5, 7.])];
        v[i] = r.pick(&c).clone();
    }
    v
}

/// keep the first categorical variable only
pub fn single_enum(xt: &mut [XT]) {
    let mut seen = false;
    for t in xt.iter_mut() {
        if let XT::E(n) = t {
            if seen {
                *t = XT::I(0, *n as i32 + 1);
            }
            seen = true;
        }
    }
}
pub fn n_enums(xt: &[XT]) -> usize {
    xt.iter().filter(|t| matches!(t, XT::E(_))).count()
}
/// what the code does: the columns of a categorical variable are taken at the index of the
/// variable instead of the index of its first column
pub fn fold_as_is(xt: &[XT], r: &[f64]) -> Vec<f64> {
    let mut f = fold(xt, r);
    // the other columns are cast first
    let mut cast: Vec<f64> = vec![];
    let mut c = 0;
    for (j, t) in xt.iter().enumerate() {
        match t {
            XT::E(n) => cast.extend((0..*n).map(|l| if l as f64 == f[j] { 1. } else { 0. })),
            _ => cast.push(f[j]),
        }
        c += t.width();
    }
    let _ = c;
    for (j, t) in xt.iter().enumerate() {
        if let XT::E(n) = t {
            let mut k = 0;
            for l in 0..*n {
                if cast[j + l] > cast[j + k] {
                    k = l;
                }
            }
            f[j] = k as f64;
        }
    }
    f
}

/// number of distinct user space points (None: infinite)
pub fn cardinality(xt: &[XT]) -> Option<u64> {
    let mut n = 1u64;
    for t in xt {
        n = n.saturating_mul(match t {
            XT::F(..) => return None,
            XT::I(a, b) => (b - a + 1) as u64,
            XT::O(v) => v.len() as u64,
            XT::E(n) => *n as u64,
        });
    }
    Some(n)
}

pub fn gen(r: &mut Prng, b: &Bias) -> EgoSpec {
    let mixed = r.chance(b.mixed);
    let coego = if r.chance(b.coego) { r.range(1, 3) as usize } else { 0 };
    let mut xt = gen_xt(r, mixed, if coego > 0 { 4 } else { 3 });
    if !r.chance(b.enums) {
        single_enum(&mut xt);
    }
    let n_cstr = if r.chance(b.cstr) { r.range(1, 2) as usize } else { 0 };
    let n_fcstr = if coego == 0 && r.chance(b.fcstr) { r.range(1, 2) as usize } else { 0 };
    let width: usize = xt.iter().map(|t| t.width()).sum();
    let kpls = if coego == 0 && width >= 2 && r.chance(10) { 1 } else { 0 };
    let clusters = if coego == 0 && r.chance(b.clusters) { *r.pick(&[0usize, 2, 2]) } else { 1 };
    let n_doe = match r.below(4) {
        0 => 0,
        _ => (width as u64 + 2 + r.below(4)).max(5) as usize,
    };
    let n_doe = if clusters != 1 { n_doe.max(10) } else { n_doe };
    let outdir = if r.chance(b.outdir) {
        Some(r.pick(&["/simdisk/out", "run/deep/dir", "/simdisk/cwd/o"]).to_string())
    } else {
        None
    };
    let mut env = vec![];
    if r.chance(b.env) {
        let all = [
            EGOR_USE_MAX_PROBA_OF_FEASIBILITY,
            EGOR_USE_GP_VAR_PORTFOLIO,
            EGOR_USE_GP_RECORDER,
            "EGOR_USE_RUN_RECORDER",
            "EGOR_DO_NOT_USE_MIDDLEPICKER_MULTISTARTER",
        ];
        let k = r.range(1, 2);
        for _ in 0..k {
            let e = r.pick(&all).to_string();
            if !env.contains(&e) {
                env.push(e);
            }
        }
    }
    let n_tol = n_cstr + if r.chance(50) { n_fcstr } else { 0 };
    let mut s = EgoSpec {
        mixint: r.chance(15),
        xt,
        fun: r.next() % 1_000_000,
        family: r.below(8) as u8,
        n_cstr,
        n_fcstr,
        n_doe,
        doe: if r.chance(b.doe) { r.range(1, 2) as u8 } else { 0 },
        max_iters: r.range(2, b.max_it) as usize,
        q_points: if r.chance(25) { r.range(2, 3) as usize } else { 1 },
        qei: r.below(4) as u8,
        q_optmod: if r.chance(20) { 2 } else { 1 },
        infill: r.below(4) as u8,
        cobyla: r.chance(40),
        n_start: r.range(4, 8) as usize,
        trego: r.chance(b.trego),
        coego,
        kpls,
        clusters,
        recomb: r.below(3) as u8,
        regr: if kpls > 0 || width > 3 || r.chance(70) { 0 } else { r.below(2) as u8 },
        corr: if r.chance(50) { 0 } else { r.below(5) as u8 },
        gp_start: r.range(2, 4) as usize,
        cstr_infill: n_cstr > 0 && r.chance(30),
        utb: r.chance(30),
        cstr_tol: if n_tol > 0 && r.chance(40) {
            Some((0..n_tol).map(|_| *r.pick(&[1e-4, 1e-2, 0.2])).collect())
        } else {
            None
        },
        seed: if r.chance(b.noseed) { None } else { Some(r.below(1000)) },
        outdir,
        warm: false,
        hot: None,
        target: if r.chance(b.target) { Some(*r.pick(&[0.0, -0.2, 0.3])) } else { None },
        env,
        log_level: r.below(3) as u8,
        par: r.chance(30),
        sigint_at: None,
        panic_at: None,
        theta: if r.chance(20) { r.range(1, 3) as u8 } else { 0 },
        evals: if r.chance(10) { *r.pick(&[25, 50]) } else { 0 },
    };
    if r.chance(14) {
        odd(r, &mut s);
    }
    if r.chance(12) {
        rare(r, &mut s);
    }
    s
}

/// unusual settings together
fn rare(r: &mut Prng, s: &mut EgoSpec) {
    match r.below(5) {
        0 if s.width() <= 2 && s.kpls == 0 => {
            s.regr = r.range(2, 3) as u8;
            s.n_doe = s.n_doe.max(9) * s.clusters.max(1);
        }
        1 if s.coego == 0 => {
            s.clusters = 3;
            s.n_doe = s.n_doe.max(16);
        }
        2 if s.coego > 0 => s.n_fcstr = r.range(1, 2) as usize,
        3 if s.coego > 0 && s.kpls == 0 => {
            s.clusters = 2;
            s.n_doe = s.n_doe.max(12);
        }
        4 if s.width() >= 3 && s.coego == 0 => s.kpls = 2,
        _ => s.q_optmod = 3,
    }
}

/// unusual sizes
fn odd(r: &mut Prng, s: &mut EgoSpec) {
    match r.below(10) {
        9 => s.n_doe = r.range(1, 3) as usize,
        0 => s.max_iters = r.below(2) as usize,
        1 => s.n_doe = r.range(1, 4) as usize,
        2 => {
            s.q_points = r.range(4, 6) as usize;
            s.max_iters = s.max_iters.min(2);
            s.gp_start = 1;
        }
        3 => s.n_start = r.range(1, 3) as usize,
        4 => {
            s.max_iters = r.range(7, 10) as usize;
            s.q_points = 1;
            s.n_start = 2;
            s.gp_start = 1;
        }
        5 => {
            s.n_cstr = 3;
            s.cstr_tol = None;
        }
        6 if s.coego == 0 => {
            s.n_fcstr = 3;
            s.cstr_tol = None;
        }
        7 => s.n_doe = 25,
        _ => {
            while s.xt.len() < 6 {
                s.xt.push(XT::F(-2., 2.));
            }
            s.clusters = 1;
            s.regr = 0;
            s.n_doe = s.n_doe.max(s.width() + 2);
            s.n_start = 3;
            s.gp_start = 1;
            s.max_iters = s.max_iters.min(3);
        }
    }
}

/// specifications are written as JSON: 1e300 stands for infinity
fn infinite(v: f64) -> f64 {
    if v.abs() >= 1e300 {
        v * 1e100
    } else {
        v
    }
}
/// in a tenth of the runs a target or tolerances without limit
pub fn unlimited(r: &mut Prng, s: &mut EgoSpec) {
    if r.chance(10) {
        if r.chance(50) {
            s.target = Some(-1e300);
        }
        if let (Some(t), true) = (&mut s.cstr_tol, r.chance(50)) {
            t[0] = 1e300;
        }
    }
}

/// candidates of simpler specifications
pub fn shrink(s: &EgoSpec) -> Vec<EgoSpec> {
    let mut v = vec![];
    let mut t = |f: &dyn Fn(&mut EgoSpec)| {
        let mut c = s.clone();
        f(&mut c);
        if c != *s {
            v.push(c);
        }
    };
    t(&|c| c.env.clear());
    t(&|c| c.log_level = 0);
    t(&|c| c.par = false);
    t(&|c| c.coego = 0);
    t(&|c| c.trego = false);
    t(&|c| c.kpls = 0);
    t(&|c| c.clusters = 1);
    t(&|c| c.q_points = 1);
    t(&|c| c.qei = 0);
    t(&|c| c.q_optmod = 1);
    t(&|c| c.n_fcstr = 0);
    t(&|c| {
        c.n_cstr = 0;
        c.cstr_tol = None;
        c.cstr_infill = false;
    });
    t(&|c| c.cstr_tol = None);
    t(&|c| c.cstr_infill = false);
    t(&|c| c.utb = false);
    t(&|c| c.doe = 0);
    t(&|c| c.target = None);
    t(&|c| c.cobyla = false);
    t(&|c| c.infill = 0);
    t(&|c| c.regr = 0);
    t(&|c| c.corr = 0);
    t(&|c| c.recomb = 0);
    t(&|c| c.theta = 0);
    t(&|c| c.evals = 0);
    t(&|c| c.family = 0);
    t(&|c| c.mixint = false);
    t(&|c| {
        if c.max_iters > 1 {
            c.max_iters -= 1
        }
    });
    t(&|c| {
        if c.xt.len() > 1 {
            c.xt.pop();
        }
    });
    t(&|c| {
        if c.xt.len() > 1 {
            c.xt.remove(0);
        }
    });
    v
}

pub fn exec(plan: &simrt::Plan, image: &simrt::disk::Image, s: &EgoSpec) -> inc::Inc<EgoRes> {
    let s2 = s.clone();
    inc::run(plan, image, &s.penv(), move || run(&s2))
}
