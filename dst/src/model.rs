//! Surrogate model workloads.
use crate::ego::{arr, corr, regr, rows, Problem, XT};
use egobox_ego::gpmix::mixint::{MixintContext, MixintGpMixture};
use egobox_gp::{Inducings, SparseMethod, ThetaTuning};
use egobox_moe::*;
use std::result::Result;
use linfa::prelude::{Dataset, ParamGuard};
use ndarray::{Array1, Array2};
use ndarray_rand::rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use serde::{Deserialize, Serialize};
use simrt::Prng;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MSpec {
    /// 0 mixture, 1 mixture over a mixed integer space, 2 one expert of a mixture
    pub kind: u8,
    pub xt: Vec<XT>,
    pub n: usize,
    pub seed: u64,
    pub family: u8,
    /// 0: automatic
    pub clusters: usize,
    pub recomb: u8,
    pub regr: u8,
    pub corr: u8,
    pub kpls: usize,
    pub n_start: usize,
    pub max_eval: usize,
    /// 0 full gp, 1 FITC, 2 VFE
    pub sparse: u8,
    pub inducings: usize,
    /// 0 default, 1 fixed theta, 2 partially tuned theta, 3 other bounds and start
    pub tuning: u8,
    pub noise: f64,
    /// inducing points are given
    #[serde(default)]
    pub located: bool,
}

pub fn gen_xt(r: &mut Prng, discrete: bool) -> Vec<XT> {
    let d = 1 + r.below(3) as usize;
    let mut enums = 0;
    (0..d)
        .map(|_| {
            match if discrete { r.below(4) } else { 0 } {
                1 => {
                    let (a, b) = *r.pick(&[(-3, 9), (0, 25)]);
                    XT::I(a, b)
                }
                2 if enums == 0 => {
                    enums += 1;
                    XT::E(2 + r.below(3) as usize)
                }
                2 | 3 => XT::O(vec![-2., 0.5, 1., 4.]),
                _ => {
                    let (a, b) = *r.pick(&[(-3., 7.), (0., 1.), (-1e3, 1e3), (1e-3, 2e-3), (5., 5.5)]);
                    XT::F(a, b)
                }
            }
        })
        .collect()
}

pub fn gen(r: &mut Prng) -> MSpec {
    let kind = *r.pick(&[0u8, 0, 1, 1, 2]);
    let xt = gen_xt(r, kind == 1);
    let sparse = if r.chance(25) { 1 + r.below(2) as u8 } else { 0 };
    let w: usize = xt.iter().map(|t| t.width()).sum();
    let clusters = if sparse > 0 { *r.pick(&[1, 1, 2]) } else { *r.pick(&[1, 1, 1, 2, 3, 0]) };
    let n = (12 + r.below(22) as usize).max(2 * w + 4) + 8 * clusters;
    MSpec {
        kind,
        n,
        seed: r.next(),
        family: r.below(8) as u8,
        clusters,
        recomb: r.below(3) as u8,
        regr: if sparse > 0 { 0 } else { *r.pick(&[0, 0, 1, 2, 3]) },
        corr: r.below(5) as u8,
        kpls: if w > 1 && r.chance(20) { 1 } else { 0 },
        n_start: r.below(4) as usize,
        max_eval: 25 + r.below(30) as usize,
        sparse,
        inducings: 5 + r.below(5) as usize,
        tuning: if clusters == 1 && r.chance(35) { 1 + r.below(3) as u8 } else { 0 },
        noise: if sparse > 0 || r.chance(10) { 0.05 } else { 0. },
        located: r.chance(25),
        xt,
    }
}

impl MSpec {
    pub fn width(&self) -> usize {
        self.xt.iter().map(|t| t.width()).sum()
    }
    fn problem(&self) -> Problem {
        Problem::seeded(&self.xt, self.seed, self.family)
    }
    /// user space points
    pub fn points(&self, n: usize, salt: u64) -> Array2<f64> {
        let mut r = Prng::new(simrt::mix(&[self.seed, salt]));
        let mut x = Array2::zeros((n, self.xt.len()));
        for j in 0..self.xt.len() {
            // stratified along each dimension
            let mut idx: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                idx.swap(i, r.below(i as u64 + 1) as usize);
            }
            for i in 0..n {
                let u = (idx[i] as f64 + r.f64()) / n as f64;
                x[[i, j]] = match &self.xt[j] {
                    XT::F(a, b) => a + (b - a) * u,
                    XT::I(a, b) => (*a as f64 + (b - a) as f64 * u).round(),
                    XT::O(v) => v[((u * v.len() as f64) as usize).min(v.len() - 1)],
                    XT::E(k) => ((u * *k as f64) as usize).min(k - 1) as f64,
                };
            }
        }
        x
    }
    pub fn data(&self) -> (Array2<f64>, Array1<f64>) {
        let x = self.points(self.n, 1);
        let p = self.problem();
        let mut r = Prng::new(simrt::mix(&[self.seed, 2]));
        let y = x.rows().into_iter().map(|v| p.obj(&v.to_vec()) + self.noise * (r.f64() - 0.5)).collect();
        (x, y)
    }
    pub fn params(&self) -> GpMixtureParams<f64> {
        let ty = match self.sparse {
            0 => GpType::FullGp,
            k => GpType::SparseGp {
                sparse_method: if k == 1 { SparseMethod::Fitc } else { SparseMethod::Vfe },
                inducings: if self.located && self.kind != 1 { Inducings::Located(self.points(self.inducings, 9)) } else { Inducings::Randomized(self.inducings) },
            },
        };
        let mut p = GpMixtureParams::new_with_rng(ty, Xoshiro256Plus::seed_from_u64(self.seed ^ 5))
            .n_clusters(if self.clusters == 0 { NbClusters::automax(3) } else { NbClusters::fixed(self.clusters) })
            .recombination(match self.recomb {
                0 => Recombination::Smooth(Some(1.)),
                1 => Recombination::Hard,
                _ => Recombination::Smooth(None),
            })
            .regression_spec(regr(self.regr))
            .correlation_spec(corr(self.corr))
            .n_start(self.n_start)
            .max_eval(self.max_eval);
        if self.kpls > 0 {
            p = p.kpls_dim(Some(self.kpls));
        }
        if self.tuning > 0 {
            let w = if self.kpls > 0 { self.kpls } else { self.width() };
            let t = match self.tuning {
                1 => ThetaTuning::Fixed(Array1::from_elem(w, 0.3)),
                3 => ThetaTuning::Full { init: Array1::from_elem(1, 0.5), bounds: Array1::from_elem(1, (1e-3, 2.)) },
                _ => ThetaTuning::Partial {
                    init: Array1::from_elem(w, 0.3),
                    bounds: Array1::from_elem(w, (1e-3, 10.)),
                    active: vec![0],
                },
            };
            p = p.theta_tunings(&[t]);
        }
        p
    }
}

pub enum Model {
    Moe(Box<GpMixture>),
    Mix(Box<MixintGpMixture>),
    /// the first expert of a mixture
    Expert(Box<GpMixture>),
    Gp(Box<dyn GpSurrogate>),
}

fn err(e: impl std::fmt::Debug) -> String {
    format!("{e:?}")
}

pub fn train(s: &MSpec) -> Result<Model, String> {
    let (x, y) = s.data();
    let p = s.params();
    Ok(match s.kind {
        1 => Model::Mix(Box::new(MixintContext::new(&s.xt.iter().map(|t| t.real()).collect::<Vec<_>>()).create_surrogate(&p, &Dataset::new(x, y)).map_err(err)?)),
        k => {
            let m = p.check().map_err(err)?.train(&x, &y).map_err(err)?;
            if k == 2 {
                Model::Expert(Box::new(m))
            } else {
                Model::Moe(Box::new(m))
            }
        }
    })
}

pub fn fmt(bin: bool) -> GpFileFormat {
    if bin {
        GpFileFormat::Binary
    } else {
        GpFileFormat::Json
    }
}

/// everything a user can observe
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Obs {
    pub text: String,
    pub v: Vec<(String, Vec<f64>)>,
}
impl Obs {
    /// first difference
    pub fn diff(&self, o: &Obs) -> Option<String> {
        if self.text != o.text {
            return Some(format!("described as {:.120} / {:.120}", self.text, o.text));
        }
        for ((k, a), (l, b)) in self.v.iter().zip(&o.v) {
            if k != l || a.len() != b.len() {
                return Some(format!("{k} has {} values / {l} has {}", a.len(), b.len()));
            }
            if let Some(i) = (0..a.len()).find(|&i| a[i].to_bits() != b[i].to_bits() && !(a[i].is_nan() && b[i].is_nan())) {
                return Some(format!("{k}[{i}] = {:?} / {:?}", a[i], b[i]));
            }
        }
        (self.v.len() != o.v.len()).then(|| "other values".to_string())
    }
    pub fn get(&self, k: &str) -> &[f64] {
        self.v.iter().find(|(n, _)| n == k).map(|(_, v)| &v[..]).unwrap_or(&[])
    }
}

fn one<T, E: std::fmt::Debug>(o: &mut Obs, k: &str, r: Result<T, E>, f: impl FnOnce(T) -> Vec<f64>) {
    match r {
        Ok(t) => o.v.push((k.into(), f(t))),
        Err(e) => o.text += &format!(" {k}: {e:?}"),
    }
}
fn flat(a: Array2<f64>) -> Vec<f64> {
    rows(&a).concat()
}

impl Model {
    pub fn gp(&self) -> &dyn GpSurrogate {
        match self {
            Model::Moe(m) => &**m,
            Model::Mix(m) => &**m,
            Model::Expert(m) => &*m.experts()[0],
            Model::Gp(m) => &**m,
        }
    }
    /// the predictions only
    pub fn predict(&self, x: &Array2<f64>) -> Obs {
        let mut o = Obs::default();
        let xv = x.view();
        let g = self.gp();
        one(&mut o, "predict", g.predict(&xv), |v| v.to_vec());
        one(&mut o, "predict_var", g.predict_var(&xv), |v| v.to_vec());
        if let Ok((a, b)) = g.predict_valvar(&xv) {
            o.v.push(("valvar.0".into(), a.to_vec()));
            o.v.push(("valvar.1".into(), b.to_vec()));
        }
        let ext: Option<&dyn GpSurrogateExt> = match self {
            Model::Moe(m) => Some(&**m),
            Model::Mix(m) => Some(&**m),
            Model::Expert(m) => Some(&*m.experts()[0]),
            Model::Gp(_) => None,
        };
        if let Some(e) = ext {
            one(&mut o, "gradients", e.predict_gradients(&xv), flat);
            one(&mut o, "var_gradients", e.predict_var_gradients(&xv), flat);
            if let Ok((a, b)) = e.predict_valvar_gradients(&xv) {
                o.v.push(("valvar_gradients.0".into(), flat(a)));
                o.v.push(("valvar_gradients.1".into(), flat(b)));
            }
        }
        o
    }
    pub fn observe(&self, x: &Array2<f64>) -> Obs {
        let mut o = self.predict(x);
        let g = self.gp();
        o.text += &format!("{g}");
        o.v.push(("dims".into(), vec![g.dims().0 as f64, g.dims().1 as f64]));
        let mut expert = |k: usize, e: &dyn GpParameterized| {
            o.v.push((format!("theta{k}"), e.theta().to_vec()));
            o.v.push((format!("params{k}"), vec![e.variance(), e.noise_variance(), e.likelihood()]));
        };
        match self {
            Model::Moe(m) => m.experts().iter().enumerate().for_each(|(k, e)| expert(k, &**e)),
            Model::Mix(m) => m.experts().iter().enumerate().for_each(|(k, e)| expert(k, &**e)),
            Model::Expert(m) => expert(0, &*m.experts()[0]),
            Model::Gp(_) => {}
        }
        let mix: Option<&dyn MixtureGpSurrogate> = match self {
            Model::Moe(m) => Some(&**m),
            Model::Mix(m) => Some(&**m),
            _ => None,
        };
        if let Some(m) = mix {
            o.v.push(("clusters".into(), vec![m.n_clusters() as f64]));
            o.text += &format!(" {:?}", m.recombination());
            let (x, y) = m.training_data();
            o.v.push(("xt".into(), flat(x.clone())));
            o.v.push(("yt".into(), y.to_vec()));
            let c = m.to_clustering();
            o.v.push(("weights".into(), c.gmx().weights().to_vec()));
            o.v.push(("means".into(), flat(c.gmx().means().clone())));
            o.v.push(("covariances".into(), c.gmx().covariances().iter().cloned().collect()));
        }
        o
    }
    /// cross validation: trains again with the parameters kept by the model
    pub fn retrain(&self) -> Obs {
        let mut o = Obs::default();
        let mix: Option<&dyn MixtureGpSurrogate> = match self {
            Model::Moe(m) => Some(&**m),
            Model::Mix(m) => Some(&**m),
            _ => None,
        };
        if let Some(m) = mix {
            o.v.push(("q2_k".into(), vec![m.q2_k(3)]));
            o.v.push(("pva_k".into(), vec![m.pva_k(3)]));
        }
        o
    }
    pub fn save(&self, path: &str, bin: bool) -> Result<(), String> {
        self.gp().save(path, fmt(bin)).map_err(err)
    }
    pub fn load(kind: u8, path: &str, bin: bool) -> Result<Model, String> {
        Ok(match kind {
            0 => Model::Moe(GpMixture::load(path, fmt(bin)).map_err(err)?),
            1 => Model::Mix(MixintGpMixture::load(path, fmt(bin)).map_err(err)?),
            _ => Model::Gp(egobox_moe::load(path, fmt(bin)).map_err(err)?),
        })
    }
}
pub fn mat(v: &[Vec<f64>]) -> Array2<f64> {
    arr(v, v.first().map(|r| r.len()).unwrap_or(0))
}
