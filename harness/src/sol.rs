//! C18: operations on orbit determination solutions (list algebra, statistics, storage). C19: the smoother.
use crate::core::*;
use crate::od::*;
use crate::world::*;
use hifitime::Epoch;
use indexmap::IndexSet;
use nalgebra::{Const, DMatrix, DVector, Matrix3, SMatrix, SVector, Vector3};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::io::ExportCfg;
use nyx_space::od::estimate::{Estimate, KfEstimate, Residual};
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::prelude::ODSolution;
use std::collections::{BTreeMap, BTreeSet};

type Sol<const M: usize> = ODSolution<Spacecraft, KfEstimate<Spacecraft>, Const<M>, Dev>;
const R: MeasurementType = MeasurementType::Range;
const D: MeasurementType = MeasurementType::Doppler;

/// What a record is about: none for time updates, or tracker, types and rejection.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Rk {
    msr: Option<(&'static str, &'static [MeasurementType], bool)>,
}
const RK: [Rk; 6] = [
    Rk { msr: None },
    Rk { msr: Some(("A", &[R], false)) },
    Rk { msr: Some(("A", &[D], true)) },
    Rk { msr: Some(("B", &[R], false)) },
    Rk { msr: Some(("A", &[R, D], false)) },
    Rk { msr: Some(("B", &[R, D], true)) },
];
// Which of them fit a filter of one measurement at a time.
const RK1: [usize; 4] = [0, 1, 2, 3];

/// One record of the list model: everything else is a function of the id.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Rec {
    id: usize,
    kind: usize,
    el: f64,
    smoothed: bool,
    orbit: usize,
}

fn val(id: usize, k: usize) -> f64 {
    let x = ((id * 37 + k * 101 + 7) % 997) as f64;
    (x - 498.0) / 211.0
}

fn cov_of(id: usize) -> M9 {
    let mut l = M9::zeros();
    let sc = [1.0, 1.2, 0.8, 1e-3, 1.1e-3, 0.9e-3, 0.05, 0.07, 0.3];
    for i in 0..9 {
        for j in 0..=i {
            l[(i, j)] = if i == j { sc[i] * (1.0 + 0.1 * val(id, i).abs()) } else { 0.2 * sc[i] * val(id, 10 + i * 9 + j) };
        }
    }
    l * l.transpose()
}

fn base_orbit(k: usize) -> anise::prelude::Orbit {
    match k {
        0 => zoo(3),
        1 => hyperbola(),
        k => zoo(k - 2),
    }
}

impl Rec {
    fn est(&self) -> KfEstimate<Spacecraft> {
        let mut nom = sc(base_orbit(self.orbit));
        let (r, v) = kepler(MU, nom.orbit.radius_km, nom.orbit.velocity_km_s, self.el);
        nom.orbit.radius_km = r;
        nom.orbit.velocity_km_s = v;
        nom.orbit.epoch += s(self.el);
        nom.srp.coeff_reflectivity = 1.3 + 0.01 * val(self.id, 3);
        nom.drag.coeff_drag = 2.1 + 0.01 * val(self.id, 4);
        nom.mass.prop_mass_kg = 40.0 + val(self.id, 5);
        let mut e = KfEstimate::from_covar(nom, cov_of(self.id));
        for i in 0..6 {
            e.state_deviation[i] = val(self.id, 20 + i) * if i < 3 { 0.1 } else { 1e-4 };
        }
        e.predicted = RK[self.kind].msr.is_none();
        e
    }
    fn resid<const M: usize>(&self) -> Option<Residual<Const<M>>> {
        let (trk, types, rej) = RK[self.kind].msr?;
        let v = |k: usize| SVector::<f64, M>::from_fn(|i, _| if i < types.len() { val(self.id, k + i) } else { 0.0 });
        let mut r = Residual::accepted(t0() + s(self.el), v(30), v(40), v(50), val(self.id, 60).abs(), v(70).abs(), v(80) * 1e3, v(90) * 1e3);
        if rej {
            r = Residual::rejected(r.epoch, r.prefit, r.whitened_resid, r.ratio, r.tracker_msr_noise, r.real_obs, r.computed_obs);
        }
        r.tracker = Some(trk.to_string());
        r.msr_types = types.iter().copied().collect();
        Some(r)
    }
    fn gain<const M: usize>(&self) -> Option<SMatrix<f64, 9, M>> {
        if self.smoothed {
            return None;
        }
        let (_, _, rej) = RK[self.kind].msr?;
        (!rej).then(|| SMatrix::from_fn(|i, j| val(self.id, 200 + 9 * j + i)))
    }
    fn fsr(&self) -> Option<V9> {
        self.smoothed.then(|| V9::from_fn(|i, _| val(self.id, 300 + i)))
    }
    fn is_time(&self) -> bool {
        RK[self.kind].msr.is_none()
    }
    fn has(&self, ty: MeasurementType) -> bool {
        RK[self.kind].msr.is_some_and(|m| m.1.contains(&ty))
    }
    fn by(&self, trk: &str) -> bool {
        RK[self.kind].msr.is_some_and(|m| m.0 == trk)
    }
}

fn devs(names: &[&str]) -> BTreeMap<String, Dev> {
    names.iter().map(|n| (n.to_string(), dev(n, [5000.0, -3000.0, 2500.0], &[R, D], &[]))).collect()
}

fn build<const M: usize>(recs: &[Rec], names: &[&str], types: &[MeasurementType]) -> Sol<M> {
    let mut x = Sol::<M>::new(devs(names), types.iter().copied().collect());
    for r in recs {
        x.estimates.push(r.est());
        x.residuals.push(r.resid::<M>());
        x.gains.push(r.gain::<M>());
        x.filter_smoother_ratios.push(r.fsr());
    }
    x
}

/// The identity of a record, as text (NaNs included).
fn print<const M: usize>(e: &KfEstimate<Spacecraft>, r: &Option<Residual<Const<M>>>, g: &Option<SMatrix<f64, 9, M>>, f: &Option<V9>) -> String {
    let mut o = format!(
        "{:?} {:?} {:?} {:?} {} {:?}",
        e.nominal_state.orbit, e.nominal_state.srp, e.nominal_state.mass, e.state_deviation.as_slice(), e.predicted, e.covar.as_slice()
    );
    if let Some(r) = r {
        o += &format!(
            " | {} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {:?}",
            r.epoch, r.tracker, r.msr_types, r.prefit.as_slice(), r.postfit.as_slice(), r.whitened_resid.as_slice(), r.ratio,
            r.tracker_msr_noise.as_slice(), r.real_obs.as_slice(), r.rejected, r.computed_obs.as_slice()
        );
    }
    o + &format!(" | {:?} | {:?}", g.map(|g| g.as_slice().to_vec()), f.map(|f| f.as_slice().to_vec()))
}

fn prints<const M: usize>(x: &Sol<M>) -> Result<Vec<String>, String> {
    let n = x.estimates.len();
    if x.residuals.len() != n || x.gains.len() != n || x.filter_smoother_ratios.len() != n {
        return Err(format!("misaligned solution: {n} {} {} {}", x.residuals.len(), x.gains.len(), x.filter_smoother_ratios.len()));
    }
    Ok((0..n).map(|i| print(&x.estimates[i], &x.residuals[i], &x.gains[i], &x.filter_smoother_ratios[i])).collect())
}

fn want<const M: usize>(recs: &[Rec]) -> Vec<String> {
    recs.iter().map(|r| print::<M>(&r.est(), &r.resid(), &r.gain(), &r.fsr())).collect()
}

fn same<const M: usize>(t: &mut Tally, what: &str, x: &Sol<M>, recs: &[Rec]) -> Result<(), String> {
    let (a, b) = (prints(x)?, want::<M>(recs));
    t.see(&a);
    t.ensure(a == b, || format!("{what}: {} records instead of {}, or others than {recs:?}", a.len(), b.len()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    DropTime,
    Type(MeasurementType),
    Only(&'static str),
    Without(&'static str),
}
const OPS: [Op; 8] = [Op::DropTime, Op::Type(R), Op::Type(D), Op::Only("A"), Op::Only("B"), Op::Without("A"), Op::Without("B"), Op::Only("Z")];

fn apply<const M: usize>(x: Sol<M>, o: Op) -> Sol<M> {
    match o {
        Op::DropTime => x.drop_time_updates(),
        Op::Type(m) => x.filter_by_msr_type(m),
        Op::Only(n) => x.filter_by_tracker(n.to_string()),
        Op::Without(n) => x.exclude_tracker(n.to_string()),
    }
}
fn model_op(x: &[Rec], o: Op) -> Vec<Rec> {
    x.iter()
        .filter(|r| match o {
            Op::DropTime => !r.is_time(),
            Op::Type(m) => r.has(m),
            Op::Only(n) => r.by(n),
            Op::Without(n) => !r.by(n),
        })
        .copied()
        .collect()
}

fn recs_of(kinds: &[usize], smoothed: bool, orbit: usize) -> Vec<Rec> {
    kinds.iter().enumerate().map(|(i, k)| Rec { id: i + 1, kind: *k, el: 60.0 * i as f64 + 0.125, smoothed, orbit }).collect()
}

fn queries<const M: usize>(t: &mut Tally, x: &Sol<M>, recs: &[Rec]) -> Result<(), String> {
    // unique trackers and types
    let mut u: Vec<(String, MeasurementType)> = x.unique().into_iter().collect();
    let mut w: Vec<(String, MeasurementType)> = vec![];
    for r in recs {
        if let Some((n, ty, _)) = RK[r.kind].msr {
            for y in ty {
                if !w.contains(&(n.to_string(), *y)) {
                    w.push((n.to_string(), *y));
                }
            }
        }
    }
    u.sort_by_key(|k| format!("{k:?}"));
    w.sort_by_key(|k| format!("{k:?}"));
    t.ensure(u == w, || format!("unique {u:?} instead of {w:?}"))?;
    // split
    let parts = x.clone().split();
    t.ensure(parts.len() == w.len(), || format!("{} parts instead of {}", parts.len(), w.len()))?;
    let mut left: Vec<Vec<String>> = w.iter().map(|(n, ty)| want::<M>(&recs.iter().filter(|r| r.by(n) && r.has(*ty)).copied().collect::<Vec<_>>())).collect();
    for p in &parts {
        let a = prints(p)?;
        let k = left.iter().position(|l| *l == a);
        t.ensure(k.is_some(), || "a part of the split is not the records of one tracker and type".into())?;
        left.remove(k.unwrap());
    }
    // at
    for el in [-1.0, 0.125, 30.0, 60.125, 120.125, 180.125, 240.125, 500.0] {
        let e = t0() + s(el);
        let got = x.at(e);
        let cands: Vec<String> = want::<M>(&recs.iter().filter(|r| r.el == el).copied().collect::<Vec<_>>());
        match got {
            None => t.ensure(cands.is_empty(), || format!("nothing at {el} s"))?,
            Some(g) => {
                let p = print(&g.estimate, &g.residual, &g.gain, &g.filter_smoother_ratio);
                t.ensure(cands.contains(&p), || format!("the record at {el} s is another one"))?
            }
        }
    }
    // residuals
    for rej in [false, true] {
        let got = if rej { x.rejected_residuals() } else { x.accepted_residuals() };
        let w: Vec<String> = recs.iter().filter_map(|r| r.resid::<M>()).filter(|r| r.rejected == rej).map(|r| format!("{r:?}")).collect();
        let g: Vec<String> = got.iter().map(|r| format!("{r:?}")).collect();
        t.ensure(g == w, || format!("residuals with rejection {rej}"))?;
    }
    t.ensure(x.results().count() == recs.len(), || "results".into())?;
    t.ensure(x.is_filter_run() == recs.iter().any(|r| r.gain::<M>().is_some()), || "is_filter_run".into())?;
    t.ensure(x.is_smoother_run() == recs.iter().any(|r| r.fsr().is_some()), || "is_smoother_run".into())?;
    // trajectory: one state per epoch, in order
    match x.to_traj() {
        Err(_) => t.ensure(recs.is_empty(), || "to_traj failed".into())?,
        Ok(tr) => {
            let eps: BTreeSet<Epoch> = recs.iter().map(|r| t0() + s(r.el)).collect();
            let got: Vec<Epoch> = tr.states.iter().map(|y| y.epoch()).collect();
            t.ensure(got == eps.into_iter().collect::<Vec<_>>(), || format!("epochs of the trajectory: {got:?}"))?;
            for y in &tr.states {
                let ok = recs.iter().any(|r| r.est().state().orbit == y.orbit);
                t.ensure(ok, || "a state of the trajectory is no estimate".into())?;
            }
        }
    }
    // ephemeris
    let eph = x.to_ephemeris("obj".into());
    for r in recs {
        let e = r.est();
        if let Ok(rec) = eph.nearest_before(t0() + s(r.el), &almanac()) {
            let same_epoch: Vec<&Rec> = recs.iter().filter(|q| q.el == r.el).collect();
            let ok = same_epoch.iter().any(|q| {
                let e = q.est();
                rec.orbit == e.state().orbit
                    && rec.covar.is_some_and(|c| (0..6).all(|i| (0..6).all(|j| c.matrix[(i, j)] == e.covar[(i, j)])))
            });
            t.ensure(ok, || format!("ephemeris at {} s", r.el))?;
        } else {
            return Err(format!("no ephemeris record at {}", e.epoch()));
        }
    }
    Ok(())
}

/// Abramowitz-Stegun-free normal CDF by series/continued fraction of the error function.
fn phi_cdf(z: f64) -> f64 {
    let x = z / 2f64.sqrt();
    let a = x.abs();
    let erf = if a < 3.0 {
        let (mut sum, mut term, mut n) = (a, a, 0.0);
        while term.abs() > 1e-18 * sum.abs() && n < 200.0 {
            n += 1.0;
            term *= -a * a / n;
            sum += term / (2.0 * n + 1.0);
        }
        sum * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        // Lentz-free backward continued fraction of erfc
        let mut f = 0.0;
        for k in (1..=60).rev() {
            f = k as f64 / 2.0 / (a + f);
        }
        1.0 - (-a * a).exp() / std::f64::consts::PI.sqrt() / (a + f)
    };
    if x >= 0.0 { 0.5 * (1.0 + erf) } else { 0.5 * (1.0 - erf) }
}

fn stats<const M: usize>(t: &mut Tally, x: &Sol<M>, recs: &[Rec]) -> Result<(), String> {
    let res: Vec<Residual<Const<M>>> = recs.iter().filter_map(|r| r.resid::<M>()).collect();
    let n = res.len() as f64;
    if !res.is_empty() {
        let rms = |f: &dyn Fn(&Residual<Const<M>>) -> f64| (res.iter().map(f).sum::<f64>() / n).sqrt();
        t.close("rms of the prefits", x.rms_prefit_residuals(), rms(&|r| r.prefit.norm_squared()), 1e-12)?;
        t.close("rms of the ratios", x.rms_residual_ratios(), rms(&|r| r.ratio * r.ratio), 1e-12)?;
        if res.iter().all(|r| !r.rejected) {
            t.close("rms of the postfits", x.rms_postfit_residuals(), rms(&|r| r.postfit.norm_squared()), 1e-12)?;
        }
    }
    for th in [0.0, 0.5, 1.0, 1.5, 3.0] {
        let w = res.iter().filter(|r| r.ratio.abs() <= th).count() as f64 / n;
        match x.residual_ratio_within_threshold(th) {
            Ok(g) => t.close("fraction within", g, w, 1e-12)?,
            Err(_) => t.ensure(res.is_empty(), || "no fraction within".into())?,
        }
    }
    let acc: Vec<&Residual<Const<M>>> = res.iter().filter(|r| !r.rejected).collect();
    // NIS
    for (alpha, z) in [(None, 1.959963984540054), (Some(0.01), 2.5758293035489004), (Some(0.32), 0.994457883209753)] {
        match x.nis_consistency(alpha) {
            Err(_) => t.ensure(acc.is_empty() && x.is_nis_consistent(alpha).is_err(), || "no NIS".into())?,
            Ok(c) => {
                t.ensure(!acc.is_empty(), || "NIS of nothing".into())?;
                let sum: f64 = acc.iter().map(|r| r.whitened_resid.norm_squared()).sum();
                chi2(t, &c, sum, (acc.len() * M) as f64, z)?;
                t.ensure(!c.is_nees, || "NIS labelled NEES".into())?;
                let ok = sum > c.lower_bound && sum < c.upper_bound;
                t.ensure(x.is_nis_consistent(alpha).ok() == Some(ok), || format!("NIS of {sum}, bounds {} and {}: {:?}", c.lower_bound, c.upper_bound, x.is_nis_consistent(alpha)))?;
            }
        }
    }
    // KS
    let mut w: Vec<f64> = acc.iter().flat_map(|r| r.whitened_resid.iter().copied().collect::<Vec<_>>()).collect();
    w.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let m = w.len() as f64;
    let mean = w.iter().sum::<f64>() / m;
    let sd = (w.iter().map(|v| (v - mean).powi(2)).sum::<f64>() / m).sqrt();
    match x.ks_test_normality() {
        Err(_) => t.ensure(w.len() < 2 || sd == 0.0, || "no KS statistic".into())?,
        Ok(d) => {
            t.ensure(sd > 0.0, || "KS statistic of a single value".into())?;
            let mut b = 0.0f64;
            for (i, v) in w.iter().enumerate() {
                let f = phi_cdf((v - mean) / sd);
                b = b.max((f - i as f64 / m).abs()).max(((i + 1) as f64 / m - f).abs());
            }
            t.close("KS statistic", d, b, 1e-9)?;
            for alpha in [None, Some(0.5), Some(0.999)] {
                let crit = (-(alpha.unwrap_or(0.05) / 2.0f64).ln() / 2.0).sqrt() / m.sqrt();
                if (b - crit).abs() > 1e-6 {
                    let g = x.is_normal(alpha).map_err(|e| e.to_string())?;
                    t.ensure(g == (b <= crit), || format!("is_normal({alpha:?}) is {g}: statistic {b}, critical {crit}"))?;
                }
            }
        }
    }
    Ok(())
}

fn chi2(t: &mut Tally, c: &nyx_space::od::process::NormalizedConsistency, sum: f64, k: f64, z: f64) -> Result<(), String> {
    let f = 2.0 / (9.0 * k);
    let (lo, hi) = (k * (1.0 - f - z * f.sqrt()).powi(3), k * (1.0 - f + z * f.sqrt()).powi(3));
    t.close("normalized sum", c.normalized_sum, sum, 1e-8 * (1.0 + sum))?;
    t.close("degrees of freedom", c.k, k, 0.0)?;
    t.close("lower bound", c.lower_bound, lo, 1e-6)?;
    t.close("upper bound", c.upper_bound, hi, 1e-6)?;
    if (sum - lo).abs() > 1e-5 && (sum - hi).abs() > 1e-5 {
        let v = (c.is_consistent(), c.is_underconfident(), c.is_overconfident());
        t.ensure(v == (sum > lo && sum < hi, sum < lo, sum > hi), || format!("verdict {v:?} for {lo} {sum} {hi}"))?;
    }
    t.ensure(c.has_statistical_power() == (k > 35.0), || "statistical power".into())
}

fn nees(t: &mut Tally, recs: &[Rec], active: usize) -> Result<(), String> {
    let mut x = build::<1>(recs, &["A", "B"], &[R, D]);
    let mut truth = vec![];
    for (i, e) in x.estimates.iter_mut().enumerate() {
        for a in 0..9 {
            for b in 0..9 {
                if a >= active || b >= active {
                    e.covar[(a, b)] = 0.0;
                }
            }
        }
        let mut tr = e.nominal_state;
        let k = recs[i].id;
        // Exactly representable offsets are of no use here: the oracle takes the difference of what is stored.
        tr.orbit.radius_km += Vector3::new(val(k, 400), val(k, 401), val(k, 402));
        tr.orbit.velocity_km_s += Vector3::new(val(k, 403), val(k, 404), val(k, 405)) * 1e-3;
        tr.srp.coeff_reflectivity += 0.03;
        tr.drag.coeff_drag -= 0.02;
        tr.mass.prop_mass_kg += 0.1;
        truth.push(tr);
    }
    let mut traj = nyx_space::md::Trajectory::new();
    traj.states = truth.clone();
    let used: Vec<usize> = (1..recs.len()).collect();
    let mut sum = 0.0;
    for i in &used {
        let (a, b) = (x.estimates[*i].state(), truth[*i]);
        let d = [
            a.orbit.radius_km.x - b.orbit.radius_km.x,
            a.orbit.radius_km.y - b.orbit.radius_km.y,
            a.orbit.radius_km.z - b.orbit.radius_km.z,
            a.orbit.velocity_km_s.x - b.orbit.velocity_km_s.x,
            a.orbit.velocity_km_s.y - b.orbit.velocity_km_s.y,
            a.orbit.velocity_km_s.z - b.orbit.velocity_km_s.z,
            a.srp.coeff_reflectivity - b.srp.coeff_reflectivity,
            a.drag.coeff_drag - b.drag.coeff_drag,
            a.mass.prop_mass_kg - b.mass.prop_mass_kg,
        ];
        let p = DMatrix::from_fn(active, active, |r, c| x.estimates[*i].covar[(r, c)]);
        let e = DVector::from_fn(active, |r, _| d[r]);
        sum += (e.transpose() * p.try_inverse().ok_or("singular")? * &e)[(0, 0)];
    }
    t.step();
    for (alpha, z) in [(None, 1.959963984540054), (Some(0.01), 2.5758293035489004)] {
        match x.nees_consistency(&traj, alpha) {
            Err(e) => t.ensure(recs.len() < 2, || format!("no NEES: {e}"))?,
            Ok(c) => {
                t.ensure(recs.len() > 1, || "NEES of nothing".into())?;
                // The states are stored ones: no interpolation.
                let f = 2.0 / (9.0 * c.k);
                t.close("NEES", c.normalized_sum, sum, 1e-6 * (1.0 + sum))?;
                t.close("NEES degrees of freedom", c.k, (used.len() * active) as f64, 0.0)?;
                t.close("NEES upper bound", c.upper_bound, c.k * (1.0 - f + z * f.sqrt()).powi(3), 1e-6)?;
                t.close("NEES lower bound", c.lower_bound, c.k * (1.0 - f - z * f.sqrt()).powi(3), 1e-6)?;
                t.ensure(c.is_nees, || "NEES labelled NIS".into())?;
                let ok = sum > c.lower_bound && sum < c.upper_bound;
                t.ensure(x.is_nees_consistent(&traj, alpha).ok() == Some(ok), || format!("NEES of {sum}: {:?}", x.is_nees_consistent(&traj, alpha)))?;
            }
        }
    }
    Ok(())
}

fn window(el: f64, w: (Option<f64>, Option<f64>)) -> bool {
    w.0.is_none_or(|a| el >= a) && w.1.is_none_or(|b| el <= b)
}

fn pq<const M: usize>(t: &mut Tally, recs: &[Rec], types: &[MeasurementType], w: (Option<f64>, Option<f64>), name: &str) -> Result<(), String> {
    let x = build::<M>(recs, &["A", "B"], types);
    let dir = scratch_dir("sol");
    let path = dir.join(format!("{name}.parquet"));
    let mut cfg = ExportCfg::default();
    cfg.start_epoch = w.0.map(|a| t0() + s(a));
    cfg.end_epoch = w.1.map(|a| t0() + s(a));
    let r = x.to_parquet(&path, cfg);
    let kept: Vec<Rec> = recs.iter().filter(|r| window(r.el, w)).copied().collect();
    t.step();
    if recs.is_empty() {
        return t.ensure(r.is_err(), || "an empty solution was exported".into());
    }
    let p = r.map_err(|e| format!("export: {e}"))?;
    // The columns.
    let c = crate::traj::read_parquet(&p)?;
    t.ensure(c.rows == kept.len(), || format!("{} rows instead of {}", c.rows, kept.len()))?;
    let find = |pre: &str| c.num.iter().find(|(k, _)| k.starts_with(pre)).map(|(_, v)| v.clone()).ok_or(format!("no column {pre}"));
    let items = ["X", "Y", "Z", "Vx", "Vy", "Vz", "Cr", "Cd", "Mass"];
    if !kept.is_empty() {
        for i in 0..9 {
            let sg = find(&format!("Sigma {} (E", items[i])).or_else(|_| find(&format!("Sigma {} (", items[i])))?;
            for (k, r) in kept.iter().enumerate() {
                let w = cov_of(r.id)[(i, i)].sqrt();
                t.close(&format!("sigma {}", items[i]), sg[k].unwrap_or(f64::NAN), w, 1e-12 * w)?;
            }
            for j in i..9 {
                let cv = find(&format!("Covariance {}*{} (", items[i], items[j]))?;
                for (k, r) in kept.iter().enumerate() {
                    let w = cov_of(r.id)[(i, j)];
                    t.close("covariance column", cv[k].unwrap_or(f64::NAN), w, 0.0)?;
                }
            }
        }
        for i in 0..6 {
            let sg = find(&format!("Sigma {} (RIC)", items[i]))?;
            for (k, r) in kept.iter().enumerate() {
                if i > 2 && r.orbit == 1 {
                    continue; // ANISE differentiates its frame through its own two-body propagation, inaccurate on hyperbolas
                }
                let w = ric_sigma(&r.est())[i];
                t.close(&format!("RIC sigma {}", items[i]), sg[k].unwrap_or(f64::NAN), w, 2e-5 * w)?;
            }
        }
        let col = |n: &str| c.num.get(n).cloned().ok_or(format!("no column {n}"));
        for (k, r) in kept.iter().enumerate() {
            let st = r.est().state();
            for (n, v) in [
                ("X (km)", st.orbit.radius_km.x),
                ("Y (km)", st.orbit.radius_km.y),
                ("Z (km)", st.orbit.radius_km.z),
                ("VX (km/s)", st.orbit.velocity_km_s.x),
                ("VY (km/s)", st.orbit.velocity_km_s.y),
                ("VZ (km/s)", st.orbit.velocity_km_s.z),
            ] {
                t.close(n, col(n)?[k].unwrap_or(f64::NAN), v, 0.0)?;
            }
            let rs = r.resid::<M>();
            for ty in types {
                for (pre, f) in [
                    ("Prefit residual", rs.as_ref().and_then(|r| r.prefit(*ty))),
                    ("Postfit residual", rs.as_ref().and_then(|r| r.postfit(*ty))),
                    ("Measurement noise", rs.as_ref().and_then(|r| r.trk_noise(*ty))),
                    ("Real observation", rs.as_ref().and_then(|r| r.real_obs(*ty))),
                    ("Computed observation", rs.as_ref().and_then(|r| r.computed_obs(*ty))),
                ] {
                    let g = find(&format!("{pre}: {ty:?} ("))?[k];
                    t.ensure(format!("{g:?}") == format!("{f:?}"), || format!("{pre} of {ty:?} in row {k}: {g:?} instead of {f:?}"))?;
                }
            }
            let ra = col("Residual ratio")?[k];
            t.ensure(ra == rs.as_ref().map(|r| r.ratio), || "ratio".into())?;
            let tr = c.text.get("Tracker").ok_or("no tracker column")?[k].clone();
            t.ensure(tr == rs.as_ref().and_then(|r| r.tracker.clone()), || "tracker".into())?;
        }
    }
    // Back again.
    let y = Sol::<M>::from_parquet(&p, devs(&["A", "B"])).map_err(|e| format!("import: {e}"))?;
    t.step();
    t.ensure(y.estimates.len() == kept.len(), || format!("{} estimates reloaded, not {}", y.estimates.len(), kept.len()))?;
    prints(&y)?;
    let tys: IndexSet<MeasurementType> = types.iter().copied().collect();
    t.ensure(y.measurement_types == tys, || format!("types {:?}", y.measurement_types))?;
    for (k, r) in kept.iter().enumerate() {
        let (a, b) = (y.estimates[k].state(), r.est().state());
        t.ensure(a.orbit.epoch == b.orbit.epoch, || format!("epoch {} instead of {}", a.orbit.epoch, b.orbit.epoch))?;
        t.ensure(a.orbit.radius_km == b.orbit.radius_km && a.orbit.velocity_km_s == b.orbit.velocity_km_s, || "orbit reloaded".into())?;
        t.ensure(a.orbit.frame == b.orbit.frame, || format!("frame {:?} instead of {:?}", a.orbit.frame, b.orbit.frame))?;
        t.ensure(a.mass.dry_mass_kg == b.mass.dry_mass_kg && a.mass.prop_mass_kg == b.mass.prop_mass_kg, || "mass reloaded".into())?;
        t.ensure(a.srp == b.srp && a.drag == b.drag, || format!("{:?} {:?} instead of {:?} {:?}", a.srp, a.drag, b.srp, b.drag))?;
        t.ensure(y.estimates[k].covar == cov_of(r.id), || "covariance reloaded".into())?;
        let (g, w) = (format!("{:?}", y.gains[k]), format!("{:?}", r.gain::<M>()));
        t.ensure(g == w, || format!("gain reloaded {g} instead of {w}"))?;
        t.ensure(y.filter_smoother_ratios[k] == r.fsr(), || "smoother ratio reloaded".into())?;
        match (&y.residuals[k], r.resid::<M>()) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                for ty in [R, D] {
                    for (n, p, q) in [
                        ("prefit", a.prefit(ty), b.prefit(ty)),
                        ("postfit", a.postfit(ty), b.postfit(ty)),
                        ("noise", a.trk_noise(ty), b.trk_noise(ty)),
                        ("real", a.real_obs(ty), b.real_obs(ty)),
                        ("computed", a.computed_obs(ty), b.computed_obs(ty)),
                        ("whitened", a.whitened_resid(ty), b.whitened_resid(ty)),
                    ] {
                        t.ensure(format!("{p:?}") == format!("{q:?}"), || format!("{n} of {ty:?} reloaded as {p:?} instead of {q:?}"))?;
                    }
                }
                t.ensure(a.ratio == b.ratio && a.rejected == b.rejected && a.tracker == b.tracker && a.epoch == b.epoch, || "residual reloaded".into())?;
            }
            (a, b) => return Err(format!("residual {:?} reloaded for {:?}", a.is_some(), b.is_some())),
        }
    }
    Ok(())
}

fn ric_sigma(e: &KfEstimate<Spacecraft>) -> [f64; 6] {
    let o = e.state().orbit;
    let (r, v) = (o.radius_km, o.velocity_km_s);
    let dcm = |r: Vector3<f64>, v: Vector3<f64>| {
        let rh = r.normalize();
        let h = r.cross(&v).normalize();
        Matrix3::from_columns(&[rh, h.cross(&rh), h])
    };
    let m = dcm(r, v);
    // two-body rate of the frame: the momentum over the radius squared, about the normal
    let w = r.cross(&v) / r.norm_squared();
    let md = Matrix3::from_columns(&[w.cross(&m.column(0)), w.cross(&m.column(1)), w.cross(&m.column(2))]);
    let mut x = SMatrix::<f64, 6, 6>::zeros();
    x.fixed_view_mut::<3, 3>(0, 0).copy_from(&m.transpose());
    x.fixed_view_mut::<3, 3>(3, 3).copy_from(&m.transpose());
    x.fixed_view_mut::<3, 3>(3, 0).copy_from(&md.transpose());
    let p = x * e.covar.fixed_view::<6, 6>(0, 0) * x.transpose();
    std::array::from_fn(|i| p[(i, i)].sqrt())
}

fn merge_case(t: &mut Tally, a: &[usize], b: &[usize]) -> Result<(), String> {
    let mk = |e: &[usize], base: usize, kinds: [usize; 4]| -> Vec<Rec> {
        e.iter().enumerate().map(|(i, k)| Rec { id: base + i, kind: kinds[i % 4], el: 60.0 * *k as f64 + 0.125, smoothed: false, orbit: 0 }).collect()
    };
    let (ra, rb) = (mk(a, 1, [0, 1, 2, 3]), mk(b, 100, [3, 0, 4, 2]));
    let x = build::<2>(&ra, &["A", "B"], &[R]);
    let y = build::<2>(&rb, &["B", "C"], &[D]);
    let z = x.merge(y);
    t.step();
    let got = prints(&z)?;
    for p in z.estimates.windows(2) {
        t.ensure(p[0].epoch() <= p[1].epoch(), || format!("estimates out of order: {} before {}", p[0].epoch(), p[1].epoch()))?;
    }
    let mut g = got;
    t.see(&g);
    let mut w = want::<2>(&ra);
    w.extend(want::<2>(&rb));
    g.sort();
    w.sort();
    t.ensure(g == w, || "the records of the merge are not those of both".into())?;
    t.ensure(z.devices.keys().cloned().collect::<Vec<_>>() == ["A", "B", "C"], || format!("devices {:?}", z.devices.keys()))?;
    t.ensure(z.measurement_types == [R, D].into_iter().collect::<IndexSet<_>>(), || format!("types {:?}", z.measurement_types))?;
    // What follows from chronological order.
    for r in ra.iter().chain(rb.iter()) {
        t.ensure(z.at(t0() + s(r.el)).is_some(), || format!("nothing found at {} s after the merge", r.el))?;
    }
    Ok(())
}

/// All nondecreasing sequences of length up to n over 0..k.
fn chains(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for c in &cur {
            for e in c.last().copied().unwrap_or(0)..k {
                let mut d = c.clone();
                d.push(e);
                nx.push(d);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}

fn eq_case(t: &mut Tally, recs: &[Rec], what: usize) -> Result<(), String> {
    let a = build::<2>(recs, &["A", "B"], &[R, D]);
    let mut b = a.clone();
    let n = recs.len() - 1;
    let differ = match what {
        0 => false,
        1 => {
            b.estimates[n].covar[(0, 0)] += 1e-3;
            true
        }
        2 => {
            b.estimates[n].nominal_state.orbit.radius_km.y += 1e-3;
            true
        }
        3 => {
            b.measurement_types.shift_remove(&D);
            true
        }
        4 => {
            b.devices.remove("B");
            true
        }
        5 => {
            b.residuals[n] = match &b.residuals[n] {
                None => Rec { id: 55, kind: 1, el: 0.0, smoothed: false, orbit: 0 }.resid::<2>(),
                Some(_) => None,
            };
            true
        }
        6 => {
            b.gains[n] = match &b.gains[n] {
                None => Some(SMatrix::zeros()),
                Some(g) => Some(g.map(|x| x + 1e-3)),
            };
            true
        }
        7 => {
            b.filter_smoother_ratios[n] = match &b.filter_smoother_ratios[n] {
                None => Some(V9::zeros()),
                Some(_) => None,
            };
            true
        }
        8 => {
            if let Some(r) = &mut b.residuals[n] {
                r.ratio += 0.1;
                true
            } else {
                false
            }
        }
        _ => {
            b.estimates.pop();
            b.residuals.pop();
            b.gains.pop();
            b.filter_smoother_ratios.pop();
            true
        }
    };
    t.step();
    t.ensure((a == b) != differ, || format!("a == b is {} for change {what}", a == b))?;
    t.ensure((b == a) != differ, || format!("b == a is {} for change {what}", b == a))
}

pub fn c18(tier: Tier) -> Space {
    let mut sp = Space::new("every sequence of records up to the depth, with every sequence of two operations; every pair of chronological lists for merging; every window and order of types for storage");
    let depth = tier.pick(3, 4);
    let mut lists = vec![vec![]];
    lists.extend(sequences(6, 1, depth));
    for (li, kinds) in lists.iter().enumerate() {
        for smoothed in [false, true] {
            let kinds = kinds.clone();
            let one = kinds.iter().all(|k| RK1.contains(k));
            sp.push(format!("ops/{}/{}", kinds.iter().map(|k| k.to_string()).collect::<String>(), smoothed), move |t| {
                let recs = recs_of(&kinds, smoothed, 0);
                let x = build::<2>(&recs, &["A", "B"], &[R, D]);
                queries(t, &x, &recs)?;
                stats(t, &x, &recs)?;
                if one {
                    let y = build::<1>(&recs, &["A", "B"], &[R, D]);
                    queries(t, &y, &recs)?;
                    stats(t, &y, &recs)?;
                }
                for a in OPS {
                    let (xa, ma) = (apply(x.clone(), a), model_op(&recs, a));
                    t.step();
                    same(t, &format!("{a:?}"), &xa, &ma)?;
                    if !smoothed {
                        for b in OPS {
                            let (xb, mb) = (apply(xa.clone(), b), model_op(&ma, b));
                            t.step();
                            same(t, &format!("{a:?} then {b:?}"), &xb, &mb)?;
                        }
                    }
                }
                Ok(())
            });
        }
        let _ = li;
    }
    // Statistics and NEES over longer solutions, so that the tests have power
    for n in tier.pick(vec![1, 2, 3, 12, 40], vec![1, 2, 3, 4, 5, 8, 12, 20, 36, 40, 80]) {
        for (pi, pat) in [vec![1], vec![0, 1, 3], vec![1, 2], vec![4, 5, 0], vec![0]].into_iter().enumerate() {
            let kinds: Vec<usize> = (0..n).map(|i| pat[i % pat.len()]).collect();
            sp.push(format!("stats/{pi}/{n}"), move |t| {
                let recs = recs_of(&kinds, false, 0);
                let x = build::<2>(&recs, &["A", "B"], &[R, D]);
                stats(t, &x, &recs)?;
                if kinds.iter().all(|k| RK1.contains(k)) {
                    stats(t, &build::<1>(&recs, &["A", "B"], &[R, D]), &recs)?;
                }
                for active in 6..=9 {
                    nees(t, &recs, active)?;
                }
                Ok(())
            });
        }
    }
    // Merging
    let ch = chains(3, tier.pick(4, 5));
    for a in &ch {
        let a = a.clone();
        let all = ch.clone();
        sp.push(format!("merge/{a:?}"), move |t| {
            for b in &all {
                merge_case(t, &a, b).map_err(|e| format!("with {b:?}: {e}"))?;
            }
            Ok(())
        });
    }
    if tier.thorough() {
        let long = chains(5, 4);
        for a in long.iter().filter(|x| x.len() > 3) {
            let a = a.clone();
            let all = long.clone();
            sp.push(format!("merge/{a:?}"), move |t| {
                for b in &all {
                    merge_case(t, &a, b).map_err(|e| format!("with {b:?}: {e}"))?;
                }
                Ok(())
            });
        }
    }
    // Equality
    for kinds in sequences(6, 1, 2) {
        for smoothed in [false, true] {
            for what in 0..10 {
                let kinds = kinds.clone();
                sp.push(format!("eq/{}/{smoothed}/{what}", kinds.iter().map(|k| k.to_string()).collect::<String>()), move |t| eq_case(t, &recs_of(&kinds, smoothed, 0), what));
            }
        }
    }
    // Storage
    let wins: Vec<(Option<f64>, Option<f64>)> = vec![(None, None), (Some(0.125), None), (Some(1.0), None), (None, Some(60.125)), (Some(60.125), Some(60.125)), (Some(1000.0), None), (Some(30.0), Some(150.0))];
    for kinds in lists.iter().filter(|l| l.len() <= tier.pick(2, 3)).chain([vec![4, 0, 5, 1, 2, 3], vec![0, 1, 1, 3, 2, 0]].iter()) {
        for smoothed in [false, true] {
            for (wi, w) in wins.iter().enumerate() {
                for (oi, order) in [vec![R, D], vec![D, R], vec![R]].into_iter().enumerate() {
                    if oi == 1 && kinds.iter().any(|k| *k > 3) {
                        continue; // records list their types in the order of the solution
                    }
                    if oi == 2 && kinds.iter().any(|k| RK[*k].msr.is_some_and(|m| m.1.contains(&D))) {
                        continue;
                    }
                    if !tier.thorough() && wi > 0 && kinds.len() == 2 && (oi > 0 || smoothed) {
                        continue;
                    }
                    let kinds = kinds.clone();
                    let w = *w;
                    let ks: String = kinds.iter().map(|k| k.to_string()).collect();
                    let one = kinds.iter().all(|k| RK1.contains(k)) && oi != 1;
                    sp.push(format!("store/{ks}/{smoothed}/{wi}/{oi}"), move |t| {
                        let recs = recs_of(&kinds, smoothed, 0);
                        pq::<2>(t, &recs, &order, w, &format!("p{ks}{smoothed}{wi}{oi}m2"))?;
                        if one {
                            pq::<1>(t, &recs, &order, w, &format!("p{ks}{smoothed}{wi}{oi}m1"))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // Long ones: a file is read in batches.
    for n in tier.pick(vec![1024usize, 1025], vec![1023, 1024, 1025, 2049]) {
        for smoothed in [false, true] {
            sp.push(format!("store-long/{n}/{smoothed}"), move |t| {
                let kinds: Vec<usize> = (0..n).map(|k| [4, 0, 5, 1, 2, 3, 0][k % 7]).collect();
                let mut recs = recs_of(&kinds, smoothed, 0);
                recs.iter_mut().for_each(|r| r.id = r.id % 200 + 1);
                pq::<2>(t, &recs, &[R, D], (None, None), &format!("long{n}{smoothed}"))
            });
        }
    }
    for o in 0..(2 + ORBITS.len()) {
        if o == 0 {
            for how in ["torn", "drop", "retype", "int", "null"] {
                sp.push(format!("damaged/{how}"), move |t| {
                    let p = scratch_dir(&format!("soldmg-{how}")).join("a.parquet");
                    build::<2>(&recs_of(&[0, 1, 2, 4], false, 0), &["A", "B"], &[R, D]).to_parquet(&p, ExportCfg::default()).map_err(|e| e.to_string())?;
                    let load = |p: &std::path::Path| Sol::<2>::from_parquet(p, devs(&["A", "B"])).is_ok();
                    t.ensure(load(&p), || "the file as written is not loaded".into())?;
                    if how == "torn" {
                        return crate::traj::torn(t, &p, tier.pick(37, 5), &load);
                    }
                    for c in crate::traj::columns_of(&p)? {
                        let q = p.with_extension("bad");
                        crate::traj::damage_column(&p, &q, &c, how)?;
                        t.step();
                        let ok = load(&q);
                        if how != "null" && (c == "Epoch (UTC)" || c.starts_with("X (km)") || c.starts_with("VZ (km/s)")) {
                            t.ensure(!ok, || format!("loaded although {c} is damaged ({how})"))?;
                        }
                        t.see(&(c, ok));
                    }
                    Ok(())
                });
            }
        }
        sp.push(format!("store-orbit/{o}"), move |t| pq::<2>(t, &recs_of(&[0, 1, 2, 4], false, o), &[R, D], (None, None), &format!("o{o}")));
    }
    sp
}

// ---------------------------------------------------------------- C19

use nyx_space::dynamics::SpacecraftDynamics;
use nyx_space::od::kalman::KalmanVariant;
use nyx_space::od::prelude::KalmanODProcess;
use nyx_space::od::prelude::TrackingDevice;
use nyx_space::od::process::SigmaRejection;

/// State transition of the two-body problem by differences, from a state over a time.
fn stm_fd(r: Vector3<f64>, v: Vector3<f64>, dt: f64) -> SMatrix<f64, 6, 6> {
    let mut m = SMatrix::<f64, 6, 6>::identity();
    if dt == 0.0 {
        return m;
    }
    for j in 0..3 {
        let six = |a: (Vector3<f64>, Vector3<f64>)| [a.0.x, a.0.y, a.0.z, a.1.x, a.1.y, a.1.z];
        let c = fd8(|x| six(kepler(MU, x, v, dt)), r, j, 2.0);
        let d = fd8(|x| six(kepler(MU, r, x, dt)), v, j, 2e-3);
        for i in 0..6 {
            m[(i, j)] = c[i];
            m[(i, j + 3)] = d[i];
        }
    }
    m
}

#[derive(Clone)]
struct SmCase {
    ekf: bool,
    rej: Option<f64>,
    max_step: f64,
    types: Vec<MeasurementType>,
    state: bool,
}

fn smooth_case<const M: usize>(t: &mut Tally, c: &SmCase, kinds: &[Kind], gaps: &[f64]) -> Result<(), String> {
    let arc = od_arc(kinds, gaps, &c.types, None);
    let mut dvs = devices(&c.types);
    let variant = if c.ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
    let mut odp = KalmanODProcess::<SpacecraftDynamics, Const<M>, Const<3>, Dev>::new(od_prop(None), variant, c.rej.map(|k| SigmaRejection { num_sigmas: k }), dvs.clone(), almanac());
    odp.max_step = s(c.max_step);
    let f = odp.process_arc(od_est_at(od_prior(), 0.0), &arc).map_err(|e| format!("process_arc: {e}"))?;
    let n = f.estimates.len();
    let x = f.clone().smooth(&almanac()).map_err(|e| format!("smooth: {e}"))?;
    t.step();
    t.ensure(x.estimates.len() == n && x.residuals.len() == n && x.gains.len() == n && x.filter_smoother_ratios.len() == n, || {
        format!("{n} estimates smoothed to {} with {} residuals, {} gains, {} ratios", x.estimates.len(), x.residuals.len(), x.gains.len(), x.filter_smoother_ratios.len())
    })?;
    t.ensure(x.gains.iter().all(|g| g.is_none()) && !x.is_filter_run(), || "gains after smoothing".into())?;
    t.ensure(x.is_smoother_run() == (n > 1), || "is_smoother_run".into())?;
    t.ensure(x.devices == f.devices && x.measurement_types == f.measurement_types, || "devices".into())?;
    let last = &f.estimates[n - 1];
    let el = last.epoch();
    // Where the last estimate is linearised: its reference.
    let lin = if c.ekf { last.state().orbit } else { last.nominal_state.orbit };
    for k in 0..n {
        let (e, g) = (&x.estimates[k], &f.estimates[k]);
        t.ensure(e.epoch() == g.epoch() && e.nominal_state.orbit == g.nominal_state.orbit, || format!("estimate {k} is at {} instead of {}", e.epoch(), g.epoch()))?;
        let dt = (e.epoch() - el).to_seconds();
        let ph = stm_fd(lin.radius_km, lin.velocity_km_s, dt);
        let mut p9 = M9::identity();
        p9.fixed_view_mut::<6, 6>(0, 0).copy_from(&ph);
        let want_p = p9 * last.covar * p9.transpose();
        let tol = if c.ekf { 1e-3 } else { 1e-5 };
        let sg: Vec<f64> = (0..6).map(|i| want_p[(i, i)].sqrt()).collect();
        for i in 0..6 {
            for j in 0..6 {
                t.close(&format!("smoothed covariance {k} ({i},{j})"), e.covar[(i, j)], want_p[(i, j)], tol * sg[i] * sg[j] * 10.0)?;
            }
        }
        if !c.ekf {
            let d6 = ph * last.state_deviation.fixed_rows::<6>(0);
            for i in 0..6 {
                t.close(&format!("smoothed deviation {k} ({i})"), e.state_deviation[i], d6[i], 1e-4 * sg[i] + 1e-7 * d6[i].abs())?;
            }
        } else if c.state {
            let (r, v) = kepler(MU, last.state().orbit.radius_km, last.state().orbit.velocity_km_s, dt);
            let st = e.state().orbit;
            t.close(&format!("smoothed position {k}"), (st.radius_km - r).norm(), 0.0, 2e-3)?;
            t.close(&format!("smoothed velocity {k}"), (st.velocity_km_s - v).norm(), 0.0, 2e-5)?;
        }
        // The smoothed uncertainty is never worse than the filter's.
        let (tr_s, tr_f) = (e.covar.fixed_view::<3, 3>(0, 0).trace(), g.covar.fixed_view::<3, 3>(0, 0).trace());
        t.ensure(tr_s <= tr_f * (1.0 + 1e-3), || format!("smoothed position variance {tr_s} above the filter's {tr_f} at {k}"))?;
        t.see_f(&[e.state_deviation[0], e.covar[(0, 0)], e.covar[(3, 3)] * 1e6]);
        // Residuals: those of the filter, with observations computed from the smoothed state.
        match (&x.residuals[k], &f.residuals[k]) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                t.ensure(a.epoch == b.epoch && a.tracker == b.tracker && a.msr_types == b.msr_types && a.rejected == b.rejected, || {
                    format!("residual {k} is of {:?} {:?} at {} instead of {:?} {:?} at {}", a.tracker, a.msr_types, a.epoch, b.tracker, b.msr_types, b.epoch)
                })?;
                t.ensure(a.real_obs == b.real_obs && a.prefit == b.prefit && a.ratio == b.ratio, || format!("prefit of residual {k} changed"))?;
                if k + 1 < n {
                    let d = dvs.get_mut(a.tracker.as_ref().unwrap()).unwrap();
                    let m = d.measure_instantaneous(e.state(), None, &almanac()).map_err(|e| e.to_string())?.ok_or("not visible")?;
                    for (i, ty) in a.msr_types.iter().enumerate() {
                        let w = m.data[ty] + bias_of(a.tracker.as_ref().unwrap(), *ty, (e.epoch() - t0()).to_seconds());
                        t.close(&format!("computed observation {k} {ty:?}"), a.computed_obs[i], w, 1e-9 * w.abs().max(1.0))?;
                        t.close(&format!("postfit {k} {ty:?}"), a.postfit[i], b.real_obs[i] - w, 1e-9 * w.abs().max(1.0))?;
                    }
                }
            }
            (a, b) => return Err(format!("residual {k}: {} instead of {}", a.is_some(), b.is_some())),
        }
        // Filter-smoother consistency.
        if k + 1 == n {
            t.ensure(x.filter_smoother_ratios[k].is_none(), || "ratio of the last estimate".into())?;
        } else {
            let q = x.filter_smoother_ratios[k].ok_or("no ratio")?;
            let (a, b) = (g.state().to_state_vector(), e.state().to_state_vector());
            for i in 0..6 {
                let dv = g.covar[(i, i)] - e.covar[(i, i)];
                if dv > 1e-6 * g.covar[(i, i)] {
                    let w = (a[i] - b[i]).abs() / dv.sqrt();
                    t.close(&format!("filter-smoother ratio {k} ({i})"), q[i].abs(), w, 1e-5 * (1.0 + w))?;
                }
            }
        }
    }
    Ok(())
}

pub fn c19(tier: Tier) -> Space {
    let mut sp = Space::new("every arc over an alphabet of measurements up to the depth, with several spacings, filter variants, sizes and rejection");
    let depth = tier.pick(4, 5);
    let ks = [Kind::A, Kind::B, Kind::Outlier, Kind::Part, Kind::Hidden];
    let gaps: &[&[f64]] = tier.pick(&[&[30.0, 75.5], &[0.0, 60.0]], &[&[30.0, 75.5], &[0.0, 60.0], &[200.0], &[10.0, 10.0, 600.0]]);
    for seq in sequences(ks.len(), 2, depth) {
        let kinds: Vec<Kind> = seq.iter().map(|i| ks[*i]).collect();
        if kinds.iter().all(|k| matches!(k, Kind::Hidden)) {
            continue;
        }
        for (gi, g) in gaps.iter().enumerate() {
            for ekf in [false, true] {
                for (ri, rej) in [None, Some(3.0)].into_iter().enumerate() {
                    if rej.is_none() && kinds.contains(&Kind::Outlier) {
                        continue; // far outside of the linear regime
                    }
                    for m in [1, 2] {
                        if !tier.thorough() && (gi + ri + m) % 2 == 1 && seq.len() > 2 {
                            continue;
                        }
                        for (si, max_step) in tier.pick(vec![60.0], vec![60.0, 1000.0]).into_iter().enumerate() {
                            let kinds = kinds.clone();
                            let c = SmCase { ekf, rej, max_step, types: vec![R, D], state: false };
                            let name = format!("{}/{}/g{gi}/r{ri}/m{m}/s{si}", if ekf { "ekf" } else { "ckf" }, seq.iter().map(|k| k.to_string()).collect::<String>());
                            sp.push(name, move |t| if m == 1 { smooth_case::<1>(t, &c, &kinds, g) } else { smooth_case::<2>(t, &c, &kinds, g) });
                        }
                    }
                }
            }
        }
    }
    for (gi, g) in gaps.iter().enumerate() {
        for len in 2..=4 {
            let kinds: Vec<Kind> = (0..len).map(|i| if i % 2 == 0 { Kind::A } else { Kind::B }).collect();
            sp.push(format!("ekf-state/{gi}/{len}"), move |t| smooth_case::<2>(t, &SmCase { ekf: true, rej: None, max_step: 60.0, types: vec![R, D], state: true }, &kinds, g));
        }
    }
    // Degenerate solutions
    sp.push("empty", move |t| {
        let x = Sol::<2>::new(devs(&["A"]), [R, D].into_iter().collect());
        t.step();
        t.ensure(x.smooth(&almanac()).is_err(), || "smoothed nothing".into())
    });
    for kind in 0..6 {
        sp.push(format!("single/{kind}"), move |t| {
            let recs = recs_of(&[kind], false, 0);
            let x = build::<2>(&recs, &["A", "B"], &[R, D]);
            let y = x.smooth(&almanac()).map_err(|e| e.to_string())?;
            t.step();
            t.ensure(y.estimates.len() == 1 && y.estimates[0] == recs[0].est(), || "the only estimate changed".into())?;
            t.ensure(y.gains == vec![None] && y.filter_smoother_ratios == vec![None], || "gain or ratio".into())
        });
    }
    sp
}
