//! C32: ground assets: their state, their motion, and their positioning from a transmitter in orbit.
use crate::core::*;
use crate::dev::{at, look, on_traj, site, spacecraft, to_fixed};
use crate::world::*;
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME, IAU_MOON_FRAME};
use anise::prelude::Frame;
use arrow::array::{Array, BooleanArray, Float64Array, StringArray};
use hifitime::{Epoch, TimeScale};
use nalgebra::{Const, DMatrix, DVector, SMatrix, SVector, U2, Vector3};
use nyx_space::State;
use nyx_space::io::ExportCfg;
use nyx_space::md::StateParameter;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::groundpnt::GroundAsset;
use nyx_space::od::groundpnt::ground_dynamics::GroundDynamics;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::kalman::KalmanVariant;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::TrackingDataArc;
use nyx_space::od::prelude::{KalmanODProcess, MeasurementType as M, ODSolution};
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::process::SigmaRejection;
use nyx_space::od::TrackingDevice;
use nyx_space::propagators::{IntegratorOptions, Propagator};
use nyx_space::Spacecraft;

type M6 = SMatrix<f64, 6, 6>;
type V6 = SVector<f64, 6>;
type Sol = ODSolution<GroundAsset, KfEstimate<GroundAsset>, U2, InterlinkTxSpacecraft>;

pub fn fixed() -> Frame {
    almanac().frame_info(IAU_EARTH_FRAME).unwrap()
}
fn x6(a: &GroundAsset) -> [f64; 6] {
    [a.latitude_deg, a.longitude_deg, a.height_km, a.latitude_rate_deg_s, a.longitude_rate_deg_s, a.height_rate_km_s]
}
pub fn asset(x: [f64; 6], ep: Epoch, frame: Frame) -> GroundAsset {
    GroundAsset {
        latitude_deg: x[0],
        longitude_deg: x[1],
        height_km: x[2],
        latitude_rate_deg_s: x[3],
        longitude_rate_deg_s: x[4],
        height_rate_km_s: x[5],
        epoch: ep,
        frame,
        stm: None,
    }
}
/// Body-fixed position and velocity of geodetic coordinates and rates.
fn pos_vel(x: &[f64; 6], a: f64, b: f64) -> (Vector3<f64>, Vector3<f64>) {
    let h = 5.0;
    let p = |n: f64| site(x[0] + n * x[3] * h, x[1] + n * x[4] * h, x[2] + n * x[5] * h, a, b).0;
    (p(0.0), (8.0 * (p(1.0) - p(-1.0)) - (p(2.0) - p(-2.0))) / (12.0 * h))
}

/// The trajectory of the transmitter, one hour from t0.
fn tx_traj(i: usize) -> Traj<Spacecraft> {
    let frame = almanac().frame_info(EARTH_J2000).unwrap();
    let mut tr = Traj::<Spacecraft>::new();
    for k in 0..=60 {
        let (r, v) = at(&zoo(i), k as f64 * 60.0);
        tr.states.push(spacecraft(r, v, t0() + s(k as f64 * 60.0), frame));
    }
    tr.finalize();
    tr.name = Some("pnt".into());
    tr
}
pub fn transmitter(i: usize, types: &[M], integration: Option<f64>) -> InterlinkTxSpacecraft {
    InterlinkTxSpacecraft {
        traj: tx_traj(i),
        measurement_types: types.iter().copied().collect(),
        integration_time: integration.map(s),
        timestamp_noise_s: None,
        stochastic_noises: Some(types.iter().map(|x| (*x, noise_of(*x))).collect()),
        ab_corr: None,
    }
}
fn noise_of(ty: M) -> StochasticNoise {
    StochasticNoise { white_noise: Some(WhiteNoise::constant_white_noise(if ty == M::Range { 5e-3 } else { 1e-5 })), bias: None }
}
fn sigma2(ty: M) -> f64 {
    noise_of(ty).covariance(t0())
}
/// Coordinates of an asset which sees the transmitter pass close to its zenith at `el` seconds.
pub fn under(i: usize, el: f64, dlat: f64, dlon: f64) -> [f64; 3] {
    let (r, _) = at(&zoo(i), el);
    let f = to_fixed(t0() + s(el)).0 * r;
    let lat = (f.z / f.norm()).asin().to_degrees();
    [(lat + dlat).clamp(-85.0, 85.0), f.y.atan2(f.x).to_degrees() + dlon, 0.3]
}
fn observe(tx: &InterlinkTxSpacecraft, x: &[f64; 6], ep: Epoch) -> Result<crate::dev::Look, String> {
    let (r, v) = on_traj(&tx.traj, ep)?;
    let (c, om) = to_fixed(ep);
    let rf = c * r;
    let vf = c * v - Vector3::new(0., 0., om).cross(&rf);
    Ok(look(&site(x[0], x[1], x[2], RE, RP), pos_vel(x, RE, RP).1, rf, vf))
}
pub fn moved(x: &[f64; 6], dt: f64) -> [f64; 6] {
    std::array::from_fn(|j| if j < 3 { x[j] + x[j + 3] * dt } else { x[j] })
}

const RATES: [(&str, [f64; 3]); 3] = [("still", [0.0; 3]), ("car", [2e-4, -3e-4, 0.0]), ("plane", [-1.1e-3, 1.7e-3, 2e-3])];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Both,
    Wild,
    OnlyFirst,
    OnlySecond,
    Flagged,
    Other,
}
const KINDS: [Kind; 6] = [Kind::Both, Kind::Wild, Kind::OnlyFirst, Kind::OnlySecond, Kind::Flagged, Kind::Other];

struct Setup {
    orbit: usize,
    ekf: bool,
    types: Vec<M>,
    rates: [f64; 3],
    rej: Option<f64>,
    gaps: &'static [f64],
    first: f64,
}

fn build_arc(c: &Setup, tx: &InterlinkTxSpacecraft, truth: &[f64; 6], kinds: &[Kind]) -> Result<TrackingDataArc, String> {
    let mut el = 0.0;
    let mut msrs = vec![];
    for (i, k) in kinds.iter().enumerate() {
        el += if i == 0 { c.first } else { c.gaps[i % c.gaps.len()] };
        let ep = t0() + s(el);
        let w = observe(tx, &moved(truth, el), ep)?;
        if w.el < 1.0 {
            return Err(format!("case: elevation {} at {el}", w.el));
        }
        let mut m = Measurement::new(if *k == Kind::Other { "nobody" } else { "GroundAsset" }.to_string(), ep);
        for (j, ty) in c.types.iter().enumerate() {
            if (*k == Kind::OnlyFirst && j == 1) || (*k == Kind::OnlySecond && j == 0) {
                continue;
            }
            let sg = sigma2(*ty).sqrt();
            let n = [0.4, -0.7, 0.2, 0.9, -0.3][(2 * i + j) % 5] * sg + if *k == Kind::Wild { sg * if c.rej.is_some() { 3e4 } else { 40.0 } } else { 0.0 };
            m.push(*ty, w.get(*ty) + n);
        }
        m.rejected = *k == Kind::Flagged;
        msrs.push(m);
    }
    Ok(TrackingDataArc { measurements: msrs, source: None, moduli: None, force_reject: false })
}

fn prior6() -> M6 {
    let sg = [2e-3, 3e-3, 0.05, 1e-6, 2e-6, 1e-5];
    let mut p = M6::from_fn(|i, j| if i == j { sg[i] * sg[i] } else { 0.0 });
    p[(0, 1)] = 0.3 * sg[0] * sg[1];
    p[(1, 0)] = p[(0, 1)];
    p[(2, 5)] = -0.2 * sg[2] * sg[5];
    p[(5, 2)] = p[(2, 5)];
    p
}
const ERR: [f64; 6] = [1e-3, -1.4e-3, 0.03, 4e-7, -6e-7, 3e-6];

fn start(c: &Setup) -> ([f64; 6], [f64; 6]) {
    let p = under(c.orbit, 600.0, 4.0, -7.0);
    let truth = [p[0], p[1], p[2], c.rates[0], c.rates[1], c.rates[2]];
    (truth, std::array::from_fn(|j| truth[j] + ERR[j]))
}

/// Runs the filter on the arc; each entry of its solution against a six-state reference filter.
fn filter<const N: usize>(t: &mut Tally, c: &Setup, kinds: &[Kind]) -> Result<Option<ODSolution<GroundAsset, KfEstimate<GroundAsset>, Const<N>, InterlinkTxSpacecraft>>, String> {
    let tx = transmitter(c.orbit, &c.types, None);
    let (truth, guess) = start(c);
    let arc = build_arc(c, &tx, &truth, kinds)?;
    let est0 = KfEstimate::from_covar(asset(guess, t0(), fixed()), prior6());
    let devices = [("GroundAsset".to_string(), tx.clone())].into_iter().collect();
    let odp = KalmanODProcess::<GroundDynamics, Const<N>, Const<3>, InterlinkTxSpacecraft>::new(
        Propagator::default(GroundDynamics {}),
        if c.ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking },
        c.rej.map(|k| SigmaRejection { num_sigmas: k }),
        devices,
        almanac(),
    );
    if arc.measurements.len() < 2 {
        t.ensure(odp.process_arc(est0, &arc).is_err(), || "an arc of one measurement is processed".into())?;
        return Ok(None);
    }
    let sol = odp.process_arc(est0, &arc).map_err(|e| format!("process_arc: {e}"))?;
    t.step();
    // The entries which must come out.
    let mut want: Vec<(f64, Option<(usize, Vec<M>)>)> = vec![];
    let mut el = 0.0f64;
    for (i, m) in arc.measurements.iter().enumerate() {
        let end = (m.epoch - t0()).to_seconds();
        loop {
            let next = (el + 60.0).min(end);
            el = next;
            if (next - end).abs() < 1e-6 {
                if m.rejected {
                    want.push((next, None));
                } else if m.tracker == "GroundAsset" {
                    for w in c.types.chunks(N) {
                        if w.iter().any(|ty| m.data.contains_key(ty)) {
                            want.push((next, Some((i, w.to_vec()))));
                        }
                    }
                }
                break;
            }
            want.push((next, None));
        }
    }
    t.ensure(sol.estimates.len() == want.len() && sol.residuals.len() == want.len() && sol.gains.len() == want.len(), || {
        format!("{} estimates instead of {}: {:?}", sol.estimates.len(), want.len(), sol.estimates.iter().map(|e| (e.epoch() - t0()).to_seconds()).collect::<Vec<_>>())
    })?;
    let (mut x, mut p, mut nom, mut el) = (V6::zeros(), prior6(), guess, 0.0);
    let mut most = V6::zeros();
    for (k, (e, w)) in sol.estimates.iter().zip(&want).enumerate() {
        t.step();
        t.close(&format!("epoch of estimate {k}"), (e.epoch() - t0()).to_seconds(), w.0, 1e-6)?;
        let dt = w.0 - el;
        el = w.0;
        nom = moved(&nom, dt);
        let mut phi = M6::identity();
        for j in 0..3 {
            phi[(j, j + 3)] = dt;
        }
        p = phi * p * phi.transpose();
        x = if c.ekf { V6::zeros() } else { phi * x };
        let g = x6(&e.nominal_state);
        let mut applied = V6::zeros();
        let mut rejected = false;
        match (&sol.residuals[k], &w.1) {
            (None, None) => t.ensure(sol.gains[k].is_none(), || format!("gain {k} of a time update"))?,
            (Some(res), Some((mi, tys))) => {
                let m = &arc.measurements[*mi];
                let av: Vec<usize> = (0..tys.len()).filter(|i| m.data.contains_key(&tys[*i])).collect();
                let ep = m.epoch;
                let q = av.len();
                let (mut h, mut r, mut z) = (DMatrix::zeros(q, 6), DMatrix::zeros(q, q), DVector::zeros(q));
                let y = observe(&tx, &nom, ep)?;
                for (a, i) in av.iter().enumerate() {
                    for j in 0..6 {
                        let st = [1e-3, 1e-3, 0.1, 1e-4, 1e-4, 1e-2][j];
                        let mut d = [0.0; 4];
                        for (o, n) in [1.0, -1.0, 2.0, -2.0].iter().enumerate() {
                            let mut v = nom;
                            v[j] += n * st;
                            d[o] = observe(&tx, &v, ep)?.get(tys[*i]);
                        }
                        h[(a, j)] = (8.0 * (d[0] - d[1]) - (d[2] - d[3])) / (12.0 * st);
                    }
                    r[(a, a)] = sigma2(tys[*i]);
                    z[a] = m.data[&tys[*i]] - y.get(tys[*i]);
                    t.close(&format!("prefit {k}"), res.prefit[*i], z[a], 2e-3 * r[(a, a)].sqrt() + 1e-6)?;
                    // Follow the same innovations, not the rounding of the geometry.
                    z[a] = res.prefit[*i];
                    t.close(&format!("computed {k}"), res.computed_obs[*i], y.get(tys[*i]), 2e-3 * r[(a, a)].sqrt() + 1e-6)?;
                    t.close(&format!("real {k}"), res.real_obs[*i], m.data[&tys[*i]], 1e-9)?;
                }
                t.ensure(res.tracker.as_deref() == Some("pnt"), || format!("tracker {:?}", res.tracker))?;
                let pb = DMatrix::from_iterator(6, 6, p.iter().copied());
                let sm = &h * &pb * h.transpose() + &r;
                let inv = sm.clone().try_inverse().ok_or("singular innovation")?;
                let gain = &pb * h.transpose() * &inv;
                let xb = DVector::from_iterator(6, x.iter().copied());
                let inn = &z - &h * &xb;
                rejected = res.rejected;
                let nis = (z.transpose() * &inv * &z)[(0, 0)];
                match c.rej {
                    None => t.ensure(!rejected, || format!("entry {k} rejected without a threshold"))?,
                    Some(lim) => {
                        let (lo, hi) = ((nis / N as f64).sqrt(), (nis / q as f64).sqrt());
                        t.ensure(if lo > 1.01 * lim { rejected } else { hi > 0.99 * lim || !rejected }, || format!("entry {k} rejected: {rejected} at {lo} sigmas"))?;
                    }
                }
                if !rejected {
                    let dx = &gain * inn;
                    applied = V6::from_iterator(dx.iter().copied());
                    let dp = &gain * &sm * gain.transpose();
                    p -= M6::from_iterator(dp.iter().copied());
                    x += applied;
                    let gk = sol.gains[k].as_ref().ok_or_else(|| format!("no gain {k}"))?;
                    for (a, i) in av.iter().enumerate() {
                        for j in 0..6 {
                            let sc = (pb[(j, j)].sqrt() / sm[(a, a)].sqrt()).abs();
                            t.close(&format!("gain {k} ({j}, {i})"), gk[(j, *i)], gain[(j, a)], 1e-4 * sc)?;
                        }
                    }
                }
            }
            (a, b) => return Err(format!("entry {k}: residual {} but expected {}", a.is_some(), b.is_some())),
        }
        for j in 0..6 {
            most[j] = most[j].max(applied[j].abs());
            let sc = p[(j, j)].sqrt().max(most[j]) + 1e-12;
            t.close(&format!("nominal {j} of {k}"), g[j], nom[j], 1e-3 * sc)?;
            t.close(&format!("deviation {j} of {k}"), e.state_deviation[j], x[j], 1e-3 * sc)?;
            for i in 0..6 {
                let sc = (p[(i, i)] * p[(j, j)]).sqrt();
                t.close(&format!("covariance {i}, {j} of {k}"), e.covar[(i, j)], p[(i, j)], 1e-3 * sc + 1e-30)?;
            }
        }
        t.ensure(e.nominal_state.frame == fixed() && e.predicted == (w.1.is_none() || rejected), || format!("estimate {k}: {} predicted {}", e.nominal_state.frame, e.predicted))?;
        if c.ekf && w.1.is_some() && !rejected {
            for j in 0..6 {
                nom[j] += applied[j];
            }
        }
    }
    t.see_f(p.as_slice());
    Ok(Some(sol))
}

/// The file of a solution holds exactly the entries within the window.
fn export(t: &mut Tally, sol: &Sol, lo: Option<f64>, hi: Option<f64>, name: &str) -> Result<(), String> {
    let cfg = ExportCfg { start_epoch: lo.map(|x| t0() + s(x)), end_epoch: hi.map(|x| t0() + s(x)), ..Default::default() };
    let path = scratch(&format!("c32-{name}.pq"));
    let kept: Vec<usize> = (0..sol.estimates.len())
        .filter(|k| {
            let e = sol.estimates[*k].epoch();
            lo.is_none_or(|x| e >= t0() + s(x)) && hi.is_none_or(|x| e <= t0() + s(x))
        })
        .collect();
    let r = sol.to_parquet(&path, cfg);
    t.step();
    if kept.is_empty() && r.is_err() {
        return Ok(());
    }
    let p = r.map_err(|e| format!("export: {e}"))?;
    let f = std::fs::File::open(&p).map_err(|e| e.to_string())?;
    let rd = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(f).map_err(|e| e.to_string())?.build().map_err(|e| e.to_string())?;
    let mut cols: std::collections::BTreeMap<String, Vec<Option<f64>>> = Default::default();
    let mut text: std::collections::BTreeMap<String, Vec<Option<String>>> = Default::default();
    for b in rd {
        let b = b.map_err(|e| e.to_string())?;
        for (f, c) in b.schema().fields().iter().zip(b.columns()) {
            if let Some(a) = c.as_any().downcast_ref::<Float64Array>() {
                cols.entry(f.name().clone()).or_default().extend((0..a.len()).map(|i| (!a.is_null(i)).then(|| a.value(i))));
            } else if let Some(a) = c.as_any().downcast_ref::<StringArray>() {
                text.entry(f.name().clone()).or_default().extend((0..a.len()).map(|i| (!a.is_null(i)).then(|| a.value(i).to_string())));
            } else if let Some(a) = c.as_any().downcast_ref::<BooleanArray>() {
                cols.entry(f.name().clone()).or_default().extend((0..a.len()).map(|i| (!a.is_null(i)).then(|| a.value(i) as u8 as f64)));
            }
        }
    }
    let _ = std::fs::remove_file(&p);
    if kept.is_empty() {
        return Ok(());
    }
    let find = |pat: &str| -> Result<&Vec<Option<f64>>, String> {
        let v: Vec<_> = cols.iter().filter(|(k, _)| k.starts_with(pat)).collect();
        if v.len() != 1 {
            return Err(format!("{} columns named {pat}*: {:?}", v.len(), cols.keys()));
        }
        Ok(v[0].1)
    };
    let ep = &text["Epoch (UTC)"];
    t.ensure(ep.len() == kept.len(), || format!("{} rows instead of {}", ep.len(), kept.len()))?;
    let trk = &text["Tracker"];
    for (row, k) in kept.iter().enumerate() {
        let e = &sol.estimates[*k];
        let want = e.epoch().to_time_scale(TimeScale::UTC).to_isoformat();
        t.ensure(ep[row].as_deref() == Some(&want), || format!("row {row}: {:?} instead of {want}", ep[row]))?;
        let mut eq = |pat: String, want: Option<f64>| -> Result<(), String> {
            let got = find(&pat)?.get(row).copied().ok_or_else(|| format!("{pat}: no row {row}"))?;
            t.ensure(got.map(f64::to_bits) == want.map(f64::to_bits), || format!("{pat} of row {row}: {got:?} instead of {want:?}"))
        };
        let x = x6(&e.state());
        for (j, n) in ["Latitude (", "Longitude (", "Height ("].iter().enumerate() {
            eq(n.to_string(), Some(x[j]))?;
        }
        let names = ["Latitude", "Longitude", "Altitude"];
        for (i, n) in ["Sigma Latitude", "Sigma Longitude", "Sigma Height"].iter().enumerate() {
            eq(n.to_string(), Some(e.covar[(i, i)].sqrt()))?;
            for j in i..3 {
                eq(format!("Covariance {}*{}", names[i], names[j]), Some(e.covar[(i, j)]))?;
            }
        }
        let res = &sol.residuals[*k];
        for ty in sol.measurement_types.iter() {
            eq(format!("Prefit residual: {ty:?}"), res.as_ref().and_then(|r| r.prefit(*ty)))?;
            eq(format!("Postfit residual: {ty:?}"), res.as_ref().and_then(|r| r.postfit(*ty)))?;
            eq(format!("Measurement noise: {ty:?}"), res.as_ref().and_then(|r| r.trk_noise(*ty)))?;
            eq(format!("Real observation: {ty:?}"), res.as_ref().and_then(|r| r.real_obs(*ty)))?;
            eq(format!("Computed observation: {ty:?}"), res.as_ref().and_then(|r| r.computed_obs(*ty)))?;
        }
        eq("Residual ratio".into(), res.as_ref().map(|r| r.ratio))?;
        eq("Residual Rejected".into(), res.as_ref().map(|r| r.rejected as u8 as f64))?;
        for (i, n) in names.iter().enumerate() {
            for (j, ty) in sol.measurement_types.iter().enumerate() {
                eq(format!("Gain {n}*{ty:?}"), sol.gains[*k].as_ref().map(|g| g[(i, j)]))?;
            }
            eq(format!("Filter-smoother ratio {n}"), sol.filter_smoother_ratios[*k].as_ref().map(|g| g[i]))?;
        }
        t.ensure(trk[row] == res.as_ref().and_then(|r| r.tracker.clone()), || format!("tracker {:?}", trk[row]))?;
    }
    t.see(&kept);
    Ok(())
}

pub fn c32(tier: Tier) -> Space {
    let mut sp = Space::new(
        "ground assets: every component of the state through every accessor; grids of sites, rates and bodies for velocity, Jacobian and distance; every arc over six kinds of measurement up to length 3 (thorough: 4) x filter variant x order of types x window size x rejection against a six-state reference filter; every export window",
    );
    let sites = [[0.0, 0.0, 0.0], [38.2, -121.5, 1.2], [-71.0, 179.9, 0.05], [12.0, 359.0, -0.4], [85.0, -179.9, 9.0]];
    for (si, x) in sites.into_iter().enumerate() {
        for (rn, rate) in RATES {
            for moon in [false, true] {
                sp.push(format!("state/{si}/{rn}/{}", if moon { "moon" } else { "earth" }), move |t| {
                    let alm = almanac();
                    let (frame, a, b) = if moon { (alm.frame_info(IAU_MOON_FRAME).unwrap(), 1737.4, 1737.4) } else { (fixed(), RE, RP) };
                    let full = [x[0], x[1], x[2], rate[0], rate[1], rate[2]];
                    let g = asset(full, t0() + s(3.0), frame);
                    // Vector, set and add, with and without a transition matrix.
                    let v = g.to_vector();
                    for j in 0..42 {
                        t.ensure(v[j] == if j < 6 { full[j] } else { 0.0 }, || format!("vector {j}: {}", v[j]))?;
                    }
                    let mut w = g.with_stm().to_vector();
                    for j in 0..42 {
                        let want = if j < 6 { full[j] } else if (j - 6) % 7 == 0 { 1.0 } else { 0.0 };
                        t.ensure(w[j] == want, || format!("vector with STM {j}: {}", w[j]))?;
                        w[j] = 0.25 * j as f64 - 3.0;
                    }
                    for stm in [false, true] {
                        let mut h = if stm { g.with_stm() } else { g };
                        h.set(t0() + s(77.0), &w);
                        for (j, y) in x6(&h).iter().enumerate() {
                            t.ensure(*y == w[j], || format!("set {j}: {y}"))?;
                        }
                        t.ensure(h.epoch == t0() + s(77.0) && h.frame == frame && h.stm.is_some() == stm && h.stm().is_ok() == stm, || format!("set: {h:?}"))?;
                        if stm {
                            let m = h.stm().map_err(|e| e.to_string())?;
                            for j in 0..36 {
                                t.ensure(m.as_slice()[j] == w[6 + j], || format!("set STM {j}"))?;
                            }
                            h.reset_stm();
                            t.ensure(h.stm().map_err(|e| e.to_string())? == M6::identity(), || "reset_stm".into())?;
                            h.unset_stm();
                            t.ensure(h.stm.is_none(), || "unset_stm".into())?;
                        }
                    }
                    for j in 0..6 {
                        let mut d = V6::zeros();
                        d[j] = 0.03125;
                        for k in [x6(&(g + d)), x6(&State::add(g, d))] {
                            for i in 0..6 {
                                t.close("add", k[i], full[i] + d[i], 1e-12)?;
                            }
                        }
                    }
                    use anise::analysis::prelude::OrbitalElement as E;
                    for (e, j) in [(E::Latitude, 0), (E::Longitude, 1), (E::Height, 2)] {
                        t.ensure(g.value(StateParameter::Element(e)).ok() == Some(full[j]), || format!("{e:?}"))?;
                    }
                    t.ensure(g.value(StateParameter::Element(E::SemiMajorAxis)).is_err(), || "value of something else".into())?;
                    t.ensure(g.epoch() == t0() + s(3.0), || "epoch".into())?;
                    // Position, velocity and Jacobian.
                    let (r, vel) = pos_vel(&full, a, b);
                    let o = g.orbit();
                    t.close("position", (o.radius_km - r).norm(), 0.0, 1e-6)?;
                    let ax = site(x[0], x[1], x[2], a, b).1;
                    let sez = g.velocity_sez_m_s().map_err(|e| e.to_string())?;
                    let loc = g.to_location();
                    t.ensure(
                        loc.latitude_deg == g.latitude_deg && loc.longitude_deg == g.longitude_deg && loc.height_km == g.height_km && Frame::from(loc.frame).orient_origin_match(g.frame) && Frame::from(loc.frame).ephem_origin_match(g.frame),
                        || format!("{loc:?} of {g}"),
                    )?;
                    for j in 0..3 {
                        t.close("velocity SEZ", sez[j], vel.dot(&ax[j]) * 1e3, 1e-3)?;
                    }
                    let again = GroundAsset::from_fixed(x[0], x[1], x[2], g.epoch, frame).with_velocity_sez_m_s(sez[0], sez[1], sez[2]).map_err(|e| e.to_string())?;
                    for (j, y) in x6(&again).iter().enumerate() {
                        t.close(&format!("rates from the velocity {j}"), *y, full[j], 1e-9)?;
                    }
                    let jac = g.geodetic_to_cartesian_jacobian().map_err(|e| e.to_string())?;
                    for j in 0..6 {
                        let st = [1e-2, 1e-2, 1.0, 1e-2, 1e-2, 1.0][j];
                        let at = |n: f64| {
                            let mut y = full;
                            y[j] += n * st;
                            let (p, v) = pos_vel(&y, a, b);
                            [p.x, p.y, p.z, v.x, v.y, v.z]
                        };
                        let (p1, m1, p2, m2) = (at(1.0), at(-1.0), at(2.0), at(-2.0));
                        for i in 0..6 {
                            let want = (8.0 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / (12.0 * st);
                            t.close(&format!("Jacobian {i}, {j}"), jac[(i, j)], want, if [0, 1, 3, 4].contains(&j) { 2e-4 } else { 2e-6 })?;
                        }
                    }
                    t.see_f(&full);
                    Ok(())
                });
            }
            // Trajectories of the asset are straight in its coordinates.
            for dt in [-5400.0, 40.0, 3600.0] {
                sp.push(format!("traj/{si}/{rn}/{dt}"), move |t| {
                    let full = [x[0], x[1], x[2], rate[0], rate[1], rate[2]];
                    let prop = Propagator::rk89(GroundDynamics {}, IntegratorOptions::with_max_step(s(60.0)));
                    let (end, tr) = prop.with(asset(full, t0(), fixed()), almanac()).for_duration_with_traj(s(dt)).map_err(|e| e.to_string())?;
                    t.ensure(end.epoch == t0() + s(dt), || "end".into())?;
                    for k in 0..=40 {
                        let el = dt * k as f64 / 40.0;
                        let g = tr.at(t0() + s(el)).map_err(|e| format!("at {el}: {e}"))?;
                        t.step();
                        let want = moved(&full, el);
                        for (j, y) in x6(&g).iter().enumerate() {
                            t.close(&format!("coordinate {j} at {el}"), *y, want[j], if j < 3 { 1e-6 } else { 1e-8 })?;
                        }
                        t.ensure(g.epoch == t0() + s(el) && g.frame == fixed(), || format!("{g:?}"))?;
                    }
                    for el in [dt.min(0.0) - 1e-6, dt.max(0.0) + 1e-6] {
                        t.ensure(tr.at(t0() + s(el)).is_err(), || format!("state {el} s outside"))?;
                    }
                    Ok(())
                });
            }
        }
    }
    // Great circles.
    let pts: Vec<[f64; 2]> = [-90.0, -60.0, -1e-3, 0.0, 45.0, 89.9, 90.0].iter().flat_map(|la| [-180.0, -90.5, 0.0, 1e-4, 179.9, 180.0, 275.0].map(|lo| [*la, lo])).collect();
    for (i, p) in pts.iter().copied().enumerate() {
        let pts = pts.clone();
        sp.push(format!("distance/{i}"), move |t| {
            let dir = |p: [f64; 2]| site(p[0], p[1], 0.0, 1.0, 1.0).0;
            let of = |p: [f64; 2], h: f64| asset([p[0], p[1], h, 0.0, 0.0, 0.0], t0(), fixed());
            for q in &pts {
                let (a, b) = (dir(p), dir(*q));
                let want = RE * a.cross(&b).norm().atan2(a.dot(&b));
                let got = of(p, 3.0).great_circle_distance_km(&of(*q, -1.0)).map_err(|e| e.to_string())?;
                t.step();
                t.close(&format!("{p:?} to {q:?}"), got, want, 2e-4)?;
                t.see_f(&[got]);
            }
            Ok(())
        });
    }
    // Measurements over an integration time are the mean of both ends.
    for (oi, it) in product(&[ORBITS.len(), 3]).into_iter().map(|v| (v[0], [10.0, 61.0, 0.5][v[1]])) {
        for (rn, rate) in RATES {
            sp.push(format!("integrated/{}/{it}/{rn}", ORBITS[oi].0), move |t| {
                let mut tx = transmitter(oi, &[M::Doppler, M::Range], Some(it));
                let p = under(oi, 1500.0, 8.0, 5.0);
                let x = [p[0], p[1], p[2], rate[0], rate[1], rate[2]];
                let mut tr = Traj::<GroundAsset>::new();
                for k in 0..=30 {
                    tr.states.push(asset(moved(&x, k as f64 * 100.0), t0() + s(k as f64 * 100.0), fixed()));
                }
                tr.finalize();
                let alm = almanac();
                for k in 0..tier.pick(60, 240) {
                    let el = -20.0 + k as f64 * 3040.0 / tier.pick(60.0, 240.0);
                    let ep = t0() + s(el);
                    let got = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure(&mut tx, ep, &tr, None, &alm);
                    t.step();
                    if el - it < 0.0 || el > 3000.0 {
                        t.ensure(!matches!(got, Ok(Some(_))), || format!("measurement at {el} s, outside of the trajectory"))?;
                        continue;
                    }
                    let on = |e: Epoch| tr.at(e).map(|a| x6(&a)).map_err(|e| e.to_string());
                    for (a, b) in on(ep)?.iter().zip(&moved(&x, el)) {
                        t.close("interpolated asset", *a, *b, 1e-6)?;
                    }
                    let (w0, w1) = (observe(&tx, &on(ep - s(it))?, ep - s(it))?, observe(&tx, &on(ep)?, ep)?);
                    if w0.el.abs() < 1e-4 || w1.el.abs() < 1e-4 {
                        continue;
                    }
                    let seen = w0.el > 0.0 && w1.el > 0.0;
                    let got = got.map_err(|e| e.to_string())?;
                    t.ensure(got.is_some() == seen, || format!("at {el} s: {got:?} at elevations {} and {}", w0.el, w1.el))?;
                    t.see(&seen);
                    if let Some(m) = got {
                        t.ensure(m.epoch == ep && m.data.len() == 2 && m.tracker == "GroundAsset", || format!("{m:?}"))?;
                        t.close("range", m.data[&M::Range], 0.5 * (w0.rho + w1.rho), 2e-6)?;
                        t.close("Doppler", m.data[&M::Doppler], 0.5 * (w0.rate + w1.rate), 3e-7)?;
                    }
                }
                Ok(())
            });
        }
    }
    // Filtering.
    let setups = |ekf: bool, ty: usize, rate: usize, rej: usize, gaps: usize, orbit: usize| Setup {
        orbit,
        ekf,
        types: if ty == 0 { vec![M::Range, M::Doppler] } else { vec![M::Doppler, M::Range] },
        rates: RATES[rate].1,
        rej: [None, Some(5.0)][rej],
        gaps: [&[60.0, 25.0][..], &[130.5, 0.25][..]][gaps],
        first: [60.0, 0.0][gaps],
    };
    for kinds in sequences(KINDS.len(), 1, tier.pick(2, 3)) {
        for v in product(&[2, 2, 3, 2, 2, 2, 2]) {
            if !tier.thorough() && v[2] == 1 {
                continue;
            }
            // An arc made of one kind only must hold two types for the filter to know both of them; always end with a whole one.
            let mut ks: Vec<Kind> = kinds.iter().map(|k| KINDS[*k]).collect();
            ks.push(Kind::Both);
            let oi = [1, 3][v[5]];
            sp.push(format!("filter/{}/{}/{}/{}/{}/{}/{}/{ks:?}", v[0], v[1], RATES[v[2]].0, v[3], v[4], ORBITS[oi].0, v[6] + 1), move |t| {
                let c = setups(v[0] == 1, v[1], v[2], v[3], v[4], oi);
                if v[6] == 0 { filter::<1>(t, &c, &ks).map(|_| ()) } else { filter::<2>(t, &c, &ks).map(|_| ()) }
            });
        }
    }
    for (ki, ks) in [vec![Kind::Both, Kind::Both, Kind::Both], vec![Kind::OnlyFirst, Kind::Flagged, Kind::Both], vec![Kind::Wild, Kind::OnlySecond, Kind::Both]].into_iter().enumerate() {
        for v in product(&[2, 2, 2]) {
            for (wi, (lo, hi)) in [(None, None), (Some(0.0), None), (Some(60.0), Some(85.0)), (None, Some(60.0)), (Some(61.0), Some(1e4)), (Some(-50.0), Some(130.0)), (Some(4e3), Some(5e3)), (Some(70.0), Some(60.0))].into_iter().enumerate() {
                let (ks, v) = (ks.clone(), v.clone());
                sp.push(format!("export/{ki}/{v:?}/{wi}"), move |t| {
                    let c = setups(v[0] == 1, v[1], 1, 1, v[2], 1);
                    let sol = filter::<2>(t, &c, &ks)?.ok_or("no solution")?;
                    export(t, &sol, lo, hi, &format!("{ki}-{}{}{}-{wi}", v[0], v[1], v[2]))
                });
            }
        }
    }
    // Many good measurements bring the estimate to the truth.
    for v in product(&[2, 2, 3, 2]) {
        let oi = [1, 3][v[3]];
        sp.push(format!("recover/{}/{}/{}/{}", v[0], v[1], RATES[v[2]].0, ORBITS[oi].0), move |t| {
            let mut c = setups(v[0] == 1, v[1], v[2], 0, 0, oi);
            c.gaps = &[15.0];
            let sol = filter::<2>(t, &c, &[Kind::Both; 60])?.ok_or("no solution")?;
            let (truth, _) = start(&c);
            let e = sol.estimates.last().unwrap();
            let el = (e.epoch() - t0()).to_seconds();
            let (was, is) = (prior6().fixed_view::<3, 3>(0, 0).determinant(), e.covar.fixed_view::<3, 3>(0, 0).determinant());
            t.ensure(is < 0.02 * was, || format!("the uncertainty went from {was:e} to {is:e}"))?;
            for (j, (a, b)) in x6(&e.state()).iter().zip(&moved(&truth, el)).enumerate() {
                t.ensure((a - b).abs() <= 6.0 * e.covar[(j, j)].sqrt(), || format!("component {j}: {a} for {b}, sigma {}", e.covar[(j, j)].sqrt()))?;
            }
            Ok(())
        });
    }
    sp
}
