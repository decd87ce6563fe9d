//! C14..: orbit determination.
use crate::core::*;
use crate::world::*;
use hifitime::{Duration, Epoch};
use nalgebra::{Const, DMatrix, DVector, Matrix3, SMatrix, SVector, Vector3};
use nyx_space::State;
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::kalman::{KalmanFilter, KalmanVariant};
use nyx_space::od::process::SigmaRejection;
use nyx_space::od::snc::{ProcessNoise, ProcessNoise3D};
use nyx_space::Spacecraft;

pub type M9 = SMatrix<f64, 9, 9>;
pub type V9 = SVector<f64, 9>;

/// A process noise as the reference filter knows it.
#[derive(Clone, Debug)]
pub struct RefNoise {
    pub diag: [f64; 3],
    pub frame: u8, // 0 inertial (none), 1 RIC, 2 VNC
    pub start_s: Option<f64>,
    pub disable_s: f64,
    pub decay: Option<[f64; 3]>,
}

impl RefNoise {
    pub fn build(&self, t0: Epoch) -> ProcessNoise3D {
        use nyx_space::dynamics::guidance::LocalFrame;
        let lf = match self.frame {
            1 => Some(LocalFrame::RIC),
            2 => Some(LocalFrame::VNC),
            _ => None,
        };
        let mut n: ProcessNoise3D = match self.decay {
            Some(d) => ProcessNoise::with_decay(&self.diag, s(self.disable_s), &d, lf),
            None => ProcessNoise::from_diagonal(&self.diag, s(self.disable_s), lf),
        };
        n.start_time = self.start_s.map(|x| t0 + s(x));
        n
    }
}

/// Reference filter: textbook covariance algebra with explicit inverses.
#[derive(Clone)]
pub struct RefKf {
    pub x: V9,
    pub p: M9,
    pub t0: Epoch,
    pub t: Epoch,
    pub used: Option<Epoch>,
    pub noises: Vec<RefNoise>,
    pub ekf: bool,
}

pub struct RefUpd {
    pub p_bar: M9,
    pub s: DMatrix<f64>,
    pub nis: f64,
    pub gain: DMatrix<f64>,
}

impl RefKf {
    pub fn q(&self, sc: &Spacecraft) -> Option<M9> {
        let epoch = sc.epoch();
        let dt = (epoch - self.t).to_seconds();
        for n in self.noises.iter().rev() {
            if let Some(st) = n.start_s
                && self.t0 + s(st) > epoch
            {
                continue;
            }
            if dt > n.disable_s {
                continue;
            }
            let mut d = Vector3::from(n.diag);
            if let Some(dec) = n.decay {
                let el = (epoch - self.t0).to_seconds();
                for i in 0..3 {
                    d[i] *= (-dec[i] * el).exp();
                }
            }
            if n.frame > 0 {
                let (r, v) = (sc.orbit.radius_km, sc.orbit.velocity_km_s);
                let h = r.cross(&v).normalize();
                let m = if n.frame == 1 {
                    let rh = r.normalize();
                    Matrix3::from_columns(&[rh, h.cross(&rh), h])
                } else {
                    let vh = v.normalize();
                    Matrix3::from_columns(&[vh, h, vh.cross(&h)])
                };
                d = (m * Matrix3::from_diagonal(&d) * m.transpose()).diagonal();
            }
            let mut q = M9::zeros();
            for i in 0..3 {
                q[(i, i)] = d[i] * dt.powi(4) / 4.0;
                q[(i, i + 3)] = d[i] * dt.powi(3) / 2.0;
                q[(i + 3, i)] = q[(i, i + 3)];
                q[(i + 3, i + 3)] = d[i] * dt * dt;
            }
            return Some(q);
        }
        None
    }
    pub fn p_bar(&self, sc: &Spacecraft) -> M9 {
        let phi = sc.stm.unwrap();
        let mut p = phi * self.p * phi.transpose();
        if let Some(q) = self.q(sc) {
            p += q;
        }
        p
    }
    pub fn time(&mut self, sc: &Spacecraft) {
        let p = self.p_bar(sc);
        self.x = if self.ekf { V9::zeros() } else { sc.stm.unwrap() * self.x };
        self.p = p;
        self.t = sc.epoch();
    }
    pub fn prep(&self, sc: &Spacecraft, z: &DVector<f64>, h: &DMatrix<f64>, r: &DMatrix<f64>) -> RefUpd {
        let p_bar = self.p_bar(sc);
        let pb = DMatrix::from_iterator(9, 9, p_bar.iter().copied());
        let sm = h * &pb * h.transpose() + r;
        let inv = sm.clone().try_inverse().unwrap();
        let nis = (z.transpose() * &inv * z)[(0, 0)];
        let gain = &pb * h.transpose() * inv;
        RefUpd { p_bar, s: sm, nis, gain }
    }
    pub fn measure(&mut self, sc: &Spacecraft, z: &DVector<f64>, h: &DMatrix<f64>, u: &RefUpd) {
        let xbar = if self.ekf { V9::zeros() } else { sc.stm.unwrap() * self.x };
        let hx = h * DVector::from_iterator(9, xbar.iter().copied());
        let dx = &u.gain * (z - hx);
        self.x = xbar + V9::from_iterator(dx.iter().copied());
        let dp = &u.gain * &u.s * u.gain.transpose();
        self.p = u.p_bar - M9::from_iterator(dp.iter().copied());
        self.t = sc.epoch();
    }
}

/// Entry-wise comparison scaled by the standard deviations of both axes (so that km and km/s get their own tolerance).
pub fn cov_close(t: &mut Tally, what: &str, got: &M9, want: &M9, tol: f64) -> Result<(), String> {
    for i in 0..9 {
        for j in 0..9 {
            let sc = (want[(i, i)].abs() * want[(j, j)].abs()).sqrt() + 1e-300;
            let d = (got[(i, j)] - want[(i, j)]).abs();
            if !(d <= tol * sc + 1e-30) {
                return Err(format!("{what}[{i},{j}]: got {:e}, want {:e} (scale {sc:e})", got[(i, j)], want[(i, j)]));
            }
        }
    }
    t.step();
    Ok(())
}

pub fn vec_close(t: &mut Tally, what: &str, got: &[f64], want: &[f64], scale: &[f64], tol: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} entries instead of {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        if !((got[i] - want[i]).abs() <= tol * scale[i].abs() + 1e-30) {
            return Err(format!("{what}[{i}]: got {:e}, want {:e} (scale {:e})", got[i], want[i], scale[i]));
        }
    }
    t.step();
    Ok(())
}

pub fn prior(i: usize) -> M9 {
    let sig = [1.0, 2.0, 0.5, 1e-3, 2e-3, 5e-4, 1e-2, 3e-2, 0.0];
    let mut p = M9::zeros();
    for k in 0..9 {
        p[(k, k)] = sig[k] * sig[k];
    }
    if i == 1 {
        for a in 0..8 {
            for b in 0..8 {
                if a != b {
                    let c = 0.5f64.powi((a as i32 - b as i32).abs()) * if (a + b) % 3 == 0 { -0.4 } else { 0.7 };
                    p[(a, b)] = c * sig[a] * sig[b];
                }
            }
        }
        p = 0.5 * (p + p.transpose());
    }
    p
}

/// A dense but well-conditioned transition over dt seconds (the filter must not care where it comes from).
pub fn phi(dt: f64, i: usize) -> M9 {
    let mut m = M9::identity();
    let w = 1.1e-3 * dt;
    for k in 0..3 {
        m[(k, k)] = w.cos();
        m[(k + 3, k + 3)] = w.cos();
        m[(k, k + 3)] = w.sin() / 1.1e-3;
        m[(k + 3, k)] = -w.sin() * 1.1e-3;
    }
    if i == 1 {
        m[(0, 4)] += 0.1 * dt;
        m[(2, 3)] -= 0.07 * dt;
        m[(3, 6)] += 1e-7 * dt;
        m[(0, 6)] += 5e-8 * dt * dt;
        m[(4, 7)] += 2e-7 * dt;
    }
    m
}

fn h_row(k: usize) -> Vec<f64> {
    match k {
        0 => vec![0.6, -0.64, 0.48, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
        1 => vec![1e-3, 5e-4, -2e-3, 0.6, -0.64, 0.48, 0.0, 0.0, 0.0],
        _ => vec![0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    }
}
const H_SIG: [f64; 3] = [0.05, 2e-5, 0.3];

#[derive(Clone, Copy, Debug)]
enum Op {
    Time(f64),
    /// rows, dt, number of sigmas of the prefit
    Msr(&'static [usize], f64, f64),
}

pub fn noise_sets() -> Vec<(&'static str, Vec<RefNoise>)> {
    let n = |diag, frame, start_s, disable_s, decay| RefNoise { diag, frame, start_s, disable_s, decay };
    let a = [1e-10, 4e-10, 2e-10];
    let b = [3e-9, 1e-9, 5e-9];
    vec![
        ("none", vec![]),
        ("inertial", vec![n(a, 0, None, 120.0, None)]),
        ("ric", vec![n(b, 1, None, 120.0, None)]),
        ("vnc", vec![n(b, 2, None, 60.0, None)]),
        ("decay", vec![n(b, 0, None, 120.0, Some([1e-3, 5e-3, 2e-2]))]),
        ("start", vec![n(a, 0, Some(90.0), 120.0, None)]),
        ("two", vec![n(a, 0, None, 1000.0, None), n(b, 0, Some(60.0), 120.0, None)]),
        ("two-disable", vec![n(a, 0, None, 300.0, None), n(b, 1, None, 59.0, None)]),
        ("decay-ric-start", vec![n(a, 0, None, 300.0, None), n(b, 1, Some(121.0), 180.0, Some([1e-3, 0.0, 2e-2]))]),
    ]
}

/// C14: the Kalman filter's time and measurement updates.
pub fn c14(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every sequence of filter operations (time updates over three spans, scalar and vector measurement updates with prefits of \
         0.3, 2.9, 3.1 and 40 sigmas) up to the depth x filter variant x rejection threshold x prior x transition x process noise \
         set, each step against explicit-inverse reference algebra; non-trivial: at least one measurement update",
    );
    let ops: Vec<Op> = vec![
        Op::Time(60.0),
        Op::Time(0.0),
        Op::Time(180.0),
        Op::Msr(&[0], 60.0, 0.3),
        Op::Msr(&[1], 0.0, -2.9),
        Op::Msr(&[0, 1], 120.0, 3.1),
        Op::Msr(&[2], 30.0, 40.0),
        Op::Msr(&[0, 1, 2], 60.0, -0.7),
    ];
    let depth = tier.pick(3, 4);
    for (nname, noises) in noise_sets() {
        for ekf in [true, false] {
            for rej in [None, Some(3.0), Some(0.0)] {
                for pi in 0..2usize {
                    for fi in 0..2usize {
                        if !tier.thorough() && pi != fi {
                            continue;
                        }
                        for seq in sequences(ops.len(), 1, depth) {
                            let noises = noises.clone();
                            let ops = ops.clone();
                            sp.push(
                                format!("{nname}/{}/rej={rej:?}/P{pi}/F{fi}/{seq:?}", if ekf { "ekf" } else { "ckf" }),
                                move |t| run_kf(t, &noises, ekf, rej, pi, fi, &seq, &ops),
                            );
                        }
                    }
                }
            }
        }
    }
    // The ways to configure process noise: every history of constructors.
    for start in 0..=CTOR_NOISES {
        for hist in sequences(2 * CTOR_NOISES, 0, tier.pick(2, 3)) {
            for ekf in [true, false] {
                for seq in [vec![0usize, 3, 5], vec![2, 0, 7], vec![3, 3, 2]] {
                    let ops = ops.clone();
                    let hist = hist.clone();
                    sp.push(format!("configure/{ekf}/{start}/{hist:?}/{seq:?}"), move |t| {
                        let zoo_n = ctor_noises();
                        let (epoch, est0) = kf_start(0);
                        let variant = if ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
                        let mut kf: KalmanFilter<Spacecraft, Const<3>> = match start {
                            0 => KalmanFilter::new(est0, variant),
                            i => KalmanFilter::from_process_noise(est0, variant, zoo_n[i - 1].build(epoch)),
                        };
                        for h in &hist {
                            let n = zoo_n[h % CTOR_NOISES].build(epoch);
                            kf = if *h < CTOR_NOISES { kf.and_with_process_noise(n) } else { kf.with_process_noise(n) };
                        }
                        run_kf_on(t, kf, &ctor_expect(start, &hist), ekf, None, 0, 0, &seq, &ops)
                    });
                }
            }
        }
    }
    // Constructors of a process noise.
    for (k, d) in [[1e-9, 2e-9, 3e-9], [0.0, 5e-8, 1e-12]].into_iter().enumerate() {
        for el in [-1.0, 0.0, 60.0, 3600.0] {
            sp.push(format!("noise/{k}/{el}"), move |t| {
                let n = ProcessNoise3D::with_start_time(s(120.0), &d, t0() + s(60.0));
                t.step();
                t.ensure(n.disable_time == s(120.0) && n.local_frame.is_none() && n.decay_diag.is_none(), || format!("{n}"))?;
                let m = n.to_matrix(t0() + s(el));
                t.ensure(m.is_some() == (el >= 60.0), || format!("{m:?} at {el} s"))?;
                if let Some(m) = m {
                    t.ensure(m == Matrix3::from_diagonal(&Vector3::from(d)), || format!("{m}"))?;
                }
                use nyx_space::dynamics::guidance::LocalFrame;
                for dur in [1.0, 300.0] {
                    let n = ProcessNoise3D::from_velocity_km_s(&d, s(dur), s(el.max(1.0)), Some(LocalFrame::RIC));
                    t.step();
                    t.ensure(n.disable_time == s(el.max(1.0)) && n.local_frame == Some(LocalFrame::RIC) && n.start_time.is_none() && n.decay_diag.is_none(), || format!("{n}"))?;
                    let m = n.to_matrix(t0() + s(el)).ok_or("no matrix")?;
                    t.see_f(&[m[(0, 0)], m[(1, 1)], dur]);
                    for i in 0..3 {
                        for j in 0..3 {
                            t.close("noise of a velocity error", m[(i, j)], if i == j { d[i] / dur } else { 0.0 }, 1e-15 * d[i])?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    for lf in 0..3usize {
        sp.push(format!("too-large/{lf}"), move |t| {
            use nyx_space::dynamics::guidance::LocalFrame;
            let n = nyx_space::od::snc::ProcessNoise6D::from_diagonal(&[1e-9; 6], s(120.0), [None, Some(LocalFrame::RIC), Some(LocalFrame::VNC)][lf]);
            t.step();
            let (_, est0) = kf_start(0);
            let mut kf = KalmanFilter::<Spacecraft, Const<6>>::from_process_noise(est0, KalmanVariant::ReferenceUpdate, n);
            let mut nom = est0.nominal_state.with_stm();
            nom.orbit.epoch += s(60.0);
            t.ensure(kf.time_update(nom).is_err(), || "six accelerations of a spacecraft".into())
        });
    }
    sp
}

pub const CTOR_NOISES: usize = 3;
/// Three noises which differ in size, frame, start and decay.
pub fn ctor_noises() -> Vec<RefNoise> {
    let n = |diag, frame, start_s, disable_s, decay| RefNoise { diag, frame, start_s, disable_s, decay };
    vec![
        n([1e-10, 4e-10, 2e-10], 0, None, 1000.0, None),
        n([3e-9, 1e-9, 5e-9], 1, Some(60.0), 120.0, None),
        n([7e-9, 2e-9, 1e-9], 2, None, 70.0, Some([1e-3, 5e-3, 2e-2])),
    ]
}
/// The noises in force after a history: a start (none or one of them), then additions (below CTOR_NOISES) and replacements.
pub fn ctor_expect(start: usize, hist: &[usize]) -> Vec<RefNoise> {
    let z = ctor_noises();
    let mut v: Vec<RefNoise> = if start == 0 { vec![] } else { vec![z[start - 1].clone()] };
    for h in hist {
        if *h >= CTOR_NOISES {
            v.clear();
        }
        v.push(z[h % CTOR_NOISES].clone());
    }
    v
}

fn kf_start(pi: usize) -> (Epoch, KfEstimate<Spacecraft>) {
    let start = sc(zoo(3));
    (start.epoch(), KfEstimate::from_covar(start, prior(pi)))
}

#[allow(clippy::too_many_arguments)]
fn run_kf(
    t: &mut Tally,
    noises: &[RefNoise],
    ekf: bool,
    rej: Option<f64>,
    pi: usize,
    fi: usize,
    seq: &[usize],
    ops: &[Op],
) -> Result<(), String> {
    let (t0, est0) = kf_start(pi);
    let variant = if ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
    let mut kf: KalmanFilter<Spacecraft, Const<3>> = KalmanFilter::new(est0, variant);
    for n in noises {
        kf = kf.and_with_process_noise(n.build(t0));
    }
    run_kf_on(t, kf, noises, ekf, rej, pi, fi, seq, ops)
}

#[allow(clippy::too_many_arguments)]
fn run_kf_on(
    t: &mut Tally,
    mut kf: KalmanFilter<Spacecraft, Const<3>>,
    noises: &[RefNoise],
    ekf: bool,
    rej: Option<f64>,
    pi: usize,
    fi: usize,
    seq: &[usize],
    ops: &[Op],
) -> Result<(), String> {
    let start = sc(zoo(3));
    let t0 = start.epoch();
    let p0 = prior(pi);
    let mut rf = RefKf { x: V9::zeros(), p: p0, t0, t: t0, used: None, noises: noises.to_vec(), ekf };
    let mut now = 0.0;
    for oi in seq {
        let op = ops[*oi];
        let dt = match op {
            Op::Time(d) | Op::Msr(_, d, _) => d,
        };
        now += dt;
        let (r, v) = kepler(MU, start.orbit.radius_km, start.orbit.velocity_km_s, now);
        let mut nom = start;
        nom.orbit.radius_km = r;
        nom.orbit.velocity_km_s = v;
        nom.orbit.epoch = t0 + s(now);
        nom.stm = Some(phi(dt, fi));
        match op {
            Op::Time(_) => {
                rf.time(&nom);
                let e = kf.time_update(nom).map_err(|e| e.to_string())?;
                t.ensure(e.predicted, || "time update not flagged as predicted".into())?;
                cmp_est(t, &e, &rf)?;
                cov_close(t, "covar_bar", &e.covar_bar, &rf.p, 1e-9)?;
            }
            Op::Msr(rows, _, nsig) => {
                let m = rows.len();
                let h = DMatrix::from_fn(m, 9, |i, j| h_row(rows[i])[j]);
                let rr = DMatrix::from_fn(m, m, |i, j| if i == j { H_SIG[rows[i]].powi(2) } else { 0.0 });
                // A prefit of the requested number of sigmas (in the sense of the documented ratio), spread over the components.
                let dir = DVector::from_fn(m, |i, _| [1.0, -0.8, 0.5][i]);
                let u0 = rf.prep(&nom, &dir, &h, &rr);
                let l = u0.s.clone().cholesky().unwrap().l();
                let w = dir.normalize() * (m as f64).sqrt() * nsig;
                let z = l * w;
                let u = rf.prep(&nom, &z, &h, &rr);
                let ratio = (u.nis / m as f64).sqrt();
                let want_rej = rej.is_some_and(|k| ratio > k);
                let comp = DVector::from_fn(m, |i, _| [7000.0, -3.5, 1200.0][i]);
                let real = &comp + &z;
                // What the filter gets is real - computed in floating point.
                let z = &real - &comp;
                let u = rf.prep(&nom, &z, &h, &rr);
                match m {
                    1 => meas::<1>(t, &mut kf, &mut rf, nom, &real, &comp, &h, &rr, rej, want_rej, &u, &z)?,
                    2 => meas::<2>(t, &mut kf, &mut rf, nom, &real, &comp, &h, &rr, rej, want_rej, &u, &z)?,
                    _ => meas::<3>(t, &mut kf, &mut rf, nom, &real, &comp, &h, &rr, rej, want_rej, &u, &z)?,
                }
            }
        }
        t.ensure(kf.prev_estimate.epoch() == nom.epoch(), || "filter epoch not advanced".into())?;
        t.ensure(kf.prev_estimate.covar == kf.previous_estimate().covar, || "previous estimate".into())?;
        t.see_f(rf.p.as_slice());
    }
    Ok(())
}

fn cmp_est(t: &mut Tally, e: &KfEstimate<Spacecraft>, rf: &RefKf) -> Result<(), String> {
    cov_close(t, "covariance", &e.covar, &rf.p, 2e-8)?;
    let sig: Vec<f64> = (0..9).map(|i| rf.p[(i, i)].abs().sqrt()).collect();
    let scale: Vec<f64> = (0..9).map(|i| sig[i].max(rf.x[i].abs())).collect();
    vec_close(t, "state deviation", e.state_deviation.as_slice(), rf.x.as_slice(), &scale, 1e-7)?;
    // Symmetric and positive semi-definite.
    for i in 0..9 {
        for j in 0..9 {
            let d = (e.covar[(i, j)] - e.covar[(j, i)]).abs();
            t.ensure(d <= 1e-12 * (sig[i] * sig[j]) + 1e-30, || format!("covariance asymmetric at {i},{j}: {d:e}"))?;
        }
    }
    let mut corr = M9::identity();
    for i in 0..9 {
        for j in 0..9 {
            if sig[i] > 0.0 && sig[j] > 0.0 {
                corr[(i, j)] = e.covar[(i, j)] / sig[i] / sig[j];
            }
        }
    }
    let ev = corr.symmetric_eigenvalues();
    t.ensure(ev.iter().all(|x| *x > -1e-9), || format!("covariance not positive semi-definite: {ev:?}"))?;
    t.ensure(e.epoch() == rf.t, || "estimate epoch".into())?;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn meas<const M: usize>(
    t: &mut Tally,
    kf: &mut KalmanFilter<Spacecraft, Const<3>>,
    rf: &mut RefKf,
    nom: Spacecraft,
    real: &DVector<f64>,
    comp: &DVector<f64>,
    h: &DMatrix<f64>,
    rr: &DMatrix<f64>,
    rej: Option<f64>,
    want_rej: bool,
    u: &RefUpd,
    z: &DVector<f64>,
) -> Result<(), String> {
    let re = SVector::<f64, M>::from_iterator(real.iter().copied());
    let co = SVector::<f64, M>::from_iterator(comp.iter().copied());
    let hh = SMatrix::<f64, M, 9>::from_iterator(h.iter().copied());
    let r = SMatrix::<f64, M, M>::from_iterator(rr.iter().copied());
    let (e, res, gain) = kf
        .measurement_update::<Const<M>>(nom, re, co, r, hh, rej.map(|k| SigmaRejection { num_sigmas: k }))
        .map_err(|e| e.to_string())?;
    let sdiag: Vec<f64> = (0..M).map(|i| u.s[(i, i)].sqrt()).collect();
    vec_close(t, "prefit", res.prefit.as_slice(), z.as_slice(), &sdiag, 1e-12)?;
    vec_close(t, "innovation 1-sigma", res.tracker_msr_noise.as_slice(), &sdiag, &sdiag, 1e-9)?;
    vec_close(t, "real", res.real_obs.as_slice(), real.as_slice(), &sdiag, 1e-12)?;
    vec_close(t, "computed", res.computed_obs.as_slice(), comp.as_slice(), &sdiag, 1e-12)?;
    t.ensure(res.epoch == nom.epoch(), || "residual epoch".into())?;
    if rf.ekf {
        let ratio = (u.nis / M as f64).sqrt();
        t.close("prefit ratio", res.ratio, ratio, 1e-8 * (1.0 + ratio))?;
        t.close("whitened residual norm", res.whitened_resid.norm_squared(), u.nis, 1e-7 * (1.0 + u.nis))?;
        t.ensure(res.rejected == want_rej, || format!("ratio {ratio} with threshold {rej:?}: rejected = {}", res.rejected))?;
    }
    if res.rejected {
        t.ensure(rej.is_some(), || "rejected without a rejection criterion".into())?;
        t.ensure(gain.is_none(), || "gain of a rejected measurement".into())?;
        t.ensure(e.predicted, || "rejected measurement not flagged as predicted".into())?;
        rf.time(&nom);
        return cmp_est(t, &e, rf);
    }
    t.ensure(!e.predicted, || "measurement update flagged as predicted".into())?;
    cov_close(t, "covar_bar", &e.covar_bar, &u.p_bar, 1e-9)?;
    let g = gain.ok_or("no gain for an accepted measurement")?;
    for j in 0..M {
        for i in 0..9 {
            let sc = u.p_bar[(i, i)].sqrt() / sdiag[j];
            t.ensure((g[(i, j)] - u.gain[(i, j)]).abs() <= 1e-7 * sc + 1e-30, || {
                format!("gain[{i},{j}] {:e} want {:e}", g[(i, j)], u.gain[(i, j)])
            })?;
        }
    }
    rf.measure(&nom, z, h, u);
    if rf.ekf {
        let post = z - h * DVector::from_iterator(9, rf.x.iter().copied());
        vec_close(t, "postfit", res.postfit.as_slice(), post.as_slice(), &sdiag, 1e-7)?;
    }
    for i in 0..9 {
        t.ensure(e.covar[(i, i)] <= u.p_bar[(i, i)] * (1.0 + 1e-9) + 1e-30, || {
            format!("a measurement increased the variance of component {i}")
        })?;
    }
    cmp_est(t, &e, rf)
}

#[allow(dead_code)]
pub fn dur(x: f64) -> Duration {
    s(x)
}

// ---------------------------------------------------------------------------------------------------------------------------
// C15: the sequential filter process.

use anise::almanac::Almanac;
use anise::errors::AlmanacResult;
use anise::prelude::{Frame, Orbit};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{DefaultAllocator, DimName, OMatrix, allocator::Allocator};
use nyx_space::io::ConfigRepr;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::ODError;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use nyx_space::od::process::{KalmanODProcess, ODSolution};
use nyx_space::od::simulator::TrackingDevice;
use nyx_space::propagators::{IntegratorMethod, IntegratorOptions, Propagator};
use nyx_space::dynamics::SpacecraftDynamics;
use rand_pcg::Pcg64Mcg;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// A tracking device at an inertially fixed point, with exact partials, which can be told when not to see the spacecraft.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dev {
    pub name: String,
    pub types: IndexSet<MeasurementType>,
    pub at: [f64; 3],
    pub sigma: IndexMap<MeasurementType, f64>,
    /// Seconds past t0 during which nothing is visible.
    pub hidden: Vec<(f64, f64)>,
}
impl ConfigRepr for Dev {}

pub fn model(at: [f64; 3], ty: MeasurementType, r: Vector3<f64>, v: Vector3<f64>) -> (f64, [f64; 9]) {
    let d = r - Vector3::from(at);
    let rho = d.norm();
    let u = d / rho;
    let rr = u.dot(&v);
    let g = (v - u * rr) / rho;
    match ty {
        MeasurementType::Range => (rho, [u.x, u.y, u.z, 0., 0., 0., 0., 0., 0.]),
        MeasurementType::Doppler => (rr, [g.x, g.y, g.z, u.x, u.y, u.z, 0., 0., 0.]),
        MeasurementType::X => (r.x, [1., 0., 0., 0., 0., 0., 0., 0., 0.]),
        MeasurementType::Y => (r.y, [0., 1., 0., 0., 0., 0., 0., 0., 0.]),
        _ => (r.z, [0., 0., 1., 0., 0., 0., 0., 0., 0.]),
    }
}

pub fn sigma_of(ty: MeasurementType) -> f64 {
    match ty {
        MeasurementType::Doppler => 1e-5,
        MeasurementType::Range => 0.02,
        _ => 0.05,
    }
}

/// Known bias of a device: it depends on the device, the kind of measurement and the epoch.
pub fn bias_of(name: &str, ty: MeasurementType, el: f64) -> f64 {
    (if name == "B" { -31.0 } else { 23.0 } + el * 1e-2) * sigma_of(ty)
}

pub fn dev(name: &str, at: [f64; 3], types: &[MeasurementType], hidden: &[(f64, f64)]) -> Dev {
    Dev {
        name: name.into(),
        types: types.iter().copied().collect(),
        at,
        sigma: types.iter().map(|t| (*t, sigma_of(*t))).collect(),
        hidden: hidden.to_vec(),
    }
}

impl TrackingDevice<Spacecraft> for Dev {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn measurement_types(&self) -> &IndexSet<MeasurementType> {
        &self.types
    }
    fn measure(
        &mut self,
        epoch: Epoch,
        traj: &Traj<Spacecraft>,
        rng: Option<&mut Pcg64Mcg>,
        almanac: &Almanac,
    ) -> Result<Option<Measurement>, ODError> {
        let rx = traj.at(epoch).map_err(|e| ODError::MeasurementSimError { details: e.to_string() })?;
        self.measure_instantaneous(rx, rng, almanac)
    }
    fn location(&self, epoch: Epoch, frame: Frame, _almanac: &Almanac) -> AlmanacResult<Orbit> {
        Ok(Orbit::new(self.at[0], self.at[1], self.at[2], 0.0, 0.0, 0.0, epoch, frame))
    }
    fn measure_instantaneous(
        &mut self,
        rx: Spacecraft,
        _rng: Option<&mut Pcg64Mcg>,
        _almanac: &Almanac,
    ) -> Result<Option<Measurement>, ODError> {
        let el = (rx.epoch() - t0()).to_seconds();
        if self.hidden.iter().any(|(a, b)| el >= *a && el <= *b) {
            return Ok(None);
        }
        let mut m = Measurement::new(self.name.clone(), rx.epoch());
        for ty in &self.types {
            m.push(*ty, model(self.at, *ty, rx.orbit.radius_km, rx.orbit.velocity_km_s).0);
        }
        Ok(Some(m))
    }
    fn measurement_covar(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
        Ok(self.sigma[&msr_type].powi(2))
    }
    fn measurement_bias(&self, msr_type: MeasurementType, epoch: Epoch) -> Result<f64, ODError> {
        Ok(bias_of(&self.name, msr_type, (epoch - t0()).to_seconds()))
    }
}

impl TrackerSensitivity<Spacecraft, Spacecraft> for Dev {
    fn h_tilde<M: DimName>(
        &self,
        msr: &Measurement,
        msr_types: &IndexSet<MeasurementType>,
        rx: &Spacecraft,
        _almanac: &Almanac,
    ) -> Result<OMatrix<f64, M, Const<9>>, ODError>
    where
        DefaultAllocator: Allocator<M> + Allocator<M, Const<9>>,
    {
        let mut m = OMatrix::<f64, M, Const<9>>::zeros();
        for (i, ty) in msr_types.iter().enumerate() {
            if msr.data.contains_key(ty) {
                let (_, row) = model(self.at, *ty, rx.orbit.radius_km, rx.orbit.velocity_km_s);
                for (j, x) in row.iter().enumerate() {
                    m[(i, j)] = *x;
                }
            }
        }
        Ok(m)
    }
}

const STN_A: [f64; 3] = [5000.0, -3000.0, 2500.0];
const STN_B: [f64; 3] = [-2000.0, 4500.0, -4000.0];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    A,       // all types from A
    Outlier, // all types from A, 60 sigmas off
    B,       // all types from B
    Part,    // A without its first type
    Unknown, // tracker nobody configured
    Flag,    // flagged as rejected by hand
    Hidden,  // C, which never sees the spacecraft
}
pub const KINDS: [Kind; 7] = [Kind::A, Kind::Outlier, Kind::B, Kind::Part, Kind::Unknown, Kind::Flag, Kind::Hidden];

pub struct OdCase {
    pub ekf: bool,
    pub m: usize,
    pub rej: Option<f64>,
    pub force: bool,
    pub noises: Vec<RefNoise>,
    pub modulus: Option<f64>,
    pub max_step: f64,
    pub prop_step: Option<f64>,
    pub types: Vec<MeasurementType>,
}

fn truth_at(el: f64) -> (Vector3<f64>, Vector3<f64>) {
    let o = zoo(3);
    kepler(MU, o.radius_km, o.velocity_km_s, el)
}

pub fn od_arc(kinds: &[Kind], gaps: &[f64], types: &[MeasurementType], modulus: Option<f64>) -> TrackingDataArc {
    let mut el = 0.0;
    let mut msrs = vec![];
    for (i, k) in kinds.iter().enumerate() {
        el += gaps[i % gaps.len()];
        let (r, v) = truth_at(el);
        let (name, at) = match k {
            Kind::B => ("B", STN_B),
            Kind::Unknown => ("nobody", STN_B),
            Kind::Hidden => ("C", STN_A),
            _ => ("A", STN_A),
        };
        let mut m = Measurement::new(name.into(), t0() + s(el));
        for (j, ty) in types.iter().enumerate() {
            if *k == Kind::Part && j == 0 {
                continue;
            }
            let noise = [0.4, -0.7, 0.2, 0.9, -0.3][(i * 2 + j) % 5] * sigma_of(*ty);
            let off = if *k == Kind::Outlier { 4e3 * sigma_of(*ty) } else { 0.0 };
            let mut val = model(at, *ty, r, v).0 + bias_of(name, *ty, el) + noise + off;
            if let Some(md) = modulus
                && *ty == MeasurementType::Range
            {
                val = val.rem_euclid(md);
            }
            m.push(*ty, val);
        }
        m.rejected = *k == Kind::Flag;
        msrs.push(m);
    }
    let mut arc = TrackingDataArc { measurements: msrs, source: None, moduli: None, force_reject: false };
    if let Some(md) = modulus {
        arc.set_moduli(MeasurementType::Range, md);
    }
    arc
}

pub fn od_est(p: M9) -> KfEstimate<Spacecraft> {
    let mut nom = sc(zoo(3));
    nom.orbit.radius_km += Vector3::new(0.4, -0.3, 0.2);
    nom.orbit.velocity_km_s += Vector3::new(-2e-4, 3e-4, 1e-4);
    KfEstimate::from_covar(nom, p)
}

pub fn od_est_at(p: M9, el: f64) -> KfEstimate<Spacecraft> {
    let mut e = od_est(p);
    let (r, v) = kepler(MU, e.nominal_state.orbit.radius_km, e.nominal_state.orbit.velocity_km_s, el);
    e.nominal_state.orbit.radius_km = r;
    e.nominal_state.orbit.velocity_km_s = v;
    e.nominal_state.orbit.epoch += s(el);
    e
}

pub fn od_prior() -> M9 {
    let mut p = M9::zeros();
    for i in 0..3 {
        p[(i, i)] = 1.0;
        p[(i + 3, i + 3)] = 1e-6;
    }
    p[(0, 4)] = 2e-4;
    p[(4, 0)] = 2e-4;
    p
}

pub fn od_prop(step: Option<f64>) -> Propagator<SpacecraftDynamics> {
    let opts = match step {
        Some(x) => IntegratorOptions::with_fixed_step(s(x)),
        None => IntegratorOptions::builder().init_step(s(30.0)).min_step(s(0.5)).max_step(s(90.0)).tolerance(1e-11).build(),
    };
    Propagator::new(crate::prop::two_body(), IntegratorMethod::RungeKutta89, opts)
}

pub fn devices(types: &[MeasurementType]) -> BTreeMap<String, Dev> {
    let mut d = BTreeMap::new();
    d.insert("A".to_string(), dev("A", STN_A, types, &[]));
    d.insert("B".to_string(), dev("B", STN_B, types, &[]));
    d.insert("C".to_string(), dev("C", STN_A, types, &[(-1e9, 1e9)]));
    d
}

fn run_od<const M: usize>(t: &mut Tally, c: &OdCase, arc: &TrackingDataArc, start_s: f64) -> Result<(), String> {
    let devs = devices(&c.types);
    let prop = od_prop(c.prop_step);
    let variant = if c.ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
    let mut odp = KalmanODProcess::<SpacecraftDynamics, Const<M>, Const<3>, Dev>::new(
        prop.clone(),
        variant,
        c.rej.map(|k| SigmaRejection { num_sigmas: k }),
        devs.clone(),
        almanac(),
    );
    for n in &c.noises {
        odp = odp.and_with_process_noise(n.build(t0()));
    }
    odp.max_step = s(c.max_step);
    let est0 = od_est_at(od_prior(), start_s);
    let sol = odp.process_arc(est0, arc).map_err(|e| format!("process_arc: {e}"))?;
    t.step();
    check_od::<M>(t, c, arc, &devs, &prop, est0, &sol)
}

/// Replays the solution against the reference filter.
fn check_od<const M: usize>(
    t: &mut Tally,
    c: &OdCase,
    arc: &TrackingDataArc,
    devs: &BTreeMap<String, Dev>,
    prop: &Propagator<SpacecraftDynamics>,
    est0: KfEstimate<Spacecraft>,
    sol: &ODSolution<Spacecraft, KfEstimate<Spacecraft>, Const<M>, Dev>,
) -> Result<(), String> {
    let n = sol.estimates.len();
    t.ensure(sol.residuals.len() == n && sol.gains.len() == n && sol.filter_smoother_ratios.len() == n, || {
        format!("{n} estimates, {} residuals, {} gains", sol.residuals.len(), sol.gains.len())
    })?;
    // What must come out: one entry per window of types with at least one observation.
    let mut expect: Vec<(usize, Vec<MeasurementType>)> = vec![];
    for (i, m) in arc.measurements.iter().enumerate() {
        let Some(d) = devs.get(&m.tracker) else { continue };
        if m.rejected || !d.hidden.is_empty() {
            continue;
        }
        let tys: Vec<MeasurementType> = d.types.iter().copied().collect();
        for w in tys.chunks(M) {
            if w.iter().any(|x| m.data.contains_key(x)) {
                expect.push((i, w.to_vec()));
            }
        }
    }
    let rej = if c.force { Some(0.0) } else { c.rej };
    let mut next = 0;
    let mut rf = RefKf {
        x: V9::zeros(),
        p: est0.covar,
        t0: est0.epoch(),
        t: est0.epoch(),
        used: None,
        noises: c.noises.clone(),
        ekf: c.ekf,
    };
    let mut inst_state = est0.nominal_state.with_stm();
    for k in 0..n {
        let e = &sol.estimates[k];
        let dt = e.epoch() - inst_state.epoch();
        let late = arc.measurements[0].epoch < est0.epoch() && k == 0;
        t.ensure(dt >= Duration::ZERO || late, || format!("estimate {k} goes back in time by {dt}"))?;
        t.ensure(e.epoch() - rf.t <= s(c.max_step) + ns(2000) || k == 0 || any_skipped(arc, devs, rf.t, e.epoch()), || {
            format!("estimates {} and {k} are {} apart, more than the maximum step", k as i64 - 1, e.epoch() - rf.t)
        })?;
        if dt != Duration::ZERO {
            inst_state = prop.with(inst_state, almanac()).quiet().for_duration(dt).map_err(|e| e.to_string())?;
        }
        let nom = inst_state;
        let (nr, nv) = (nom.orbit.radius_km, nom.orbit.velocity_km_s);
        t.close("nominal position", (e.nominal_state.orbit.radius_km - nr).norm(), 0.0, 2e-6)?;
        t.close("nominal velocity", (e.nominal_state.orbit.velocity_km_s - nv).norm(), 0.0, 2e-9)?;
        match &sol.residuals[k] {
            None => {
                t.ensure(e.predicted && sol.gains[k].is_none(), || format!("estimate {k} has no residual but is not a prediction"))?;
                rf.time(&nom);
                cmp_est_od(t, e, &rf)?;
            }
            Some(res) => {
                let Some((mi, tys)) = expect.get(next) else {
                    return Err(format!("unexpected residual at {} from {:?}", res.epoch, res.tracker));
                };
                next += 1;
                let m = &arc.measurements[*mi];
                let d = &devs[&m.tracker];
                t.ensure(res.tracker.as_deref() == Some(m.tracker.as_str()), || {
                    format!("residual of {:?} instead of {}", res.tracker, m.tracker)
                })?;
                t.ensure((e.epoch() - m.epoch).abs() < ns(1001) && (res.epoch - m.epoch).abs() < ns(1001), || {
                    format!("measurement of {} processed at {} (residual at {})", m.epoch, e.epoch(), res.epoch)
                })?;
                t.ensure(res.msr_types.iter().copied().collect::<Vec<_>>() == *tys, || {
                    format!("residual for {:?} instead of {tys:?}", res.msr_types)
                })?;
                let avail: Vec<usize> = (0..tys.len()).filter(|i| m.data.contains_key(&tys[*i])).collect();
                let q = avail.len();
                let mut h = DMatrix::zeros(q, 9);
                let mut r = DMatrix::zeros(q, q);
                let mut z = DVector::zeros(q);
                for (a, i) in avail.iter().enumerate() {
                    let (y, row) = model(d.at, tys[*i], nr, nv);
                    let y = y + bias_of(&m.tracker, tys[*i], (m.epoch - t0()).to_seconds());
                    for j in 0..9 {
                        h[(a, j)] = row[j];
                    }
                    r[(a, a)] = d.sigma[&tys[*i]].powi(2);
                    let mut real = m.data[&tys[*i]];
                    if let Some(md) = c.modulus
                        && tys[*i] == MeasurementType::Range
                    {
                        real += y.div_euclid(md) * md;
                    }
                    z[a] = real - y;
                    t.ensure((res.prefit[*i] - z[a]).abs() <= 5e-6 + 1e-4 * d.sigma[&tys[*i]], || {
                        format!("prefit {:?}: {} instead of {}", tys[*i], res.prefit[*i], z[a])
                    })?;
                    t.ensure((res.real_obs[*i] - real).abs() < 1e-6, || format!("real obs {}", res.real_obs[*i]))?;
                    // Follow the same innovations, not the rounding of two propagations.
                    z[a] = res.prefit[*i];
                }
                let u = rf.prep(&nom, &z, &h, &r);
                if c.ekf {
                    t.close("normalized innovation", res.whitened_resid.norm_squared(), u.nis, 1e-4 * (1.0 + u.nis))?;
                }
                if q == M && c.ekf {
                    let ratio = (u.nis / M as f64).sqrt();
                    t.close("ratio", res.ratio, ratio, 1e-4 * (1.0 + ratio))?;
                    if let Some(k) = rej {
                        if (ratio - k).abs() > 1e-3 {
                            t.ensure(res.rejected == (ratio > k), || format!("ratio {ratio}, threshold {k}, rejected {}", res.rejected))?;
                        }
                    }
                }
                t.ensure(rej.is_some() || !res.rejected, || "rejected without any criterion".into())?;
                t.ensure(!c.force || res.rejected, || "accepted although the arc asks for every measurement to be rejected".into())?;
                t.ensure(res.rejected == sol.gains[k].is_none() && res.rejected == e.predicted, || {
                    format!("rejected {} gain {:?} predicted {}", res.rejected, sol.gains[k].is_some(), e.predicted)
                })?;
                if res.rejected {
                    rf.time(&nom);
                } else {
                    rf.measure(&nom, &z, &h, &u);
                    if c.ekf {
                        inst_state.orbit.radius_km += rf.x.fixed_rows::<3>(0);
                        inst_state.orbit.velocity_km_s += rf.x.fixed_rows::<3>(3);
                    }
                }
                cmp_est_od(t, e, &rf)?;
            }
        }
        // From now on the transition restarts from this estimate.
        inst_state.stm = Some(M9::identity());
    }
    t.ensure(next == expect.len(), || format!("{next} residuals for {} expected measurement updates", expect.len()))?;
    t.see_f(rf.p.as_slice());
    Ok(())
}

/// Whether a measurement which leaves no entry lies in the span (the filter then goes on from the previous entry).
fn any_skipped(arc: &TrackingDataArc, devs: &BTreeMap<String, Dev>, a: Epoch, b: Epoch) -> bool {
    arc.measurements
        .iter()
        .any(|m| m.epoch >= a && m.epoch <= b && devs.get(&m.tracker).is_none_or(|d| !d.hidden.is_empty() || m.data.is_empty()))
}

fn cmp_est_od(t: &mut Tally, e: &KfEstimate<Spacecraft>, rf: &RefKf) -> Result<(), String> {
    cov_close(t, "covariance", &e.covar, &rf.p, 1e-5)?;
    let scale: Vec<f64> = (0..9).map(|i| rf.p[(i, i)].abs().sqrt().max(rf.x[i].abs())).collect();
    vec_close(t, "state deviation", e.state_deviation.as_slice(), rf.x.as_slice(), &scale, 1e-4)
}

pub fn c15(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every arc over an alphabet of measurement kinds (two trackers, outlier, partial types, unknown tracker, flagged, not \
         visible) up to the length x epoch patterns (concurrent, whole and odd gaps) x filter variant x rejection x window size x \
         process noise x modulus x step settings; the solution is replayed entry by entry against a reference filter; non-trivial: \
         at least one measurement update",
    );
    sp.hang_s = 20.0;
    use MeasurementType as T;
    let depth = tier.pick(3, 4);
    let gapss: &[(&str, &[f64])] = &[("even", &[60.0]), ("odd", &[0.0, 45.5, 0.0, 130.25]), ("long", &[200.0, 0.0, 310.0])];
    let nsets = noise_sets();
    let pick_noise = |n: &str| nsets.iter().find(|x| x.0 == n).unwrap().1.clone();
    let mut cfgs: Vec<(String, OdCase)> = vec![];
    let rd = vec![T::Range, T::Doppler];
    for ekf in [true, false] {
        for m in [1usize, 2] {
            for rej in [None, Some(5.0)] {
                for nz in ["none", "ric", "two", "decay"] {
                    cfgs.push((
                        format!("{}/m{m}/rej={rej:?}/{nz}", if ekf { "ekf" } else { "ckf" }),
                        OdCase { ekf, m, rej, force: false, noises: pick_noise(nz), modulus: None, max_step: 60.0, prop_step: None, types: rd.clone() },
                    ));
                }
            }
            cfgs.push((
                format!("{}/m{m}/force", if ekf { "ekf" } else { "ckf" }),
                OdCase { ekf, m, rej: Some(5.0), force: true, noises: pick_noise("inertial"), modulus: None, max_step: 60.0, prop_step: None, types: rd.clone() },
            ));
            cfgs.push((
                format!("{}/m{m}/modulus", if ekf { "ekf" } else { "ckf" }),
                OdCase { ekf, m, rej: None, force: false, noises: vec![], modulus: Some(137.0), max_step: 60.0, prop_step: None, types: rd.clone() },
            ));
            for (ms, ps) in [(25.0, None), (60.0, Some(10.0)), (60.0, Some(90.0)), (600.0, Some(40.0))] {
                cfgs.push((
                    format!("{}/m{m}/max{ms}/step={ps:?}", if ekf { "ekf" } else { "ckf" }),
                    OdCase { ekf, m, rej: Some(5.0), force: false, noises: pick_noise("inertial"), modulus: None, max_step: ms, prop_step: ps, types: rd.clone() },
                ));
            }
            for (tn, tys) in [("xyz", vec![T::X, T::Y, T::Z]), ("r", vec![T::Range]), ("rdx", vec![T::Range, T::Doppler, T::X])] {
                cfgs.push((
                    format!("{}/m{m}/types={tn}", if ekf { "ekf" } else { "ckf" }),
                    OdCase { ekf, m, rej: None, force: false, noises: vec![], modulus: None, max_step: 60.0, prop_step: None, types: tys },
                ));
            }
        }
    }
    for (cname, c) in cfgs {
        let c = std::sync::Arc::new(c);
        for (gname, gaps) in gapss {
            for seq in sequences(KINDS.len(), 2, depth) {
                let kinds: Vec<Kind> = seq.iter().map(|i| KINDS[*i]).collect();
                // In a device with one type, Part would be empty: no such measurement in an arc.
                if c.types.len() == 1 && kinds.contains(&Kind::Part) {
                    continue;
                }
                let c = c.clone();
                sp.push(format!("{cname}/{gname}/{kinds:?}"), move |t| {
                    let mut arc = od_arc(&kinds, gaps, &c.types, c.modulus);
                    arc.force_reject = c.force;
                    if c.m == 1 { run_od::<1>(t, &c, &arc, 0.0) } else { run_od::<2>(t, &c, &arc, 0.0) }
                });
            }
        }
    }
    // Initial estimates before, at and after the first measurements.
    for ekf in [true, false] {
        for start in [-400.0, -61.5, 0.0, 17.0, 60.0, 61.0, 119.5, 200.0] {
            for kinds in [vec![Kind::A, Kind::A], vec![Kind::A, Kind::B, Kind::A], vec![Kind::Unknown, Kind::A, Kind::Flag, Kind::B]] {
                for ps in [None, Some(10.0), Some(60.0)] {
                    let kinds = kinds.clone();
                    sp.push(format!("start/{ekf}/{start}/step={ps:?}/{kinds:?}"), move |t| {
                        let types = vec![T::Range, T::Doppler];
                        let arc = od_arc(&kinds, &[60.0], &types, None);
                        let c = OdCase { ekf, m: 2, rej: None, force: false, noises: vec![], modulus: None, max_step: 60.0, prop_step: ps, types };
                        run_od::<2>(t, &c, &arc, start)
                    });
                }
            }
        }
    }
    // Steps as long as the gaps between measurements: the propagator remains in control of its own.
    for ekf in [true, false] {
        for ms in [900.0, 2400.0, 7200.0] {
            for gap in [700.0, 2000.0] {
                for kinds in [vec![Kind::A, Kind::B, Kind::A], vec![Kind::Unknown, Kind::A, Kind::Flag, Kind::B]] {
                    sp.push(format!("long/{ekf}/{ms}/{gap}/{kinds:?}"), move |t| {
                        let types = vec![T::Range, T::Doppler];
                        let arc = od_arc(&kinds, &[gap], &types, None);
                        let c = OdCase { ekf, m: 2, rej: None, force: false, noises: vec![], modulus: None, max_step: ms, prop_step: None, types };
                        run_od::<2>(t, &c, &arc, 0.0)
                    });
                }
            }
        }
    }
    // Predictions.
    for (nname, noises) in noise_sets() {
        for ekf in [true, false] {
            for d in [0.0, 1e-3, 59.999, 60.0, 60.001, 100.0, 180.0, 301.7] {
                for ms in [60.0, 25.0, 1000.0] {
                    for ps in [None, Some(10.0), Some(90.0)] {
                        for until in [true, false] {
                            let noises = noises.clone();
                            sp.push(format!("predict/{nname}/{ekf}/{d}/max{ms}/step={ps:?}/{until}"), move |t| {
                                predict(t, noises.clone(), ekf, d, ms, ps, until)
                            });
                        }
                    }
                }
            }
        }
    }
    for start in 0..=CTOR_NOISES {
        for hist in sequences(2 * CTOR_NOISES, 0, tier.pick(2, 3)) {
            for ekf in [true, false] {
                let hist = hist.clone();
                sp.push(format!("configure/{ekf}/{start}/{hist:?}"), move |t| {
                    let types = vec![T::Range, T::Doppler];
                    let c = OdCase { ekf, m: 2, rej: Some(4.0), force: false, noises: ctor_expect(start, &hist), modulus: None, max_step: 60.0, prop_step: None, types: types.clone() };
                    let z = ctor_noises();
                    let devs = devices(&types);
                    let prop = od_prop(None);
                    let rej = Some(SigmaRejection { num_sigmas: 4.0 });
                    let variant = if ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
                    type P = KalmanODProcess<SpacecraftDynamics, Const<2>, Const<3>, Dev>;
                    let mut odp = match start {
                        0 => P::new(prop.clone(), variant, rej, devs.clone(), almanac()),
                        i => P::from_process_noise(prop.clone(), variant, devs.clone(), rej, z[i - 1].build(t0()), almanac()),
                    };
                    t.ensure(odp.max_step == s(60.0) && odp.epoch_precision == ns(1000), || format!("steps of {}, precision of {}", odp.max_step, odp.epoch_precision))?;
                    for h in &hist {
                        let n = z[h % CTOR_NOISES].build(t0());
                        odp = if *h < CTOR_NOISES { odp.and_with_process_noise(n) } else { odp.with_process_noise(n) };
                    }
                    let arc = od_arc(&[Kind::A, Kind::B, Kind::Outlier, Kind::A], &[30.0, 95.0], &types, None);
                    let est0 = od_est_at(od_prior(), 0.0);
                    let sol = odp.process_arc(est0, &arc).map_err(|e| format!("process_arc: {e}"))?;
                    t.step();
                    check_od::<2>(t, &c, &arc, &devs, &prop, est0, &sol)
                });
            }
        }
    }
    // An observation which is not a finite number is an error, wherever it lies.
    for ekf in [true, false] {
        for m in [1usize, 2] {
            for (vn, val) in [("nan", f64::NAN), ("inf", f64::INFINITY), ("neg-inf", f64::NEG_INFINITY)] {
                for at in 0..3usize {
                    for ty in 0..2usize {
                        for rej in [None, Some(5.0)] {
                            sp.push(format!("not-finite/{ekf}/m{m}/{vn}/{at}/{ty}/{rej:?}"), move |t| {
                                let types = vec![T::Range, T::Doppler];
                                let mut arc = od_arc(&[Kind::A, Kind::B, Kind::A], &[60.0], &types, None);
                                arc.measurements[at].data.insert(types[ty], val);
                                let c = OdCase { ekf, m, rej, force: false, noises: vec![], modulus: None, max_step: 60.0, prop_step: None, types };
                                let r = if m == 1 { run_od::<1>(t, &c, &arc, 0.0) } else { run_od::<2>(t, &c, &arc, 0.0) };
                                t.step();
                                t.ensure(matches!(&r, Err(e) if e.starts_with("process_arc:")), || format!("an observation of {val} was processed: {r:?}"))
                            });
                        }
                    }
                }
            }
        }
    }
    for ms in [0.0, -60.0] {
        sp.push(format!("bad-max-step/{ms}"), move |t| {
            let types = vec![T::Range];
            let arc = od_arc(&[Kind::A, Kind::A], &[60.0], &types, None);
            let mut odp = KalmanODProcess::<SpacecraftDynamics, Const<1>, Const<3>, Dev>::new(
                od_prop(None),
                KalmanVariant::ReferenceUpdate,
                None,
                devices(&types),
                almanac(),
            );
            odp.max_step = s(ms);
            t.ensure(odp.process_arc(od_est(od_prior()), &arc).is_err(), || "process_arc accepts it".into())?;
            t.ensure(odp.predict_for(od_est(od_prior()), s(100.0)).is_err(), || "predict_for accepts it".into())
        });
    }
    sp
}

fn predict(t: &mut Tally, noises: Vec<RefNoise>, ekf: bool, d: f64, ms: f64, ps: Option<f64>, until: bool) -> Result<(), String> {
    let prop = od_prop(ps);
    let variant = if ekf { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
    let mut odp = KalmanODProcess::<SpacecraftDynamics, Const<2>, Const<3>, Dev>::new(prop.clone(), variant, None, devices(&[]), almanac());
    for n in &noises {
        odp = odp.and_with_process_noise(n.build(t0()));
    }
    odp.max_step = s(ms);
    let mut est0 = od_est(od_prior());
    if !ekf {
        est0.state_deviation = V9::from_row_slice(&[0.3, -0.2, 0.5, 1e-4, 2e-4, -3e-4, 0., 0., 0.]);
    }
    let end = est0.epoch() + s(d);
    let sol = if until { odp.predict_until(est0, end) } else { odp.predict_for(est0, s(d)) }.map_err(|e| e.to_string())?;
    let n = sol.estimates.len();
    t.ensure(n > 0 && sol.estimates[n - 1].epoch() == end, || {
        format!("prediction ends at {} instead of {end}", sol.estimates[n - 1].epoch())
    })?;
    t.ensure(sol.residuals.len() == n && sol.gains.len() == n, || "array sizes".into())?;
    let mut rf = RefKf { x: est0.state_deviation, p: est0.covar, t0: est0.epoch(), t: est0.epoch(), used: None, noises, ekf };
    let mut st = est0.nominal_state.with_stm();
    for k in 0..n {
        let e = &sol.estimates[k];
        t.ensure(sol.residuals[k].is_none() && sol.gains[k].is_none(), || "residual in a prediction".into())?;
        let dt = e.epoch() - st.epoch();
        t.ensure(dt >= Duration::ZERO && dt <= s(ms), || format!("predictions {dt} apart, the maximum step is {ms} s"))?;
        if k == 0 {
            if dt == Duration::ZERO {
                cmp_est_od(t, e, &rf)?;
                continue;
            }
        }
        st = prop.with(st, almanac()).quiet().for_duration(dt).map_err(|e| e.to_string())?;
        t.close("nominal position", (e.nominal_state.orbit.radius_km - st.orbit.radius_km).norm(), 0.0, 2e-6)?;
        t.ensure(e.predicted, || "not flagged as predicted".into())?;
        rf.time(&st);
        cmp_est_od(t, e, &rf)?;
        st.stm = Some(M9::identity());
    }
    t.see_f(rf.p.as_slice());
    Ok(())
}
