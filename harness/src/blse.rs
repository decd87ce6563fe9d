//! C17: batch least squares.
use crate::core::*;
use crate::od::*;
use crate::world::*;
use nalgebra::{DMatrix, DVector, Vector3};
use nyx_space::State;
use nyx_space::Spacecraft;
use nyx_space::dynamics::SpacecraftDynamics;
use nyx_space::od::blse::{BLSSolver, BatchLeastSquares};
use nyx_space::od::estimate::KfEstimate;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::{MeasurementType as M, TrackingDataArc};
use std::collections::BTreeMap;

const A: [f64; 3] = [5000.0, -3000.0, 2500.0];
const B: [f64; 3] = [-2000.0, 4500.0, -4000.0];

/// One measurement as the model knows it: elapsed seconds, device, values present, whether it counts.
#[derive(Clone)]
struct Obs {
    el: f64,
    trk: &'static str,
    vals: Vec<(M, f64)>,
    rejected: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Special {
    None,
    Concurrent, // the other tracker at the same epoch, 6 sigmas off
    Rejected,
    Unknown,
    Hidden,
    Partial,
    Early,   // before the estimate
    OffGrid, // 0.37 s after the slot, 6 sigmas off
    Big,     // 20 sigmas off, still used
}
const SPECIALS: [(&str, Special); 8] = [
    ("concurrent", Special::Concurrent),
    ("rejected", Special::Rejected),
    ("unknown", Special::Unknown),
    ("hidden", Special::Hidden),
    ("partial", Special::Partial),
    ("early", Special::Early),
    ("offgrid", Special::OffGrid),
    ("big", Special::Big),
];
fn truth(el: f64) -> (Vector3<f64>, Vector3<f64>) {
    let o = zoo(3);
    kepler(MU, o.radius_km, o.velocity_km_s, el)
}
fn at_of(trk: &str) -> [f64; 3] {
    if trk == "B" { B } else { A }
}
fn obs(el: f64, trk: &'static str, types: &[M], off: f64, seed: usize) -> Obs {
    let (r, v) = truth(el);
    Obs {
        el,
        trk,
        vals: types
            .iter()
            .enumerate()
            .map(|(j, ty)| (*ty, model(at_of(trk), *ty, r, v).0 + bias_of(trk, *ty, el) + ([0.4, -0.7, 0.2, 0.9, -0.3][(seed * 2 + j) % 5] + off) * sigma_of(*ty)))
            .collect(),
        rejected: false,
    }
}
fn arc_obs(n: usize, gap: f64, first: f64, types: &[M], sp: &[(usize, Special)]) -> Vec<Obs> {
    let mut v: Vec<Obs> = vec![];
    for i in 0..n {
        let el = first + gap * i as f64;
        let trk = if i % 3 == 1 { "B" } else { "A" };
        let mine: Vec<Special> = sp.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
        let mut o = obs(el, trk, types, if mine.contains(&Special::Big) { 20.0 } else { 0.0 }, i);
        if mine.contains(&Special::Partial) && o.vals.len() > 1 {
            o.vals.remove(0);
        }
        v.push(o);
        for m in mine {
            let other = if trk == "A" { "B" } else { "A" };
            match m {
                Special::Concurrent => v.push(obs(el, other, types, 6.0, i + 7)),
                Special::Rejected => v.push(Obs { rejected: true, ..obs(el + 5.0, trk, types, 5e4, i) }),
                Special::Unknown => v.push(Obs { trk: "nobody", ..obs(el + 5.0, trk, types, 5e4, i) }),
                Special::Hidden => v.push(Obs { trk: "C", ..obs(el + 5.0, trk, types, 5e4, i) }),
                Special::Early => v.push(obs(-30.0 - i as f64, trk, types, 5e3, i)),
                Special::OffGrid => v.push(obs(el + 0.37, trk, types, 6.0, i + 3)),
                _ => {}
            }
        }
    }
    v.sort_by(|a, b| a.el.partial_cmp(&b.el).unwrap());
    v
}
fn to_arc(v: &[Obs]) -> TrackingDataArc {
    TrackingDataArc {
        measurements: v
            .iter()
            .map(|o| {
                let mut m = Measurement::new(o.trk.to_string(), t0() + s(o.el));
                for (ty, x) in &o.vals {
                    m.push(*ty, *x);
                }
                m.rejected = o.rejected;
                m
            })
            .collect(),
        source: None,
        moduli: None,
        force_reject: false,
    }
}
fn used(o: &Obs) -> bool {
    !o.rejected && (o.trk == "A" || o.trk == "B") && o.el >= 0.0
}
/// Weighted residuals and their partials with respect to the state at t0.
fn linearize(v: &[Obs], r: Vector3<f64>, vel: Vector3<f64>) -> (DVector<f64>, DMatrix<f64>) {
    let resid = |r: Vector3<f64>, vel: Vector3<f64>| -> Vec<f64> {
        let mut out = vec![];
        for o in v.iter().filter(|o| used(o)) {
            let (rr, vv) = kepler(MU, r, vel, o.el);
            for (ty, x) in &o.vals {
                out.push((x - model(at_of(o.trk), *ty, rr, vv).0 - bias_of(o.trk, *ty, o.el)) / sigma_of(*ty));
            }
        }
        out
    };
    let base = resid(r, vel);
    let n = base.len();
    let mut h = DMatrix::zeros(n, 6);
    for j in 0..6 {
        let st = if j < 3 { 0.02 } else { 2e-5 };
        let mv = |k: f64| {
            let (mut a, mut b) = (r, vel);
            if j < 3 { a[j] += k * st } else { b[j - 3] += k * st }
            resid(a, b)
        };
        let (p1, m1, p2, m2) = (mv(1.0), mv(-1.0), mv(2.0), mv(-2.0));
        for i in 0..n {
            h[(i, j)] = -(8.0 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / (12.0 * st);
        }
    }
    (DVector::from_vec(base), h)
}

/// Damping: initial, decrease, increase, minimum, maximum, diagonal scaling.
type Damping = (f64, f64, f64, f64, f64, bool);
const DAMPING: Damping = (10.0, 10.0, 10.0, 1e-12, 1e12, true);

fn run(t: &mut Tally, v: &[Obs], types: &[M], lm: bool, max_step: f64, err: f64) -> Result<(), String> {
    run_damped(t, v, types, lm, max_step, err, DAMPING)
}

fn run_damped(t: &mut Tally, v: &[Obs], types: &[M], lm: bool, max_step: f64, err: f64, d: Damping) -> Result<(), String> {
    let mut devs = BTreeMap::new();
    devs.insert("A".to_string(), dev("A", A, types, &[]));
    devs.insert("B".to_string(), dev("B", B, types, &[]));
    devs.insert("C".to_string(), dev("C", A, types, &[(-1e9, 1e9)]));
    let tol = 1e-6;
    let blse = BatchLeastSquares::<SpacecraftDynamics, Dev>::builder()
        .prop(od_prop(None))
        .devices(devs)
        .solver(if lm { BLSSolver::LevenbergMarquardt } else { BLSSolver::NormalEquations })
        .tolerance_pos_km(tol)
        .max_iterations(60)
        .max_step(s(max_step))
        .lm_lambda_init(d.0)
        .lm_lambda_decrease(d.1)
        .lm_lambda_increase(d.2)
        .lm_lambda_min(d.3)
        .lm_lambda_max(d.4)
        .lm_use_diag_scaling(d.5)
        .almanac(almanac())
        .build();
    let arc = to_arc(v);
    let mut guess: Spacecraft = sc(zoo(3));
    guess.orbit.radius_km += Vector3::new(0.8, -0.5, 0.6) * err;
    guess.orbit.velocity_km_s += Vector3::new(-4e-4, 3e-4, 6e-4) * err;
    let before = arc.clone();
    let sol = blse.estimate(guess, &arc).map_err(|e| format!("estimate: {e}"))?;
    t.step();
    t.ensure(arc == before, || "the arc was modified".into())?;
    let x = sol.estimated_state;
    t.see_f(&[x.orbit.radius_km.x, x.orbit.velocity_km_s.x, sol.final_rms]);
    t.ensure(x.epoch() == guess.epoch() && x.orbit.frame == guess.orbit.frame, || format!("estimate at {} in {}", x.epoch(), x.orbit.frame))?;
    if d.4 > d.3 {
        t.ensure(sol.converged, || format!("not converged after {} iterations (last correction {} km)", sol.num_iterations, sol.final_corr_pos_km))?;
    }
    if !sol.converged {
        return Ok(());
    } else {
        t.ensure(sol.final_corr_pos_km < tol, || format!("converged with a correction of {} km", sol.final_corr_pos_km))?;
    }
    let (z, h) = linearize(v, x.orbit.radius_km, x.orbit.velocity_km_s);
    let lam = h.transpose() * &h + DMatrix::identity(6, 6);
    let n = h.transpose() * &z;
    let inv = lam.clone().try_inverse().ok_or("singular reference")?;
    let dx = &inv * n;
    // In units of the standard deviation of the solution.
    for j in 0..6 {
        let sd = inv[(j, j)].sqrt();
        let lim = if lm { 2e-2 } else { 2e-3 };
        t.ensure(dx[j].abs() < lim * sd + if j < 3 { 5e-6 } else { 5e-9 }, || {
            format!("the estimate is not the least squares minimum: component {j} still wants a correction of {:e} (sigma {sd:e})", dx[j])
        })?;
        for k in 0..6 {
            let sc = (inv[(j, j)] * inv[(k, k)]).sqrt();
            t.close(&format!("covariance {j},{k} over sigmas"), sol.covariance[(j, k)] / sc, inv[(j, k)] / sc, if lm { 2e-2 } else { 1e-3 })?;
        }
    }
    // As the start of a filter: the same state and covariance, which knows the rest of the spacecraft exactly.
    let kf: KfEstimate<Spacecraft> = sol.clone().into();
    t.ensure(kf.nominal_state == x && kf.state_deviation.norm() == 0.0, || "the filter estimate does not start from the solution".into())?;
    for j in 0..9 {
        for k in 0..9 {
            let want = if j < 6 && k < 6 { sol.covariance[(j, k)] } else { 0.0 };
            t.ensure(kf.covar[(j, k)] == want && kf.covar_bar[(j, k)] == want, || format!("filter covariance {j},{k} is {:e} instead of {want:e}", kf.covar[(j, k)]))?;
        }
    }
    let cnt = v.iter().filter(|o| !o.rejected).count() as f64;
    let rms = |z: &DVector<f64>| (z.norm_squared() / cnt).sqrt();
    t.close("final RMS", sol.final_rms, rms(&z), 1e-4 * rms(&z).max(1.0))?;
    let ev = blse.evaluate(x, &arc).map_err(|e| format!("evaluate: {e}"))?;
    t.close("evaluated RMS of the estimate", ev, rms(&z), 1e-5 * rms(&z).max(1.0))?;
    let (zg, _) = linearize(v, guess.orbit.radius_km, guess.orbit.velocity_km_s);
    let ev = blse.evaluate(guess, &arc).map_err(|e| format!("evaluate: {e}"))?;
    t.close("evaluated RMS of the guess", ev, rms(&zg), 1e-5 * rms(&zg).max(1.0))?;
    Ok(())
}

pub fn c17(tier: Tier) -> Space {
    let mut sp = Space::new(
        "arcs of two trackers x positions of one or two special measurements (concurrent trackers, rejected, unknown, unseen, partial, early, off-grid, outlying) x types x solver x maximum step x initial error x first epoch: estimate is the least squares minimum of the used measurements, covariance its inverse information, RMS theirs",
    );
    let n = tier.pick(9, 14);
    let type_sets: [(&str, Vec<M>); 3] = [("rd", vec![M::Range, M::Doppler]), ("r", vec![M::Range]), ("dr", vec![M::Doppler, M::Range])];
    let mut plans: Vec<(String, Vec<(usize, Special)>)> = vec![("none".into(), vec![(0, Special::None)])];
    for (name, k) in SPECIALS {
        for i in 0..n {
            plans.push((format!("{name}@{i}"), vec![(i, k)]));
        }
    }
    // Pairs: every two kinds, at the same and at different positions.
    for (na, a) in SPECIALS {
        for (nb, b) in SPECIALS {
            for (i, j) in tier.pick(vec![(0, 0), (2, n - 1)], vec![(0, 0), (2, n - 1), (3, 3), (n - 1, 1), (0, 5), (6, 7)]) {
                if na <= nb {
                    plans.push((format!("{na}@{i}+{nb}@{j}"), vec![(i, a), (j, b)]));
                }
            }
        }
    }
    for (tn, types) in type_sets {
        for (pname, plan) in &plans {
            for lm in [false, true] {
                for (vi, (gap, first, max_step, err)) in
                    [(300.0, 0.0, 30.0, 1.0), (300.0, 250.0, 30.0, 0.2), (207.0, 0.0, 600.0, 3.0), (300.0, 0.0, 7.0, 1.0)].into_iter().enumerate()
                {
                    if !tier.thorough() && (vi == 3 || (tn != "rd" && vi != 0) || (lm && vi != 0)) {
                        continue;
                    }
                    let (types, plan) = (types.clone(), plan.clone());
                    sp.push(format!("{tn}/{pname}/{}/{vi}", if lm { "lm" } else { "ne" }), move |t| {
                        let v = arc_obs(n, gap, first, &types, &plan);
                        run(t, &v, &types, lm, max_step, err)
                    });
                }
            }
        }
    }
    // Every damping leads to the same minimum, with its undamped covariance.
    let dampings: [(&str, Damping); 8] = [
        ("default", DAMPING),
        ("light", (1e-3, 10.0, 10.0, 1e-12, 1e12, true)),
        ("slow", (10.0, 2.0, 3.0, 1e-12, 1e12, true)),
        ("floor", (10.0, 10.0, 10.0, 1e-4, 1e12, true)),
        ("constant", (1e-4, 10.0, 10.0, 1e-4, 1e-4, true)),
        ("heavy", (1e3, 10.0, 10.0, 1e-12, 1e12, true)),
        ("identity", (10.0, 10.0, 10.0, 1e-12, 1e12, false)),
        ("identity-heavy", (1e4, 10.0, 2.0, 1.0, 1e6, false)),
    ];
    for (tn, types) in [("rd", vec![M::Range, M::Doppler]), ("r", vec![M::Range])] {
        for (dn, d) in dampings {
            for (ei, err) in [0.0, 0.01, 1.0, 10.0, 50.0, 200.0].into_iter().enumerate() {
                for (pname, plan) in [("none", vec![(0, Special::None)]), ("two", vec![(1, SPECIALS[0].1), (4, SPECIALS[1].1)])] {
                    let types = types.clone();
                    sp.push(format!("damping/{tn}/{dn}/{ei}/{pname}"), move |t| {
                        let v = arc_obs(n, 300.0, 0.0, &types, &plan);
                        run_damped(t, &v, &types, true, 30.0, err, d)
                    });
                }
            }
        }
    }
    // Too few usable measurements, an absurd measurement: errors.
    sp.push("errors", move |t| {
        let types = vec![M::Range, M::Doppler];
        let mut devs = BTreeMap::new();
        devs.insert("A".to_string(), dev("A", A, &types, &[]));
        let blse = BatchLeastSquares::<SpacecraftDynamics, Dev>::builder().prop(od_prop(None)).devices(devs).almanac(almanac()).build();
        let guess = sc(zoo(3));
        let all: Vec<Obs> = (0..4).map(|i| obs(60.0 * i as f64, "A", &types, 0.0, i)).collect();
        for keep in 0..4usize {
            let v: Vec<Obs> = all.iter().enumerate().map(|(i, o)| Obs { rejected: i >= keep, ..o.clone() }).collect();
            let e = blse.estimate(guess, &to_arc(&v));
            t.step();
            t.ensure(e.is_err() == (keep < 2), || format!("estimate with {keep} measurements: error {}", e.is_err()))?;
            let e = blse.evaluate(guess, &to_arc(&v));
            t.ensure(e.is_err() == (keep < 1), || format!("evaluate with {keep} measurements: error {}", e.is_err()))?;
        }
        for bad in [f64::NAN, f64::INFINITY] {
            for i in 0..4 {
                let mut v = all.clone();
                v[i].vals[0].1 = bad;
                t.step();
                t.ensure(blse.estimate(guess, &to_arc(&v)).is_err(), || format!("estimate with a {bad} measurement"))?;
                t.ensure(blse.evaluate(guess, &to_arc(&v)).is_err(), || format!("evaluate with a {bad} measurement"))?;
            }
        }
        Ok(())
    });
    sp
}
