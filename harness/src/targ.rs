//! C31: differential correction.
use crate::core::*;
use crate::guid::axes;
use crate::mc::{b_plane, param, wrapped};
use crate::prop::{Faulty, dyn_by_name, two_body};
use crate::world::*;
use anise::analysis::prelude::OrbitalElement as OE;
use anise::constants::frames::MOON_J2000;
use anise::prelude::{Frame, Orbit};
use nalgebra::{DMatrix, Vector3};
use nyx_space::Spacecraft;
use nyx_space::State;
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::dynamics::{OrbitalDynamics, SpacecraftDynamics};
use nyx_space::md::StateParameter as SP;
use nyx_space::md::objective::Objective;
use nyx_space::md::targeter::Targeter;
use nyx_space::md::{Variable, Vary};
use nyx_space::md::opti::multipleshooting::CostFunction;
use nyx_space::md::opti::multishoot::MultipleShooting;
use nyx_space::propagators::Propagator;
use std::sync::Arc;
use std::sync::atomic::AtomicUsize;

#[derive(Clone)]
struct Problem {
    vars: Vec<Variable>,
    objs: Vec<Objective>,
    cf: Option<LocalFrame>,
    of: Option<Frame>,
    dual: bool,
    iterations: usize,
    /// Correction epoch, achievement epoch
    at: f64,
    by: f64,
}
struct Solved {
    corrected: Spacecraft,
    achieved: Spacecraft,
    correction: Vec<f64>,
    errors: Vec<f64>,
    applied: Result<Spacecraft, String>,
    iterations: usize,
    text: String,
}

fn run<const V: usize, const O: usize>(p: &Problem, prop: &Propagator<SpacecraftDynamics>, x0: Spacecraft) -> Result<Solved, String> {
    let tg = Targeter::<V, O> {
        prop,
        objectives: p.objs.clone().try_into().unwrap(),
        variables: p.vars.clone().try_into().unwrap(),
        objective_frame: p.of,
        correction_frame: p.cf,
        iterations: p.iterations,
    };
    let _ = tg.to_string();
    let (a, b) = (t0() + s(p.at), t0() + s(p.by));
    let sol = if p.dual { tg.try_achieve_dual(x0, a, b, almanac()) } else { tg.try_achieve_from(x0, a, b, almanac()) }.map_err(|e| e.to_string())?;
    Ok(Solved {
        applied: tg.apply(&sol, almanac()).map_err(|e| e.to_string()),
        corrected: sol.corrected_state,
        achieved: sol.achieved_state,
        correction: sol.correction.iter().copied().collect(),
        errors: sol.achieved_errors.iter().copied().collect(),
        iterations: sol.iterations,
        text: sol.to_string(),
    })
}
fn solve(p: &Problem, prop: &Propagator<SpacecraftDynamics>, x0: Spacecraft) -> Result<Solved, String> {
    match (p.vars.len(), p.objs.len()) {
        (1, 1) => run::<1, 1>(p, prop, x0),
        (1, 2) => run::<1, 2>(p, prop, x0),
        (2, 1) => run::<2, 1>(p, prop, x0),
        (2, 2) => run::<2, 2>(p, prop, x0),
        (3, 1) => run::<3, 1>(p, prop, x0),
        (3, 2) => run::<3, 2>(p, prop, x0),
        (3, 3) => run::<3, 3>(p, prop, x0),
        (6, 1) => run::<6, 1>(p, prop, x0),
        (6, 3) => run::<6, 3>(p, prop, x0),
        _ => unreachable!(),
    }
}

fn slot(v: Vary) -> usize {
    match v {
        Vary::PositionX => 0,
        Vary::PositionY => 1,
        Vary::PositionZ => 2,
        Vary::VelocityX => 3,
        Vary::VelocityY => 4,
        Vary::VelocityZ => 5,
        _ => unreachable!(),
    }
}
type Rv = (Vector3<f64>, Vector3<f64>);
/// Applies the corrections in their frame.
fn correct(x: Rv, vars: &[Variable], cf: Option<LocalFrame>, d: &[f64]) -> Rv {
    let m = axes(cf.unwrap_or(LocalFrame::Inertial), x.0, x.1);
    let (mut r, mut v) = x;
    for (k, var) in vars.iter().enumerate() {
        let i = slot(var.component);
        if i < 3 {
            r[i] += d[k]
        } else {
            v += m.column(i - 3) * d[k]
        }
    }
    (r, v)
}
fn rv(o: &Orbit) -> Rv {
    (o.radius_km, o.velocity_km_s)
}
/// In the objective frame: shapes are the same around any center if the velocities are scaled.
fn seen(p: &Problem, x: Rv) -> Rv {
    if p.of.is_some() {
        let (r, v) = moon_pos_vel(t0() + s(p.by));
        (x.0 - r, (x.1 - v) * (MU / MU_MOON).sqrt())
    } else {
        x
    }
}

/// How the final state follows from the corrected one.
type Fly = Arc<dyn Fn(Rv, f64) -> Rv + Send + Sync>;

/// Whatever is returned does achieve the objectives.
fn judge(t: &mut Tally, p: &Problem, sol: &Solved, x0: Rv, fly: &Fly, loose: f64) -> Result<(), String> {
    let start = fly(x0, p.at);
    let want = correct(start, &p.vars, p.cf, &sol.correction);
    let scale = start.0.norm();
    let vs = start.1.norm();
    t.ensure(sol.corrected.epoch() == t0() + s(p.at), || format!("corrected at {}", sol.corrected.epoch()))?;
    t.ensure(sol.achieved.epoch() == t0() + s(p.by), || format!("achieved at {}", sol.achieved.epoch()))?;
    t.close("corrected position", (sol.corrected.orbit.radius_km - want.0).norm(), 0.0, loose * scale)?;
    t.close("corrected velocity", (sol.corrected.orbit.velocity_km_s - want.1).norm(), 0.0, loose * vs)?;
    let fin = fly(rv(&sol.corrected.orbit), p.by - p.at);
    // Errors grow in flight.
    let grow = 1.0 + ((p.by - p.at) * vs / scale).abs();
    t.close("achieved position", (sol.achieved.orbit.radius_km - fin.0).norm(), 0.0, loose * scale * grow)?;
    t.close("achieved velocity", (sol.achieved.orbit.velocity_km_s - fin.1).norm(), 0.0, loose * vs * grow)?;
    for (k, var) in p.vars.iter().enumerate() {
        let c = sol.correction[k];
        let eps = 1e-12 * (1.0 + c.abs());
        t.ensure(c <= var.max_value + eps && c >= var.min_value - eps, || format!("{:?} of {c} is not in [{}, {}]", var.component, var.min_value, var.max_value))?;
        // As many steps as there were iterations.
        let far = (c - var.init_guess).abs();
        t.ensure(far <= var.max_step * sol.iterations as f64 + eps, || format!("{:?} moved by {far} in {} iterations of at most {}", var.component, sol.iterations, var.max_step))?;
    }
    let (r, v) = seen(p, fin);
    for (k, o) in p.objs.iter().enumerate() {
        let val = param(o.parameter, r, v);
        // How much the value may be off.
        let wob = (0..6)
            .map(|i| {
                let (mut a, mut b) = (r, v);
                let h = if i < 3 { loose * scale * grow } else { loose * vs * grow };
                if i < 3 {
                    a[i] += h
                } else {
                    b[i - 3] += h
                }
                wrapped(o.parameter, param(o.parameter, a, b) - val).abs()
            })
            .sum::<f64>()
            + 1e-9 * (1.0 + val.abs());
        let vscale = match o.parameter {
            SP::Element(OE::VX | OE::VY | OE::VZ | OE::Vmag | OE::HX | OE::HY | OE::HZ | OE::Hmag) if p.of.is_some() => (MU_MOON / MU).sqrt(),
            SP::Element(OE::Energy | OE::C3) if p.of.is_some() => MU_MOON / MU,
            _ => 1.0,
        };
        let val = val * vscale;
        let err = o.multiplicative_factor * (o.desired_value - val) + o.additive_factor;
        let wob = wob * o.multiplicative_factor.abs();
        t.ensure(err.abs() <= o.tolerance + wob, || format!("{:?} is {val} instead of {} +/- {}", o.parameter, o.desired_value, o.tolerance))?;
        t.close("reported error", sol.errors[k], err, wob)?;
        t.see_f(&[val]);
    }
    match &sol.applied {
        Ok(x) => {
            t.close("applied", (x.orbit.radius_km - sol.achieved.orbit.radius_km).norm(), 0.0, loose * scale * grow)?;
            t.ensure(x.epoch() == sol.achieved.epoch(), || format!("applied until {}", x.epoch()))?;
        }
        Err(e) => {
            // Right at the tolerance?
            let edge = p.objs.iter().zip(&sol.errors).any(|(o, e)| e.abs() > 0.99 * o.tolerance);
            t.ensure(edge, || format!("the solution is not one: {e}"))?
        }
    }
    t.ensure(!sol.text.is_empty(), || "no text".into())
}

const VX: Vary = Vary::VelocityX;
const VY: Vary = Vary::VelocityY;
const VZ: Vary = Vary::VelocityZ;
const PX: Vary = Vary::PositionX;
const PY: Vary = Vary::PositionY;
const PZ: Vary = Vary::PositionZ;

fn sets() -> Vec<(&'static str, Vec<Vary>)> {
    vec![
        ("v", vec![VX, VY, VZ]),
        ("vxy", vec![VX, VY]),
        ("vzx", vec![VZ, VX]),
        ("vx", vec![VX]),
        ("vy", vec![VY]),
        ("vz", vec![VZ]),
        ("p", vec![PX, PY, PZ]),
        ("py", vec![PY]),
        ("pzvx", vec![PZ, VX]),
        ("all", vec![PX, PY, PZ, VX, VY, VZ]),
    ]
}
fn goals() -> Vec<Vec<OE>> {
    vec![
        vec![OE::SemiMajorAxis],
        vec![OE::Eccentricity],
        vec![OE::Inclination],
        vec![OE::RAAN],
        vec![OE::AoP],
        vec![OE::X],
        vec![OE::VY],
        vec![OE::Rmag],
        vec![OE::PeriapsisRadius],
        vec![OE::ApoapsisRadius],
        vec![OE::Declination],
        vec![OE::Period],
        vec![OE::C3],
        vec![OE::HZ],
        vec![OE::SemiMajorAxis, OE::Eccentricity],
        vec![OE::Inclination, OE::SemiMajorAxis],
        vec![OE::Z, OE::X],
        vec![OE::X, OE::Y, OE::Z],
        vec![OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination],
        vec![OE::Rmag, OE::HX, OE::VZ],
    ]
}
fn known(v: usize, o: usize) -> bool {
    [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (6, 1), (6, 3)].contains(&(v, o))
}
const CFS: [(&str, Option<LocalFrame>); 5] = [("none", None), ("vnc", Some(LocalFrame::VNC)), ("ric", Some(LocalFrame::RIC)), ("rcn", Some(LocalFrame::RCN)), ("inertial", Some(LocalFrame::Inertial))];

fn var(c: Vary) -> Variable {
    Variable { max_step: 50.0, max_value: 100.0, min_value: -100.0, ..Variable::from(c) }
}
fn small(v: Vary, k: usize) -> f64 {
    let sg = [1.0, -0.7, 0.4, 0.8, -1.1, 0.6][k];
    if slot(v) < 3 { sg * 1.5 } else { sg * 2e-3 }
}
fn tol(e: OE) -> f64 {
    match e {
        OE::Eccentricity => 1e-7,
        OE::Inclination | OE::RAAN | OE::AoP | OE::Declination => 1e-5,
        OE::VX | OE::VY | OE::VZ | OE::C3 => 1e-6,
        OE::HX | OE::HZ => 1e-1,
        _ => 1e-2,
    }
}
fn two(mu: f64) -> Fly {
    Arc::new(move |x: Rv, dt: f64| kepler(mu, x.0, x.1, dt))
}

/// Sensitivity of the objectives to the variables, and its smallest singular value once scaled by the tolerances.
fn reachable(p: &Problem, start: Rv, fly: &Fly) -> (f64, f64) {
    let (v, o) = (p.vars.len(), p.objs.len());
    let f = |d: &[f64]| -> Vec<f64> {
        let x = fly(correct(start, &p.vars, p.cf, d), p.by - p.at);
        let (r, v) = seen(p, x);
        p.objs.iter().map(|ob| param(ob.parameter, r, v)).collect()
    };
    let mut j = DMatrix::zeros(o, v);
    for k in 0..v {
        let h = if slot(p.vars[k].component) < 3 { 1e-2 } else { 1e-5 };
        let mut d = vec![0.0; v];
        d[k] = h;
        let a = f(&d);
        d[k] = -h;
        let b = f(&d);
        for i in 0..o {
            // Per unit of what the secret change is.
            j[(i, k)] = wrapped(p.objs[i].parameter, a[i] - b[i]) / 2.0 / h * small(p.vars[k].component, k).abs();
        }
    }
    for i in 0..o {
        let n = j.row(i).norm();
        if n < 10.0 * p.objs[i].tolerance {
            return (0.0, 1.0);
        }
        j.row_mut(i).unscale_mut(n);
    }
    let sv = j.singular_values();
    (sv.min(), sv.max())
}

/// Zenith and geodetic altitude of a point fixed to the Earth.
fn geodetic(r: Vector3<f64>) -> (Vector3<f64>, f64) {
    let p = (r.x * r.x + r.y * r.y).sqrt();
    let lon = r.y.atan2(r.x);
    let mut lat = r.z.atan2(p);
    for _ in 0..60 {
        let (g, [_, _, z]) = crate::dev::site(lat.to_degrees(), lon.to_degrees(), 0.0, RE, RP);
        let d = r - g;
        // Tilt towards the point.
        let up = d.normalize();
        let n = Vector3::new(-lat.sin() * lon.cos(), -lat.sin() * lon.sin(), lat.cos());
        lat += up.dot(&n).atan2(up.dot(&z)) * d.norm() / (d.norm() + RE);
    }
    let (g, [_, _, z]) = crate::dev::site(lat.to_degrees(), lon.to_degrees(), 0.0, RE, RP);
    (z, (r - g).dot(&z))
}

fn kepler_sma(o: &Orbit) -> f64 {
    1.0 / (2.0 / o.radius_km.norm() - o.velocity_km_s.norm_squared() / MU)
}

pub fn c31(tier: Tier) -> Space {
    let mut sp = Space::new("sets of variables x sets of objectives x correction frames x orbits x correction and achievement epochs x both targeters; guesses, steps, bounds, factors and iterations; every fault point of the dynamics; invalid problems");
    sp.hang_s = 120.0;
    let spans: Vec<(f64, f64)> = tier.pick(vec![(0.0, 0.3), (0.1, 0.1)], vec![(0.0, 0.3), (0.1, 0.1), (0.05, 0.9), (-0.2, 0.15), (0.2, -0.1), (0.0, 1.6)]);
    let orbits: Vec<usize> = tier.pick(vec![1, 3], vec![0, 1, 3, 4]);
    let prop = || Propagator::default(two_body());
    // Objectives by themselves.
    for (oi, (on, ..)) in ORBITS.iter().enumerate() {
        sp.push(format!("objective/{on}"), move |t| {
            let x = sc(zoo(oi));
            for e in [OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::Rmag, OE::VX, OE::Y] {
                let p = SP::Element(e);
                let got = param(p, x.orbit.radius_km, x.orbit.velocity_km_s);
                let plain = Objective::new(p, got);
                t.ensure(plain.multiplicative_factor == 1.0 && plain.additive_factor == 0.0 && plain.desired_value == got, || format!("{plain:?}"))?;
                for off in [0.0, 0.5, -0.5, 1.0, 2.0, -2.0, -7.0] {
                    for mf in [1.0, -1.0, 0.01, 50.0] {
                        for af in [0.0, 3.0, -20.0] {
                            for tol in [0.25, 1.0, 5.0, 1000.0] {
                                let o = Objective { multiplicative_factor: mf, additive_factor: af, ..Objective::within_tolerance(p, got + off, tol) };
                                t.ensure(o.parameter == p && o.tolerance == tol, || format!("{o:?}"))?;
                                let want = mf * off + af;
                                let (ok, err) = o.assess_value(got);
                                let (ok2, err2) = o.assess(&x).map_err(|e| e.to_string())?;
                                t.step();
                                t.see_f(&[err]);
                                t.close("error of the objective", err, want, 1e-6)?;
                                t.close("error of the objective for a spacecraft", err2, want, 1e-6)?;
                                if (want.abs() - tol).abs() > 1e-5 {
                                    t.ensure(ok == (want.abs() <= tol) && ok2 == ok, || format!("error of {err} within {tol}: {ok} {ok2}"))?;
                                }
                            }
                        }
                    }
                }
            }
            // The boundary belongs to the tolerance.
            for (d, a, tol) in [(5.0, 4.0, 1.0), (-2.5, -2.0, 0.5), (0.0, 0.0, 0.0)] {
                t.ensure(Objective::within_tolerance(SP::Element(OE::Rmag), d, tol).assess_value(a).0, || format!("{a} is not within {tol} of {d}"))?;
            }
            t.ensure(!Objective::within_tolerance(SP::Element(OE::Rmag), 1.0, 1.0).assess_value(f64::NAN).0, || "NaN achieves an objective".into())
        });
    }
    for v in product(&[sets().len(), goals().len(), CFS.len(), orbits.len(), spans.len(), 2]) {
        let (sn, vs) = &sets()[v[0]];
        let gs = goals()[v[1]].clone();
        let (cn, cf) = CFS[v[2]];
        let oi = orbits[v[3]];
        let (a, b) = spans[v[4]];
        let dual = v[5] == 1;
        if !known(vs.len(), gs.len()) || (cf.is_some() && vs.iter().any(|x| slot(*x) < 3)) {
            continue;
        }
        // The quick tier takes the second orbit and span for the full velocity only.
        if !tier.thorough() && v[3] + v[4] > 0 && *sn != "v" && v[2] > 1 {
            continue;
        }
        let vs = vs.clone();
        let names: Vec<String> = gs.iter().map(|g| format!("{g:?}")).collect();
        sp.push(format!("reach/{sn}/{}/{cn}/{}/{a}+{b}/{}", names.join("-"), ORBITS[oi].0, if dual { "dual" } else { "fd" }), move |t| {
            let o = zoo(oi);
            let per = std::f64::consts::TAU * (ORBITS[oi].1.powi(3) / MU).sqrt();
            let at = (a * per).round();
            let mut p = Problem { vars: vs.iter().map(|c| var(*c)).collect(), objs: vec![], cf, of: None, dual, iterations: 50, at, by: at + (b * per).round() };
            let fly = two(MU);
            let start = fly(rv(&o), at);
            // A problem of which a solution is known.
            let secret: Vec<f64> = vs.iter().enumerate().map(|(k, c)| small(*c, k)).collect();
            let (fr, fv) = fly(correct(start, &p.vars, cf, &secret), p.by - at);
            p.objs = gs.iter().map(|g| Objective::within_tolerance(SP::Element(*g), param(SP::Element(*g), fr, fv), tol(*g))).collect();
            t.step();
            let sv = reachable(&p, start, &fly);
            match solve(&p, &prop(), sc(o)) {
                Ok(sol) => judge(t, &p, &sol, rv(&o), &fly, 1e-9),
                // The apsides of a circle move by leaps.
                Err(e) => t.ensure(sv.0 < 0.05 * sv.1 || sv.0 < 1e-3 || (ORBITS[oi].2 < 0.01 && gs.iter().any(|g| matches!(g, OE::PeriapsisRadius | OE::ApoapsisRadius | OE::Eccentricity | OE::AoP))), || format!("not found: {e} (singular values {sv:?})")),
            }
        });
    }
    // Guesses, steps, bounds, factors and number of iterations
    let kinds: Vec<(&str, Vec<Vary>)> = vec![("v", vec![VX, VY, VZ]), ("vzx", vec![VZ, VX]), ("vy", vec![VY]), ("p", vec![PX, PY, PZ]), ("pyvz", vec![PY, VZ]), ("vxpz", vec![VX, PZ])];
    for v in product(&[kinds.len(), 3, 4, 5, 4, 3, 2]) {
        let (kn, vs) = kinds[v[0]].clone();
        let cf = [None, Some(LocalFrame::VNC), Some(LocalFrame::RIC)][v[1]];
        let guess = [0.0, 0.5, 1.0, -2.0][v[2]];
        let bound = [100.0, 2.5, 1.0, 0.6, 0.0][v[3]];
        let step = [50.0, 0.4, 0.05, 0.0][v[4]];
        let iters = [60, 3, 0][v[5]];
        let dual = v[6] == 1;
        if v[0] > 2 && v[1] > 0 {
            // Positions are corrected in the inertial frame only.
            continue;
        }
        if !tier.thorough() && (v[1] + v[4] + v[5]) % 3 != 0 && v[0] > 0 {
            continue;
        }
        for (fi, (mf, af)) in if tier.thorough() || (v[0] == 0 && v[1] + v[5] == 0) { vec![(1.0, 0.0), (0.01, 0.0), (-1.0, 0.0), (1.0, 3.0), (50.0, -20.0)] } else { vec![(1.0, 0.0)] }.into_iter().enumerate() {
            let vs = vs.clone();
            sp.push(format!("limits/{kn}/{}/{guess}/{bound}/{step}/{iters}/{}/{fi}", CFS[v[1]].0, if dual { "dual" } else { "fd" }), move |t| {
                let o = zoo(3);
                let fly = two(MU);
                let (at, by) = (600.0, 2500.0);
                let start = fly(rv(&o), at);
                // Larger corrections: tens of m/s.
                let secret: Vec<f64> = vs.iter().enumerate().map(|(k, c)| small(*c, k) * 20.0).collect();
                let vars: Vec<Variable> = vs
                    .iter()
                    .zip(&secret)
                    .map(|(c, d)| Variable { init_guess: guess * d, max_step: step * d.abs(), max_value: bound * d.abs(), min_value: -bound * d.abs(), ..Variable::from(*c) })
                    .collect();
                let mut p = Problem { vars, objs: vec![], cf, of: None, dual, iterations: iters, at, by };
                let (fr, fv) = fly(correct(start, &p.vars, cf, &secret), by - at);
                let gs: &[OE] = &[OE::X, OE::Y, OE::Z][..vs.len()];
                p.objs = gs.iter().map(|g| Objective { multiplicative_factor: mf, additive_factor: af, ..Objective::within_tolerance(SP::Element(*g), param(SP::Element(*g), fr, fv) - if af != 0.0 { af / mf } else { 0.0 }, 1e-3 * mf.abs()) }).collect();
                t.step();
                let outside = guess.abs() > bound;
                match solve(&p, &Propagator::default(two_body()), sc(o)) {
                    Ok(sol) => {
                        t.ensure(sol.iterations <= iters, || format!("{} iterations out of {iters}", sol.iterations))?;
                        let mut q = p.clone();
                        if outside {
                            for x in &mut q.vars {
                                x.max_value = x.max_value.max(x.init_guess.abs());
                                x.min_value = -x.max_value;
                                x.max_step = 1e9;
                            }
                        }
                        judge(t, &q, &sol, rv(&o), &fly, 1e-9)
                    }
                    Err(e) => {
                        let fair = mf == 1.0 && !outside && bound >= 1.0 && iters == 60 && (step > 0.3 || guess == 1.0) || guess == 1.0;
                        t.ensure(!fair || (af != 0.0 || mf != 1.0), || format!("not found: {e}"))
                    }
                }
            });
        }
    }
    // Objectives around the Moon, while integrating around the Earth
    for v in product(&[4, 2, 2, 5, 2]) {
        let (ang, dt, dual) = ([10.0f64, 100.0, 190.0, 280.0][v[0]], [3000.0, 20000.0][v[1]], v[2] == 1);
        let cf = CFS[v[3]].1;
        let what = v[4];
        sp.push(format!("moon/{ang}/{dt}/{}/{}/{what}", if dual { "dual" } else { "fd" }, CFS[v[3]].0), move |t| {
            let (mr, mv) = moon_pos_vel(t0());
            let (sn, cs) = ang.to_radians().sin_cos();
            let r = Vector3::new(-40000.0 * cs, -40000.0 * sn, 9000.0);
            let vel = Vector3::new(1.1 * cs - 0.1 * sn, 1.1 * sn + 0.1 * cs, -0.12);
            let o = Orbit::new(mr.x + r.x, mr.y + r.y, mr.z + r.z, mv.x + vel.x, mv.y + vel.y, mv.z + vel.z, t0(), almanac().frame_info(anise::constants::frames::EARTH_J2000).unwrap());
            let fly: Fly = Arc::new(move |x: Rv, d: f64| {
                // Sun and Moon pull.
                let dyn_ = Propagator::default(dyn_by_name("point-masses"));
                let at = if d == dt { t0() } else { t0() };
                let mut q = o;
                q.radius_km = x.0;
                q.velocity_km_s = x.1;
                q.epoch = at;
                rv(&dyn_.with(sc(q), almanac()).for_duration(s(d)).unwrap().orbit)
            });
            let mut p = Problem { vars: [VX, VY, VZ].map(var).to_vec(), objs: vec![], cf, of: Some(almanac().frame_info(MOON_J2000).unwrap()), dual, iterations: 50, at: 0.0, by: dt };
            let secret = [2e-3, -1.5e-3, 1e-3];
            let fin = fly(correct(rv(&o), &p.vars, cf, &secret), dt);
            let (r, v) = seen(&p, fin);
            p.objs = if what == 0 {
                let (br, bt) = b_plane(r, v);
                vec![Objective::within_tolerance(SP::BdotR(), br, 0.05), Objective::within_tolerance(SP::BdotT(), bt, 0.05)]
            } else {
                vec![Objective::within_tolerance(SP::Element(OE::PeriapsisRadius), param(SP::Element(OE::PeriapsisRadius), r, v), 0.05), Objective::within_tolerance(SP::Element(OE::Inclination), param(SP::Element(OE::Inclination), r, v), 1e-4)]
            };
            t.step();
            let sol = solve(&p, &Propagator::default(dyn_by_name("point-masses")), sc(o)).map_err(|e| format!("not found: {e}"))?;
            judge(t, &p, &sol, rv(&o), &fly, 1e-9)
        });
    }
    // Faults: whenever the dynamics fail, an error, or a solution.
    for v in product(&[tier.pick(40, 400), 2, 2]) {
        let (n, dual, cf) = (v[0] * tier.pick(37, 7), v[1] == 1, [None, Some(LocalFrame::VNC)][v[2]]);
        sp.push(format!("fault/{n}/{}/{}", if dual { "dual" } else { "fd" }, v[2]), move |t| {
            let o = zoo(3);
            let fly = two(MU);
            let mut p = Problem { vars: [VX, VY, VZ].map(var).to_vec(), objs: vec![], cf, of: None, dual, iterations: 50, at: 60.0, by: 1500.0 };
            let start = fly(rv(&o), p.at);
            let (fr, fv) = fly(correct(start, &p.vars, cf, &[0.01, 0.02, -0.01]), p.by - p.at);
            p.objs = [OE::X, OE::Y].iter().map(|g| Objective::within_tolerance(SP::Element(*g), param(SP::Element(*g), fr, fv), 1e-2)).collect();
            let f = Faulty { calls: Arc::new(AtomicUsize::new(0)), fail_at: n, len: usize::MAX / 2, nan: false };
            t.step();
            let calls = f.calls.clone();
            let dy = SpacecraftDynamics::new(OrbitalDynamics::new(vec![Arc::new(f)]));
            match solve(&p, &Propagator::default(dy), sc(o)) {
                Ok(mut sol) => {
                    // Only the verification may have failed.
                    if sol.applied.is_err() {
                        sol.applied = Ok(sol.achieved);
                    }
                    judge(t, &p, &sol, rv(&o), &fly, 1e-9)
                }
                Err(_) => t.ensure(calls.load(std::sync::atomic::Ordering::SeqCst) > n, || "failed without a fault".into()),
            }
        });
    }
    // Problems which make no sense.
    for dual in [false, true] {
        let dn = if dual { "dual" } else { "fd" };
        for (i, par) in [SP::Cr(), SP::PropMass(), SP::Cd(), SP::TotalMass()].into_iter().enumerate() {
            sp.push(format!("invalid/objective/{i}/{dn}"), move |t| {
                let p = Problem { vars: vec![var(VX)], objs: vec![Objective::within_tolerance(par, 1.0, 0.1)], cf: None, of: None, dual, iterations: 5, at: 0.0, by: 100.0 };
                t.step();
                t.ensure(solve(&p, &prop(), sc(zoo(0))).is_err(), || format!("targeted {par:?}"))
            });
        }
        for (i, bad) in [Variable { max_step: -1.0, ..var(VX) }, Variable { max_value: -1.0, min_value: -2.0, ..var(VX) }, Variable { max_value: 1.0, min_value: 2.0, ..var(VX) }].into_iter().enumerate() {
            sp.push(format!("invalid/variable/{i}/{dn}"), move |t| {
                let p = Problem { vars: vec![bad], objs: vec![Objective::within_tolerance(SP::Element(OE::SemiMajorAxis), 7000.0, 0.1)], cf: None, of: None, dual, iterations: 5, at: 0.0, by: 100.0 };
                t.step();
                t.ensure(solve(&p, &prop(), sc(zoo(0))).is_err(), || "accepted".into())
            });
        }
        for (i, (cn, cf)) in CFS.into_iter().enumerate().skip(1) {
            sp.push(format!("invalid/position/{cn}/{dn}"), move |t| {
                let _ = i;
                for c in [PX, PY, PZ] {
                    let p = Problem { vars: vec![var(c)], objs: vec![Objective::within_tolerance(SP::Element(OE::SemiMajorAxis), 7000.0, 0.1)], cf, of: None, dual, iterations: 5, at: 0.0, by: 100.0 };
                    t.step();
                    t.ensure(solve(&p, &prop(), sc(zoo(0))).is_err(), || "a position in a local frame".into())?;
                }
                Ok(())
            });
        }
        for (i, (des, tl)) in [(7000.0, 0.0), (1.5e8, 200.0), (0.0, 1e-300), (-4e9, 1e3), (7000.0, 1e9), (7000.0, f64::NAN), (f64::NAN, 1.0), (f64::INFINITY, 1.0)].into_iter().enumerate() {
            for e in [OE::SemiMajorAxis, OE::X] {
                sp.push(format!("invalid/values/{i}/{e:?}/{dn}"), move |t| {
                    let p = Problem { vars: [VX, VY, VZ].map(var).to_vec(), objs: vec![Objective::within_tolerance(SP::Element(e), des, tl)], cf: None, of: None, dual, iterations: 4, at: 0.0, by: 100.0 };
                    t.step();
                    match solve(&p, &prop(), sc(zoo(0))) {
                        Ok(sol) => {
                            t.ensure(tl > 0.0 || tl == 0.0, || "met".into())?;
                            judge(t, &p, &sol, rv(&zoo(0)), &two(MU), 1e-9)
                        }
                        Err(_) => Ok(()),
                    }
                });
            }
        }
        // Out of reach or not defined
        for (i, (e, des)) in [(OE::Eccentricity, -0.5), (OE::Inclination, 400.0), (OE::Rmag, -10.0), (OE::Rmag, 1e6)].into_iter().enumerate() {
            sp.push(format!("invalid/reach/{i}/{dn}"), move |t| {
                let p = Problem { vars: [VX, VY, VZ].map(|c| Variable { max_step: 0.05, ..var(c) }).to_vec(), objs: vec![Objective::within_tolerance(SP::Element(e), des, 1e-3)], cf: None, of: None, dual, iterations: 10, at: 0.0, by: 100.0 };
                t.step();
                t.ensure(solve(&p, &prop(), sc(zoo(0))).is_err(), || format!("{e:?} of {des}"))
            });
        }
        // The B-plane of what may or may not be a hyperbola
        for k in 0..tier.pick(12, 60) {
            sp.push(format!("bplane/{k}/{dn}"), move |t| {
                let mut o = hyperbola();
                let esc = (2.0 * MU / o.radius_km.norm()).sqrt();
                let mul = 1.0 + (k as f64 - 4.0) * tier.pick(2e-5, 5e-6);
                o.velocity_km_s *= esc * mul / o.velocity_km_s.norm();
                let p = Problem { vars: [VX, VY, VZ].map(|c| Variable { perturbation: -1e-3, ..var(c) }).to_vec(), objs: vec![Objective::within_tolerance(SP::BdotR(), 1e5, 10.0), Objective::within_tolerance(SP::BdotT(), 1e5, 10.0)], cf: None, of: None, dual, iterations: 10, at: 0.0, by: 100.0 };
                t.step();
                match solve(&p, &prop(), sc(o)) {
                    Ok(sol) => judge(t, &p, &sol, rv(&o), &two(MU), 1e-9),
                    Err(_) => Ok(()),
                }
            });
        }
        let finite = [Vary::MnvrAlpha, Vary::MnvrAlphaDot, Vary::MnvrAlphaDDot, Vary::MnvrDelta, Vary::MnvrDeltaDot, Vary::MnvrDeltaDDot, Vary::StartEpoch, Vary::Duration, Vary::EndEpoch, Vary::ThrustX, Vary::ThrustY, Vary::ThrustZ, Vary::ThrustLevel, Vary::ThrustRateX, Vary::ThrustRateY, Vary::ThrustRateZ, Vary::ThrustAccelX, Vary::ThrustAccelY, Vary::ThrustAccelZ];
        for c in finite {
            sp.push(format!("invalid/no-thruster/{c:?}/{dn}"), move |t| {
                t.ensure(c.is_finite_burn(), || format!("{c:?} is part of a burn"))?;
                let p = Problem { vars: vec![Variable::from(c)], objs: vec![Objective::within_tolerance(SP::Element(OE::SemiMajorAxis), 7000.0, 0.1)], cf: None, of: None, dual, iterations: 5, at: 0.0, by: 100.0 };
                t.step();
                t.ensure(solve(&p, &prop(), sc(zoo(0))).is_err(), || "burnt without a thruster".into())
            });
        }
    }
    // The named ways to build a targeter, and the flight of its solution.
    for (i, name) in ["delta-v", "delta-r", "vnc", "new", "in-frame", "vnc-components", "thrust-dir", "thrust-rate", "thrust-profile"].into_iter().enumerate() {
        sp.push(format!("construct/{name}"), move |t| {
            let pr = prop();
            let o = zoo(0);
            let sma = kepler_sma(&o) + 3.0;
            let obj = [Objective::within_tolerance(SP::Element(OE::SemiMajorAxis), sma, 1e-3)];
            t.step();
            fn shape<const V: usize>(t: &mut Tally, tg: &Targeter<V, 1>, comps: [Vary; V], cf: Option<LocalFrame>, of: Option<Frame>, sma: f64) -> Result<(), String> {
                t.ensure(tg.variables.iter().map(|v| v.component).eq(comps), || format!("{:?}", tg.variables))?;
                t.ensure(tg.correction_frame == cf && tg.objective_frame == of, || "frames".into())?;
                t.ensure(tg.objectives[0].parameter == SP::Element(OE::SemiMajorAxis) && tg.objectives[0].desired_value == sma && tg.objectives[0].tolerance == 1e-3, || "objectives".into())?;
                t.ensure(tg.variables.iter().all(|v| v.valid().is_ok() && v.init_guess >= v.min_value && v.init_guess <= v.max_value), || "its own variables are refused".into())
            }
            fn go<const V: usize>(t: &mut Tally, tg: &Targeter<V, 1>, x0: Spacecraft, pos: bool) -> Result<(), String> {
                let (a, b) = (x0.epoch() + s(100.0), x0.epoch() + s(2500.0));
                let sol = tg.try_achieve_from(x0, a, b, almanac()).map_err(|e| e.to_string())?;
                let (xf, tr) = tg.apply_with_traj(&sol, almanac()).map_err(|e| e.to_string())?;
                t.ensure(xf == tg.apply(&sol, almanac()).map_err(|e| e.to_string())?, || "applied with and without a trajectory".into())?;
                t.ensure(*tr.first() == sol.corrected_state && *tr.last() == xf && xf.epoch() == b, || "the flight is not from the corrected to the achieved state".into())?;
                for k in 0..5 {
                    let ep = a + s(600.0 * k as f64);
                    let (r, _) = kepler(MU, sol.corrected_state.orbit.radius_km, sol.corrected_state.orbit.velocity_km_s, 600.0 * k as f64);
                    t.close("the flight", (tr.at(ep).map_err(|e| e.to_string())?.orbit.radius_km - r).norm(), 0.0, 1e-3)?;
                }
                let (r, v) = kepler(MU, x0.orbit.radius_km, x0.orbit.velocity_km_s, 100.0);
                let (dr, dv) = ((sol.corrected_state.orbit.radius_km - r).norm(), (sol.corrected_state.orbit.velocity_km_s - v).norm());
                t.ensure(if pos { dr > 0.1 && dv < 1e-8 } else { dr < 1e-6 && dv > 1e-5 }, || format!("moved by {dr} km and {dv} km/s"))
            }
            let comps = [Variable::from(VX), Variable::from(VZ)];
            match i {
                0 => {
                    let tg = Targeter::delta_v(&pr, obj);
                    shape(t, &tg, [VX, VY, VZ], None, None, sma)?;
                    go(t, &tg, sc(o), false)
                }
                1 => {
                    let tg = Targeter::delta_r(&pr, obj);
                    shape(t, &tg, [PX, PY, PZ], None, None, sma)?;
                    go(t, &tg, sc(o), true)
                }
                2 => {
                    let tg = Targeter::vnc(&pr, obj);
                    shape(t, &tg, [VX, VY, VZ], Some(LocalFrame::VNC), None, sma)?;
                    go(t, &tg, sc(o), false)
                }
                3 => {
                    let tg = Targeter::new(&pr, comps, obj);
                    shape(t, &tg, [VX, VZ], None, None, sma)?;
                    go(t, &tg, sc(o), false)
                }
                4 => {
                    let tg = Targeter::in_frame(&pr, comps, obj, earth());
                    shape(t, &tg, [VX, VZ], None, Some(earth()), sma)?;
                    go(t, &tg, sc(o), false)
                }
                5 => {
                    let tg = Targeter::vnc_with_components(&pr, comps, obj);
                    shape(t, &tg, [VX, VZ], Some(LocalFrame::VNC), None, sma)?;
                    go(t, &tg, sc(o), false)
                }
                6 => shape(t, &Targeter::thrust_dir(&pr, obj), [Vary::ThrustX, Vary::ThrustY, Vary::ThrustZ, Vary::ThrustLevel], None, None, sma),
                7 => shape(t, &Targeter::thrust_dir_rate(&pr, obj), [Vary::ThrustX, Vary::ThrustY, Vary::ThrustZ, Vary::ThrustLevel, Vary::ThrustRateX, Vary::ThrustRateY, Vary::ThrustRateZ], None, None, sma),
                _ => shape(t, &Targeter::thrust_profile(&pr, obj), [Vary::ThrustX, Vary::ThrustY, Vary::ThrustZ, Vary::ThrustLevel, Vary::ThrustRateX, Vary::ThrustRateY, Vary::ThrustRateZ, Vary::ThrustAccelX, Vary::ThrustAccelY, Vary::ThrustAccelZ], None, None, sma),
            }
        });
    }
    // Bounds
    for (i, (lo, hi)) in [(-5.0, 5.0), (0.0, 0.0), (-3.0, -1.0), (1.0, 2.0), (f64::NEG_INFINITY, f64::INFINITY)].into_iter().enumerate() {
        sp.push(format!("bounds/{i}"), move |t| {
            let v = Variable::from(VX).with_min(lo).with_max(hi).with_pert(0.7).with_initial_guess(0.3);
            t.ensure((v.min_value, v.max_value, v.perturbation, v.init_guess, v.component) == (lo, hi, 0.7, 0.3, VX), || format!("{v:?}"))?;
            for x in [-1e9, -5.0001, -5.0, -4.9, -3.0, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 5.0, 5.0001, 1e9] {
                t.step();
                let want = if x > hi { hi } else if x < lo { lo } else { x };
                let mut y = x;
                v.ensure_bounds(&mut y);
                t.ensure(v.apply_bounds(x) == want && v.check_bounds(x) == (want, want == x) && y == want, || format!("{x} in [{lo}, {hi}]"))?;
            }
            Ok(())
        });
    }
    // Multiple shooting
    for v in product(&[tier.pick(3, 5), tier.pick(2, 4), 3, 2]) {
        let (n, oi, frac, cost) = (3 + v[0], [1, 3, 0, 4][v[1]], [0.08, 0.15, 0.3][v[2]], v[3]);
        sp.push(format!("shoot/{n}/{}/{frac}/{cost}", ORBITS[oi].0), move |t| {
            let o = zoo(oi);
            let per = std::f64::consts::TAU * (ORBITS[oi].1.powi(3) / MU).sqrt();
            let dt = (frac * per).round();
            let (fr, fv) = kepler(MU, o.radius_km, o.velocity_km_s, dt);
            let goal = fr + Vector3::new(20.0, -35.0, 10.0);
            let xf = Orbit::new(goal.x, goal.y, goal.z, fv.x, fv.y, fv.z, t0() + s(dt), earth());
            let pr = Propagator::default(two_body());
            let mut ms = MultipleShooting::equidistant_nodes(sc(o), xf, n, &pr).map_err(|e| e.to_string())?;
            t.ensure(ms.targets.len() == n, || format!("{} nodes", ms.targets.len()))?;
            for (k, nd) in ms.targets.iter().enumerate() {
                let f = (k + 1) as f64 / n as f64;
                let want = o.radius_km + (goal - o.radius_km) * f;
                t.close("node", (Vector3::new(nd.x, nd.y, nd.z) - want).norm(), 0.0, 1e-8 * goal.norm())?;
                t.close("node epoch", (nd.epoch - t0()).to_seconds(), dt * f, 1e-7)?;
            }
            t.step();
            let c = if cost == 0 { CostFunction::MinimumEnergy } else { CostFunction::MinimumFuel };
            let sol = match ms.solve(c, almanac()) {
                Ok(sol) => sol,
                Err(e) => return t.ensure(n > 3 || frac > 0.1 || oi == 4, || format!("not found: {e}")),
            };
            t.ensure(sol.solutions.len() == n && sol.nodes.len() == n, || "a leg per node".into())?;
            // The ends do not move.
            let last = sol.nodes[n - 1];
            t.close("destination", (Vector3::new(last.x, last.y, last.z) - goal).norm(), 0.0, 1e-8 * goal.norm())?;
            let trajs = sol.build_trajectories(&pr, almanac()).map_err(|e| e.to_string())?;
            t.ensure(trajs.len() == n, || "a trajectory per leg".into())?;
            let mut x = rv(&o);
            let mut at = t0();
            let tl = Objective::new(SP::Element(OE::X), 0.0).tolerance;
            for k in 0..n {
                let (leg, nd) = (&sol.solutions[k], sol.nodes[k]);
                t.step();
                t.ensure(leg.corrected_state.epoch() == at && leg.achieved_state.epoch() == nd.epoch, || format!("leg {k} from {} to {}", leg.corrected_state.epoch(), leg.achieved_state.epoch()))?;
                let dv: Vec<f64> = leg.correction.iter().copied().collect();
                let vars: Vec<Variable> = [VX, VY, VZ].map(var).to_vec();
                let c = correct(x, &vars, None, &dv);
                t.close(&format!("departure of leg {k}"), (leg.corrected_state.orbit.radius_km - c.0).norm(), 0.0, 1e-9 * c.0.norm())?;
                t.close(&format!("departure velocity of leg {k}"), (leg.corrected_state.orbit.velocity_km_s - c.1).norm(), 0.0, 1e-9 * c.1.norm())?;
                x = kepler(MU, c.0, c.1, (nd.epoch - at).to_seconds());
                for (i, want) in [nd.x, nd.y, nd.z].into_iter().enumerate() {
                    t.close(&format!("node {k}"), x.0[i], want, tl + 1e-8 * x.0.norm())?;
                }
                let (a, b) = (trajs[k].first(), trajs[k].last());
                t.ensure(a.epoch() == at && b.epoch() == nd.epoch, || format!("trajectory {k} from {} to {}", a.epoch(), b.epoch()))?;
                t.close("flown", (b.orbit.radius_km - x.0).norm(), 0.0, 1e-8 * x.0.norm())?;
                x = rv(&leg.achieved_state.orbit);
                at = nd.epoch;
                t.see_f(&[x.0.x, x.1.x]);
            }
            Ok(())
        });
    }
    // Nodes above the ground track of the ballistic flight.
    for v in product(&[4, ORBITS.len(), 3, 3]) {
        let (n, oi, frac, up) = ([3, 4, 5, 9][v[0]], v[1], [0.05, 0.3, 0.7][v[2]], [300.0, -50.0, 0.0][v[3]]);
        sp.push(format!("altitude/{n}/{}/{frac}/{up}", ORBITS[oi].0), move |t| {
            let o = zoo(oi);
            let per = std::f64::consts::TAU * (ORBITS[oi].1.powi(3) / MU).sqrt();
            let dt = (frac * per).round();
            let (fr, fv) = kepler(MU, o.radius_km, o.velocity_km_s, dt);
            let goal = fr * (1.0 + up / fr.norm());
            let xf = Orbit::new(goal.x, goal.y, goal.z, fv.x, fv.y, fv.z, t0() + s(dt), earth());
            let pr = Propagator::default(two_body());
            let body = almanac().frame_info(anise::constants::frames::IAU_EARTH_FRAME).unwrap();
            let ms = MultipleShooting::linear_altitude_heuristic(sc(o), xf, n, body, &pr, almanac()).map_err(|e| e.to_string())?;
            t.step();
            t.ensure(ms.targets.len() == n, || format!("{} nodes", ms.targets.len()))?;
            let fixed = |e, r: Vector3<f64>| crate::dev::to_fixed(e).0 * r;
            let want_h = geodetic(fixed(xf.epoch, goal)).1;
            for (k, nd) in ms.targets.iter().enumerate() {
                let f = (k + 1) as f64 / n as f64;
                t.close("node epoch", (nd.epoch - t0()).to_seconds(), dt * f, 1e-6)?;
                t.ensure(nd.frame == o.frame, || "frame of the node".into())?;
                let (r, _) = kepler(MU, o.radius_km, o.velocity_km_s, (nd.epoch - t0()).to_seconds());
                let (a, b) = (fixed(nd.epoch, r), fixed(nd.epoch, Vector3::new(nd.x, nd.y, nd.z)));
                let ((up_a, h_a), (up_b, h_b)) = (geodetic(a), geodetic(b));
                t.close("node above the same place", (up_a - up_b).norm(), 0.0, 2e-5)?;
                let (lo, hi) = (h_a.min(want_h), h_a.max(want_h));
                let tol = 1e-5 * r.norm();
                t.ensure(h_b >= lo - tol && h_b <= hi + tol, || format!("node {k} at {h_b} km, from {h_a} to {want_h} km"))?;
                if k + 1 == n {
                    t.close("altitude of the last node", h_b, want_h, tol)?;
                }
                t.see_f(&[h_b]);
            }
            t.ensure(MultipleShooting::linear_altitude_heuristic(sc(o), xf, 2, body, &pr, almanac()).is_err(), || "two nodes".into())
        });
    }
    sp.push("invalid/shoot", move |t| {
        let pr = Propagator::default(two_body());
        let mut xf = zoo(0);
        xf.epoch += s(1000.0);
        t.step();
        t.ensure(MultipleShooting::equidistant_nodes(sc(zoo(0)), xf, 5, &pr).is_err(), || "from one point to the same".into())?;
        xf.radius_km.x += 100.0;
        for n in 0..3 {
            t.ensure(MultipleShooting::equidistant_nodes(sc(zoo(0)), xf, n, &pr).is_err(), || format!("{n} nodes"))?;
        }
        Ok(())
    });
    sp
}
