//! C24, C25: finite burns, thrust replay and closed-loop guidance.
use crate::core::*;
use crate::prop::METHODS;
use crate::traj::traj_of;
use crate::world::*;
use anise::analysis::prelude::OrbitalElement as OE;
use hifitime::{Epoch, Unit};
use nalgebra::{Matrix3, Vector3};
use nyx_space::cosmic::{GuidanceMode, Mass};
use nyx_space::dynamics::guidance::*;
use nyx_space::dynamics::{Dynamics, OrbitalDynamics, SolarPressure, SpacecraftDynamics};
use nyx_space::md::StateParameter;
use nyx_space::polyfit::CommonPolynomial as CP;
use nyx_space::propagators::*;
use nyx_space::{Spacecraft, State};
use std::sync::Arc;

const G0: f64 = 9.80665;
const DRY: f64 = 500.0;
/// Part of it is neither structure nor propellant.
const EXTRA: f64 = 35.0;
const PROP: f64 = 200.0;
const THR: Thruster = Thruster { thrust_N: 50.0, isp_s: 300.0 };

fn craft(o: anise::prelude::Orbit, prop: f64, mode: GuidanceMode) -> Spacecraft {
    Spacecraft::builder().orbit(o).mass(Mass { dry_mass_kg: DRY - EXTRA, prop_mass_kg: prop, extra_mass_kg: EXTRA }).thruster(THR).mode(mode).build()
}

/// The axes of a local frame, as columns, from their definitions.
pub fn axes(frame: LocalFrame, r: Vector3<f64>, v: Vector3<f64>) -> Matrix3<f64> {
    let h = r.cross(&v).normalize();
    match frame {
        LocalFrame::Inertial => Matrix3::identity(),
        LocalFrame::RIC | LocalFrame::RCN => Matrix3::from_columns(&[r.normalize(), h.cross(&r.normalize()), h]),
        LocalFrame::VNC => Matrix3::from_columns(&[v.normalize(), h, v.normalize().cross(&h)]),
    }
}

const FRAMES: [(&str, LocalFrame); 4] = [("inertial", LocalFrame::Inertial), ("vnc", LocalFrame::VNC), ("rcn", LocalFrame::RCN), ("ric", LocalFrame::RIC)];

/// A steering: constant, linear or quadratic azimuth and elevation (radians, seconds), or a fixed vector.
#[derive(Clone, Copy)]
enum Steer {
    Vec([f64; 3]),
    Ang([f64; 3], [f64; 3]),
}
fn repr(st: Steer, order: usize) -> MnvrRepr {
    let p = |c: [f64; 3]| match order {
        0 => CP::Constant { a: c[0] },
        1 => CP::Linear { a: c[1], b: c[0] },
        _ => CP::Quadratic { a: c[2], b: c[1], c: c[0] },
    };
    match st {
        Steer::Vec(v) => MnvrRepr::Vector(Vector3::from(v)),
        Steer::Ang(a, e) => MnvrRepr::Angles { azimuth: p(a), elevation: p(e) },
    }
}
fn local_dir(st: Steer, order: usize, t: f64) -> Vector3<f64> {
    match st {
        Steer::Vec(v) => Vector3::from(v),
        Steer::Ang(a, e) => {
            let ev = |c: [f64; 3]| (0..=order).map(|k| c[k] * t.powi(k as i32)).sum::<f64>();
            let (az, el) = (ev(a), ev(e));
            Vector3::new(el.cos() * az.cos(), el.cos() * az.sin(), el.sin())
        }
    }
}

/// The exact motion under a burn on [b0, b1] (seconds), from t = a to t = b.
#[derive(Clone, Copy)]
struct Burn {
    b0: f64,
    b1: f64,
    thr: f64,
    st: Steer,
    order: usize,
    frame: LocalFrame,
    decr: bool,
}
impl Burn {
    fn span(&self, y: &[f64], a: f64, b: f64, on: bool) -> Vec<f64> {
        if a == b {
            return y.to_vec();
        }
        let me = *self;
        let n = (((b - a).abs() / 30.0).ceil() as usize).max(1);
        gbs(
            move |t, y| {
                let (r, v, m) = (v3(&y[0..3]), v3(&y[3..6]), y[6]);
                let mut acc = -MU * r / r.norm().powi(3);
                let mut md = 0.0;
                if on {
                    acc += axes(me.frame, r, v) * local_dir(me.st, me.order, t - me.b0) * (me.thr * THR.thrust_N * 1e-3 / (DRY + m));
                    if me.decr {
                        md = -me.thr * THR.thrust_N / (THR.isp_s * G0);
                    }
                }
                vec![v.x, v.y, v.z, acc.x, acc.y, acc.z, md]
            },
            y,
            a,
            b,
            n,
        )
    }
    /// Through the states of a trajectory: the engine is on during the steps which start in the burn, off during the others.
    fn along(&self, y: &[f64], traj: &nyx_space::md::Trajectory) -> Vec<f64> {
        let at: Vec<f64> = traj.states.iter().map(|x| (x.epoch() - t0()).to_seconds()).collect();
        let mut y = y.to_vec();
        for w in at.windows(2) {
            y = self.span(&y, w[0], w[1], w[0] >= self.b0 && w[0] < self.b1);
        }
        y
    }
    fn law(&self) -> Maneuver {
        Maneuver { start: t0() + s(self.b0), end: t0() + s(self.b1), thrust_prct: self.thr, representation: repr(self.st, self.order), frame: self.frame }
    }
}

fn dynamics(law: Arc<dyn GuidanceLaw>, decr: bool) -> SpacecraftDynamics {
    if decr {
        SpacecraftDynamics::from_guidance_law(OrbitalDynamics::two_body(), law)
    } else {
        SpacecraftDynamics::from_guidance_law_no_decr(OrbitalDynamics::two_body(), law)
    }
}

fn y_of(x: &Spacecraft) -> Vec<f64> {
    let (r, v) = (x.orbit.radius_km, x.orbit.velocity_km_s);
    vec![r.x, r.y, r.z, v.x, v.y, v.z, x.mass.prop_mass_kg]
}

const STEERS: [(&str, Steer, usize); 5] = [
    ("vec", Steer::Vec([0.6, 0.0, 0.8]), 0),
    ("vec-neg", Steer::Vec([-0.48, -0.6, 0.64]), 0),
    ("const", Steer::Ang([0.7, 0.0, 0.0], [-0.4, 0.0, 0.0]), 0),
    ("lin", Steer::Ang([0.7, 3e-3, 0.0], [-0.4, -1e-3, 0.0]), 1),
    ("quad", Steer::Ang([2.0, -3e-3, 1e-5], [0.3, 2e-3, -8e-6]), 2),
];

pub fn c24(tier: Tier) -> Space {
    let mut sp = Space::new(
        "finite burns: every way of cutting the propagation into legs around the ends of the burn x integrator x step mode x initial \
         guidance mode, and every frame x steering x throttle x mass option; non-trivial: the burn is inside of the propagation",
    );
    sp.hang_s = 60.0;
    sp.assumptions.push("adaptive steps resolve the switching of the engine to the minimum step (1 ms); fixed steps land on the ends of the burn".into());

    // (a) legs x integrators
    let cut_at = [50.0, 100.0, 210.0, 340.0, 450.0];
    let base = Burn { b0: 100.0, b1: 340.0, thr: 1.0, st: STEERS[0].1, order: 0, frame: LocalFrame::VNC, decr: true };
    let orbs: Vec<usize> = tier.pick(vec![0], vec![0, 1, 3]);
    for &o in &orbs {
        for (mname, method) in METHODS {
            for fixed in [true, false] {
                if mname == "RK4" && !fixed {
                    continue;
                }
                for mask in 0..32usize {
                    for mode in [GuidanceMode::Coast, GuidanceMode::Thrust] {
                        for one_inst in [true, false] {
                            if !one_inst && (mask == 0 || mode == GuidanceMode::Thrust) {
                                continue;
                            }
                            let key = format!("legs/{}/{mname}/{}/{mask:05b}/{mode:?}/{}", ORBITS[o].0, if fixed { "fixed" } else { "adaptive" }, if one_inst { "one" } else { "fresh" });
                            sp.push(key, move |t: &mut Tally| {
                                let x0 = craft(zoo(o), PROP, mode);
                                let opts = if fixed {
                                    IntegratorOptions::with_fixed_step(s(10.0))
                                } else {
                                    IntegratorOptions::default()
                                };
                                let p = Propagator::new(dynamics(Arc::new(base.law()), true), method, opts);
                                let mut stops: Vec<f64> = (0..5).filter(|k| mask >> k & 1 == 1).map(|k| cut_at[k]).collect();
                                stops.push(600.0);
                                let mut x = x0;
                                let mut now = 0.0;
                                let mut y = y_of(&x0);
                                let mut inst = p.with(x0, almanac());
                                for &e in &stops {
                                    if !one_inst {
                                        inst = p.with(x, almanac());
                                    }
                                    let (end, traj) = inst.until_epoch_with_traj(t0() + s(e)).map_err(|e| format!("propagation failed: {e}"))?;
                                    x = end;
                                    t.step();
                                    let exact = base.span(&y, now, e, now >= base.b0 && now < base.b1);
                                    y = base.along(&y, &traj);
                                    now = e;
                                    // cut at the ends of the burn, or stepping on them, the burn is exact
                                    let aligned = fixed || stops.iter().filter(|c| **c == base.b0 || **c == base.b1).count() == 2;
                                    if aligned {
                                        let rate = THR.thrust_N / (THR.isp_s * G0);
                                        let burnt = rate * (e.min(base.b1) - base.b0).max(0.0);
                                        t.close(&format!("propellant burnt until {e} s (kg)"), PROP - x.mass.prop_mass_kg, burnt, 1e-9)?;
                                        if !fixed {
                                            t.close("one integration of the leg (km)", (v3(&exact[0..3]) - v3(&y[0..3])).norm(), 0.0, 1e-7)?;
                                        }
                                    }
                                    t.see_f(&[x.orbit.radius_km.x, x.mass.prop_mass_kg]);
                                    check(t, &format!("at {e} s"), &x, &y, fixed, mname)?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    }
    // (b) frames x steering x throttle x mass x burn position relative to the span
    let spans: Vec<(&str, f64, f64)> = vec![("inside", 100.0, 340.0), ("from-start", 0.0, 340.0), ("to-end", 100.0, 600.0), ("whole", 0.0, 600.0), ("around", -50.0, 700.0), ("before", -50.0, -10.0), ("after", 610.0, 700.0), ("short", 200.0, 200.5), ("ended-before-half", -50.0, 123.0)];
    for &o in &orbs {
        for (fname, frame) in FRAMES {
            for (sname, st, order) in STEERS {
                for thr in [1.0, 0.37, 0.0] {
                    for decr in [true, false] {
                        for &(bname, b0, b1) in &spans {
                            if !tier.thorough() && (thr == 0.37) != (sname == "lin" || sname == "vec-neg") {
                                continue;
                            }
                            if thr == 0.0 && sname != "vec" {
                                continue;
                            }
                            let b = Burn { b0, b1, thr, st, order, frame, decr };
                            sp.push(format!("steer/{}/{fname}/{sname}/{thr}/{decr}/{bname}", ORBITS[o].0), move |t: &mut Tally| {
                                let x0 = craft(zoo(o), PROP, GuidanceMode::Coast);
                                let p = Propagator::default(dynamics(Arc::new(b.law()), decr));
                                let (x, traj) = p.with(x0, almanac()).for_duration_with_traj(s(600.0)).map_err(|e| format!("propagation failed: {e}"))?;
                                t.step();
                                let y = b.along(&y_of(&x0), &traj);
                                t.see_f(&y);
                                check(t, "final state", &x, &y, false, "RK89")?;
                                // what the trajectory says about the engine
                                for k in 1..traj.states.len() {
                                    let c = &traj.states[k];
                                    let tc = (c.epoch() - t0()).to_seconds();
                                    let on = tc >= b0 && tc < b1;
                                    t.ensure((c.mode() == GuidanceMode::Thrust) == on, || format!("guidance mode {:?} at {tc} s of a burn on [{b0}, {b1}]", c.mode()))?;
                                    t.ensure(c.thrust_direction().is_some() == (on && thr > 0.0), || format!("thrust direction {:?} at {tc} s of a burn on [{b0}, {b1}]", c.thrust_direction()))?;
                                    if let Some(d) = c.thrust_direction() {
                                        let want = axes(frame, c.orbit.radius_km, c.orbit.velocity_km_s) * local_dir(st, order, tc - b0);
                                        t.close("recorded thrust direction", (d - want).norm(), 0.0, 1e-9)?;
                                    }
                                    t.ensure(c.mass.prop_mass_kg <= traj.states[k - 1].mass.prop_mass_kg, || "propellant increased".into())?;
                                    t.ensure(c.mass.dry_mass_kg == DRY - EXTRA && c.mass.extra_mass_kg == EXTRA, || "dry mass changed".into())?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    }
    // (d) what cannot be flown is an error
    let bad: Vec<(&str, f64, [f64; 3], bool, f64, bool)> = vec![
        ("throttle-above", 1.01, [1.0, 0.0, 0.0], true, PROP, false),
        ("throttle-negative", -0.01, [1.0, 0.0, 0.0], true, PROP, false),
        ("throttle-nan", f64::NAN, [1.0, 0.0, 0.0], true, PROP, false),
        ("not-unit-long", 1.0, [1.0, 0.1, 0.0], true, PROP, false),
        ("not-unit-short", 1.0, [0.9, 0.0, 0.0], true, PROP, false),
        ("zero-direction", 1.0, [0.0, 0.0, 0.0], true, PROP, false),
        ("no-thruster", 1.0, [1.0, 0.0, 0.0], false, PROP, false),
        ("dry-tank", 1.0, [1.0, 0.0, 0.0], true, 0.0, false),
        ("runs-dry", 1.0, [1.0, 0.0, 0.0], true, 2.0, false),
        ("stm", 1.0, [1.0, 0.0, 0.0], true, PROP, true),
    ];
    for (name, thr, dir, has, prop, stm) in bad {
        for (mname, method) in METHODS {
            for (fname, frame) in FRAMES {
                for fixed in [true, false] {
                    if mname == "RK4" && !fixed {
                        continue;
                    }
                    sp.push(format!("refuse/{name}/{mname}/{fname}/{fixed}"), move |t: &mut Tally| {
                        let mut x0 = craft(zoo(0), prop, GuidanceMode::Coast);
                        if !has {
                            x0.thruster = None;
                        }
                        if stm {
                            x0 = x0.with_stm();
                        }
                        let law = Maneuver::from_time_invariant(t0(), t0() + s(300.0), thr, Vector3::from(dir), frame);
                        let opts = if fixed { IntegratorOptions::with_fixed_step(s(10.0)) } else { IntegratorOptions::default() };
                        let p = Propagator::new(dynamics(Arc::new(law), true), method, opts);
                        let r = p.with(x0, almanac()).for_duration(s(600.0));
                        t.step();
                        t.see(&name);
                        t.ensure(r.is_err(), || format!("{name} was flown: {:?}", r.as_ref().map(|x| x.mass.prop_mass_kg)))
                    });
                }
            }
        }
    }
    // (d) the tank is just enough, or just not
    for (k, spare) in [5e-7, -5e-7, 5e-4, -5e-4, 5e-2, -5e-2, 0.5, -0.5].into_iter().enumerate() {
        for (mname, method) in METHODS {
            for thr in [1.0, 0.4] {
                for fixed in [true, false] {
                    if mname == "RK4" && !fixed {
                        continue;
                    }
                    sp.push(format!("tank/{k}/{mname}/{thr}/{fixed}"), move |t: &mut Tally| {
                        let burn = thr * 300.0 * THR.thrust_N / (THR.isp_s * G0);
                        let x0 = craft(zoo(0), burn + spare, GuidanceMode::Coast);
                        let law = Maneuver::from_time_invariant(t0(), t0() + s(300.0), thr, Vector3::new(0.6, 0.0, 0.8), LocalFrame::VNC);
                        let opts = if fixed { IntegratorOptions::with_fixed_step(s(10.0)) } else { IntegratorOptions::default() };
                        let p = Propagator::new(dynamics(Arc::new(law), true), method, opts);
                        let r = p.with(x0, almanac()).for_duration(s(300.0));
                        t.step();
                        t.see(&k);
                        if spare < 0.0 {
                            return t.ensure(r.is_err(), || format!("flown with {spare} kg to spare: {:?}", r.as_ref().map(|x| x.mass.prop_mass_kg)));
                        }
                        let x = r.map_err(|e| format!("with {spare} kg to spare: {e}"))?;
                        t.close("propellant left (kg)", x.mass.prop_mass_kg, spare, 1e-8)
                    });
                }
            }
        }
    }
    // (d') the instants around a burn: the engine is commanded from its start, included, to its end, excluded, to the nanosecond
    for (k, len) in [1e-9, 1e-6, 1.0, 60.0, 86400.0].into_iter().enumerate() {
        for mode in [GuidanceMode::Coast, GuidanceMode::Thrust] {
            sp.push(format!("instants/{k}/{mode:?}"), move |t: &mut Tally| {
                let (a, b) = (t0(), t0() + s(len));
                let law = Maneuver { start: a, end: b, thrust_prct: 0.7, representation: repr(STEERS[0].1, 0), frame: LocalFrame::Inertial };
                for base in [a, b] {
                    for d in [-3_600_000_000_000i64, -2000, -1000, -2, -1, 0, 1, 2, 1000, 2000, 3_600_000_000_000] {
                        let e = base + hifitime::Duration::from_total_nanoseconds(d as i128);
                        let mut x = craft(zoo(1), PROP, mode);
                        x.set_epoch(e);
                        law.next(&mut x, &almanac());
                        t.step();
                        let on = e >= a && e < b;
                        t.see(&(on, d));
                        t.ensure((x.mode() == GuidanceMode::Thrust) == on, || format!("{:?} at {e} for a burn from {a} to {b}", x.mode()))?;
                        let th = law.throttle(&x).map_err(|e| e.to_string())?;
                        t.ensure(th == if on { 0.7 } else { 0.0 }, || format!("throttle {th} at {e}"))?;
                    }
                }
                Ok(())
            });
        }
    }
    // (e) replaying a profile: every pattern of commands over the samples, at every epoch on, between and around them
    let n = tier.pick(4usize, 5);
    // 0: coast, 1: thrust along A, 2: thrust along B
    let dirs = [Vector3::new(0.6, 0.0, -0.8), Vector3::new(0.0, 1.0, 0.0)];
    for q in sequences(3, 1, n).into_iter() {
        for gap in [0usize, 1] {
            let name: String = q.iter().map(|c| ["c", "A", "B"][*c]).collect();
            let q = q.clone();
            sp.push(format!("replay/{gap}/{name}"), move |t: &mut Tally| {
                let at: Vec<f64> = (0..q.len()).map(|k| 60.0 * k as f64 + if gap == 1 && k % 2 == 1 { 13.25 } else { 0.0 }).collect();
                let states: Vec<Spacecraft> = q
                    .iter()
                    .zip(&at)
                    .map(|(c, a)| {
                        let mut x = craft(zoo(0), PROP, if *c == 0 { GuidanceMode::Coast } else { GuidanceMode::Thrust });
                        x.set_epoch(t0() + s(*a));
                        if *c > 0 {
                            x.mut_thrust_direction(Some(dirs[*c - 1]));
                        }
                        x
                    })
                    .collect();
                let law = traj_of(states).to_thrust_direction_replay();
                let mut when: Vec<(Epoch, Option<usize>)> = vec![];
                for k in 0..at.len() {
                    let e = t0() + s(at[k]);
                    // the last sample closes the last interval
                    when.push((e, if k > 0 && k + 1 == at.len() { Some(k - 1) } else { Some(k) }));
                    when.push((e - ns(1), k.checked_sub(1)));
                    when.push((e + ns(1), if k + 1 < at.len() { Some(k) } else { None }));
                    if k + 1 < at.len() {
                        when.push((t0() + s(0.5 * (at[k] + at[k + 1])), Some(k)));
                    }
                }
                when.push((t0() - s(3600.0), None));
                when.push((t0() + s(36000.0), None));
                for (e, k) in when {
                    for mode in [GuidanceMode::Coast, GuidanceMode::Thrust] {
                        let mut x = craft(zoo(1), PROP, mode);
                        x.set_epoch(e);
                        t.step();
                        let want = k.and_then(|k| (q[k] > 0).then(|| dirs[q[k] - 1]));
                        let th = law.throttle(&x).map_err(|e| e.to_string())?;
                        let d = law.direction(&x).map_err(|e| e.to_string())?;
                        t.ensure(th == if want.is_some() { 1.0 } else { 0.0 }, || format!("throttle {th} at {e} under {k:?}"))?;
                        t.ensure(d == want.unwrap_or_else(Vector3::zeros), || format!("direction {d:?} at {e} under {k:?}"))?;
                        law.next(&mut x, &almanac());
                        t.ensure(x.thrust_direction() == want && (x.mode() == GuidanceMode::Thrust) == want.is_some(), || format!("next command {:?} {:?} at {e} under {k:?}", x.thrust_direction(), x.mode()))?;
                        t.see(&(want.is_some(), k));
                    }
                }
                Ok(())
            });
        }
    }
    // (e') a recorded burn starts with a state which has no direction yet: the first interval is flown with that of the next sample
    for q in sequences(3, 1, n - 1).into_iter().filter(|q| q[0] > 0) {
        let name: String = q.iter().map(|c| ["c", "A", "B"][*c]).collect();
        sp.push(format!("replay/start/{name}"), move |t: &mut Tally| {
            let states: Vec<Spacecraft> = (0..=q.len())
                .map(|k| {
                    let c = if k == 0 { 3 } else { q[k - 1] };
                    let mut x = craft(zoo(0), PROP, if c == 0 { GuidanceMode::Coast } else { GuidanceMode::Thrust });
                    x.set_epoch(t0() + s(60.0 * k as f64));
                    x.mut_thrust_direction((c == 1 || c == 2).then(|| dirs[c - 1]));
                    x
                })
                .collect();
            let law = traj_of(states).to_thrust_direction_replay();
            for dt in [0.0, 1e-9, 30.0, 59.999] {
                let mut x = craft(zoo(1), PROP, GuidanceMode::Thrust);
                x.set_epoch(t0() + s(dt));
                t.step();
                let (th, d) = (law.throttle(&x).map_err(|e| e.to_string())?, law.direction(&x).map_err(|e| e.to_string())?);
                t.ensure(th == 1.0 && d == dirs[q[0] - 1], || format!("throttle {th}, direction {d:?} after {dt} s"))?;
            }
            for k in 1..q.len() {
                let mut x = craft(zoo(1), PROP, GuidanceMode::Thrust);
                x.set_epoch(t0() + s(60.0 * k as f64 + 20.0));
                let want = (q[k - 1] > 0).then(|| dirs[q[k - 1] - 1]).unwrap_or_else(Vector3::zeros);
                let d = law.direction(&x).map_err(|e| e.to_string())?;
                t.ensure(d == want, || format!("direction {d:?} in interval {k}"))?;
            }
            Ok(())
        });
    }
    // (f) replaying what was flown, on fixed steps: the recorded burn covers the same steps
    for (bname, b0, b1) in [("inside", 100.0, 340.0), ("from-start", 0.0, 340.0), ("to-end", 100.0, 600.0), ("whole", 0.0, 600.0), ("one-step", 200.0, 210.0)] {
        for mode in [GuidanceMode::Coast, GuidanceMode::Thrust] {
            if b0 == 0.0 && mode == GuidanceMode::Coast {
                continue; // the recorded initial state is the one provided: coasting
            }
            if b0 > 0.0 && mode == GuidanceMode::Thrust {
                continue;
            }
            let b = Burn { b0, b1, thr: 1.0, st: STEERS[0].1, order: 0, frame: LocalFrame::Inertial, decr: true };
            sp.push(format!("refly/{bname}"), move |t: &mut Tally| {
                let x0 = craft(zoo(0), PROP, mode);
                let p = Propagator::new(dynamics(Arc::new(b.law()), true), IntegratorMethod::RungeKutta89, IntegratorOptions::with_fixed_step(s(10.0)));
                let (_, traj) = p.with(x0, almanac()).for_duration_with_traj(s(600.0)).map_err(|e| format!("propagation failed: {e}"))?;
                let law = traj.to_thrust_direction_replay();
                let p = Propagator::default(dynamics(law, true));
                let x = p.with(x0, almanac()).for_duration(s(600.0)).map_err(|e| format!("replay failed: {e}"))?;
                t.steps(2);
                let y = b.along(&y_of(&x0), &traj);
                t.see_f(&y);
                t.close("replayed propellant (kg)", x.mass.prop_mass_kg, y[6], 1e-3)?;
                t.close("replayed position error (km)", (x.orbit.radius_km - v3(&y[0..3])).norm(), 0.0, 2e-4)?;
                t.close("replayed velocity error (km/s)", (x.orbit.velocity_km_s - v3(&y[3..6])).norm(), 0.0, 1e-6)
            });
        }
    }
    // (h) replacing the guidance law of some dynamics keeps everything else of them
    for mask in 0..4usize {
        for decr in [true, false] {
            for (fname, frame) in FRAMES {
                for stm in [false, true] {
                    sp.push(format!("replace/{mask:02b}/{decr}/{fname}/{stm}"), move |t: &mut Tally| {
                        let alm = almanac();
                        let models: Vec<Arc<dyn nyx_space::dynamics::ForceModel>> = (0..2)
                            .filter(|k| mask >> k & 1 == 1)
                            .map(|k| SolarPressure::with_flux([1367.0, 900.0][k], vec![], &alm).unwrap() as Arc<dyn nyx_space::dynamics::ForceModel>)
                            .collect();
                        let old: Arc<dyn GuidanceLaw> = Arc::new(Burn { b0: -10.0, b1: 900.0, thr: 0.2, st: STEERS[1].1, order: 0, frame: LocalFrame::Inertial, decr }.law());
                        let b = Burn { b0: -10.0, b1: 900.0, thr: 0.8, st: STEERS[0].1, order: 0, frame, decr };
                        let mut d = dynamics(old, decr);
                        d.force_models = models.clone();
                        let d = d.with_guidance_law(Arc::new(b.law()));
                        let mut x = craft(zoo(0), PROP, GuidanceMode::Thrust);
                        x.srp.area_m2 = 40.0;
                        if stm {
                            x = x.with_stm();
                        }
                        let got = d.eom(0.0, &x.to_vector(), &x, &alm);
                        t.step();
                        if stm {
                            return t.ensure(got.is_err(), || "a thrust has no partials: with a transition matrix this must be an error".into());
                        }
                        let got = got.map_err(|e| e.to_string())?;
                        let (r, v) = (x.orbit.radius_km, x.orbit.velocity_km_s);
                        let mut acc = -MU * r / r.norm().powi(3) + axes(frame, r, v) * local_dir(b.st, 0, 10.0) * (b.thr * THR.thrust_N * 1e-3 / (DRY + PROP));
                        for m in &models {
                            acc += m.eom(&x, &alm).map_err(|e| e.to_string())? / (DRY + PROP);
                        }
                        for k in 0..3 {
                            t.close("velocity", got[k], v[k], 0.0)?;
                            t.close("acceleration", got[k + 3], acc[k], 1e-13)?;
                        }
                        t.close("propellant rate", got[8], if decr { -b.thr * THR.thrust_N / (THR.isp_s * G0) } else { 0.0 }, 1e-12)?;
                        t.see_f(acc.as_slice());
                        Ok(())
                    });
                }
            }
        }
    }
    // Impulses as burns, spans and exhaust velocities.
    for (fname, frame) in FRAMES {
        for (k, off) in [-7_000i64, 0, 1, 123_456_789].into_iter().enumerate() {
            sp.push(format!("impulsive/{fname}/{k}"), move |t: &mut Tally| {
                let v = Vector3::new(0.48, -0.6, 0.64);
                let e = t0() + ns(off);
                let m = Maneuver::from_impulsive(e, v, frame);
                t.step();
                t.see(&(fname, k));
                t.ensure(m.start == e && m.end > e && m.duration() == m.end - m.start && m.duration() <= s(0.01), || format!("burns from {} to {}", m.start, m.end))?;
                t.ensure(m.thrust_prct == 1.0 && m.frame == frame && m.vector(e) == v && m.vector(m.end) == v, || format!("{m:?}"))?;
                t.ensure(!m.antichronological(), || "an impulse goes forward".into())
            });
        }
    }
    for (k, d) in [-86_400_000_000_000i64, -1_000_000, -2_000, 0, 2_000, 1_000_000, 86_400_000_000_000].into_iter().enumerate() {
        sp.push(format!("span/{k}"), move |t: &mut Tally| {
            let m = Maneuver::from_time_invariant(t0(), t0() + ns(d), 0.4, Vector3::new(0.0, 3.0, 4.0), LocalFrame::RIC);
            t.step();
            t.see(&k);
            t.ensure(m.duration() == ns(d) && m.antichronological() == (d < -1_000), || format!("{}: antichronological {}", m.duration(), m.antichronological()))?;
            t.ensure(m.thrust_prct == 0.4 && m.frame == LocalFrame::RIC && m.start == t0() && m.end == t0() + ns(d), || format!("{m:?}"))?;
            t.close("unit direction", (m.direction() - Vector3::new(0.0, 0.6, 0.8)).norm(), 0.0, 1e-15)?;
            for isp in [1.0, 300.0, 4435.0] {
                t.close("exhaust velocity", Thruster { thrust_N: 10.0 * isp, isp_s: isp }.exhaust_velocity_m_s(), isp * G0, 1e-9)?;
            }
            Ok(())
        });
    }
    for az in 0..12usize {
        for el in 0..7usize {
            sp.push(format!("plane-angles/{az}/{el}"), move |t: &mut Tally| {
                let (a, b) = ((az as f64 * 30.0 - 179.0).to_radians(), (el as f64 * 28.0 - 84.0).to_radians());
                let u = Vector3::new(b.cos() * a.cos(), b.cos() * a.sin(), b.sin());
                let (ga, gb) = plane_angles_from_unit_vector(u);
                t.step();
                t.see_f(&[a, b]);
                t.close("in plane", ga, a, 1e-12)?;
                t.close("out of plane", gb, b, 1e-12)
            });
        }
    }
    // (g) the components of a steering: what is set is what is read and what is flown
    let vecs: Vec<[f64; 3]> = vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-0.6, 0.0, 0.8], [0.48, -0.6, -0.64], [0.0, -1.0, 0.0]];
    let rates: Vec<[f64; 2]> = vec![[0.0, 0.0], [1e-3, 0.0], [0.0, -2e-3], [-3e-3, 1e-3], [0.2, 0.1]];
    for (vi, v) in vecs.iter().enumerate() {
        for (ri, r) in rates.iter().enumerate() {
            for (ai, a) in rates.iter().enumerate() {
                let (v, r, a) = (Vector3::from(*v), *r, *a);
                sp.push(format!("components/{vi}/{ri}/{ai}"), move |t: &mut Tally| {
                    let uv = |x: [f64; 2]| Vector3::new(x[1].cos() * x[0].cos(), x[1].cos() * x[0].sin(), x[1].sin());
                    // the rates of an axis are given as the unit vector of the pair of angular rates; none as the null vector
                    for (use_r, use_a) in [(false, false), (true, false), (false, true), (true, true)] {
                        let (rv, av) = (if use_r { uv(r) } else { Vector3::zeros() }, if use_a { uv(a) } else { Vector3::zeros() });
                        for other in [Vector3::new(0.0, 0.6, 0.8), Vector3::new(-1.0, 0.0, 0.0)] {
                            let mut m = Maneuver::from_time_invariant(t0(), t0() + s(300.0), 1.0, other, LocalFrame::VNC);
                            // in one go, and one at a time
                            for piecewise in [false, true] {
                                if piecewise {
                                    m.set_direction(other).map_err(|e| e.to_string())?;
                                    m.set_accel(av).map_err(|e| e.to_string())?;
                                    m.set_direction(v).map_err(|e| e.to_string())?;
                                    m.set_rate(rv).map_err(|e| e.to_string())?;
                                } else {
                                    m.set_direction_and_rates(v, rv, av).map_err(|e| e.to_string())?;
                                }
                                t.step();
                                t.close("direction", (m.direction() - v).norm(), 0.0, 1e-12)?;
                                t.close("vector at the start", (m.vector(m.start) - v).norm(), 0.0, 1e-12)?;
                                for dt in [0.0, 10.0, 100.0] {
                                    let (al, de) = (v.y.atan2(v.x), v.z.asin());
                                    let (rr, aa) = (if use_r { r } else { [0.0; 2] }, if use_a { a } else { [0.0; 2] });
                                    let want = uv([al + rr[0] * dt + aa[0] * dt * dt, de + rr[1] * dt + aa[1] * dt * dt]);
                                    t.close(&format!("vector {dt} s into the burn"), (m.vector(m.start + s(dt)) - want).norm(), 0.0, 1e-9 * (1.0 + dt * dt))?;
                                }
                            }
                        }
                        t.see(&(use_r, use_a));
                    }
                    Ok(())
                });
            }
        }
    }
    sp
}

fn check(t: &mut Tally, what: &str, x: &Spacecraft, y: &[f64], fixed: bool, mname: &str) -> Result<(), String> {
    let (tr, tv, tm) = match (fixed, mname) {
        (true, "RK4") => (1e-4, 1e-6, 1e-9),
        (true, "DP45" | "CK45" | "V56") => (1e-6, 1e-8, 1e-9),
        (true, _) => (1e-8, 1e-11, 1e-9),
        _ => (1e-6, 1e-9, 1e-9),
    };
    t.close(&format!("{what}: propellant (kg)"), x.mass.prop_mass_kg, y[6], tm)?;
    t.close(&format!("{what}: position error (km)"), (x.orbit.radius_km - v3(&y[0..3])).norm(), 0.0, tr)?;
    t.close(&format!("{what}: velocity error (km/s)"), (x.orbit.velocity_km_s - v3(&y[3..6])).norm(), 0.0, tv)
}

// ---------------------------------------------------------------------------------------------------------------------------------
// C25: closed-loop guidance laws

fn sp_(e: OE) -> StateParameter {
    StateParameter::Element(e)
}

/// Elements from the state vector, by their definitions (angles in degrees).
fn element(e: OE, r: Vector3<f64>, v: Vector3<f64>) -> f64 {
    let h = r.cross(&v);
    let ev = v.cross(&h) / MU - r.normalize();
    let (p, q) = (h.x / (h.norm() + h.z), -h.y / (h.norm() + h.z));
    let den = 1.0 + p * p + q * q;
    match e {
        OE::SemiMajorAxis => 1.0 / (2.0 / r.norm() - v.norm_squared() / MU),
        OE::Eccentricity => ev.norm(),
        OE::Inclination => (h.z / h.norm()).acos().to_degrees(),
        OE::RAAN => h.x.atan2(-h.y).to_degrees().rem_euclid(360.0),
        // sin(i/2) rather than tan(i/2)
        OE::EquinoctialP => p / (1.0 + p * p + q * q).sqrt(),
        OE::EquinoctialQ => q / (1.0 + p * p + q * q).sqrt(),
        OE::EquinoctialK => ev.dot(&Vector3::new(1.0 - p * p + q * q, 2.0 * p * q, -2.0 * p)) / den,
        OE::EquinoctialH => ev.dot(&Vector3::new(2.0 * p * q, 1.0 + p * p - q * q, 2.0 * q)) / den,
        _ => unreachable!(),
    }
}
/// Derivative of the element with respect to the velocity.
fn gradient(e: OE, r: Vector3<f64>, v: Vector3<f64>) -> Vector3<f64> {
    let mut g = Vector3::zeros();
    let f = |k: usize, d: f64| {
        let mut w = v;
        w[k] += d;
        element(e, r, w)
    };
    for k in 0..3 {
        let d = 2e-4;
        let mut num = [f(k, d) - f(k, -d), f(k, 2.0 * d) - f(k, -2.0 * d)];
        if e == OE::RAAN {
            for n in num.iter_mut() {
                *n = (*n + 180.0).rem_euclid(360.0) - 180.0;
            }
        }
        g[k] = (8.0 * num[0] - num[1]) / (12.0 * d);
    }
    g
}
/// The steering which changes an element the fastest: along its gradient, in the plane for the shape, out of it for the orientation.
fn fastest(e: OE, r: Vector3<f64>, v: Vector3<f64>) -> Vector3<f64> {
    let n = r.cross(&v).normalize();
    let g = gradient(e, r, v);
    match e {
        OE::SemiMajorAxis | OE::Eccentricity | OE::EquinoctialH | OE::EquinoctialK => (g - n * g.dot(&n)).normalize(),
        _ => n * g.dot(&n).signum(),
    }
}

fn mode_name(m: GuidanceMode) -> &'static str {
    match m {
        GuidanceMode::Coast => "coast",
        GuidanceMode::Thrust => "thrust",
        GuidanceMode::Inhibit => "inhibit",
    }
}

/// Eclipse-free default, and a position in the umbra of the Earth.
fn shadowed(dark: bool) -> anise::prelude::Orbit {
    let u = sun_pos_vel(t0()).0.normalize();
    let w = u.cross(&Vector3::z()).normalize();
    let (c, k) = (0.25f64.cos(), 0.25f64.sin());
    let side = if dark { -1.0 } else { 1.0 };
    let r = (u * side * c + w * k) * 7500.0;
    let v = (w * c - u * side * k) * (MU / 7500.0f64).sqrt();
    anise::prelude::Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, t0(), earth())
}

pub fn c25(tier: Tier) -> Space {
    let mut sp = Space::new(
        "closed-loop guidance: every grid orbit x anomaly x objective x sense; every pair of objectives; every (objectives met, eclipse, \
         eclipse limit, mode) combination; efficiency thresholds; invalid configurations; non-trivial: the element is off its target",
    );
    sp.hang_s = 60.0;
    let eccs: Vec<f64> = tier.pick(vec![0.02, 0.35, 0.7], vec![0.002, 0.02, 0.15, 0.35, 0.6, 0.75]);
    let incs: Vec<f64> = tier.pick(vec![12.0, 63.0, 120.0], vec![2.0, 12.0, 45.0, 63.0, 89.0, 120.0, 160.0]);
    let angs: Vec<(f64, f64)> = tier.pick(vec![(30.0, 75.0), (250.0, 190.0)], vec![(30.0, 75.0), (250.0, 190.0), (140.0, 310.0), (355.0, 5.0)]);
    let step = tier.pick(36, 12);
    let mut grid: Vec<(String, anise::prelude::Orbit)> = vec![];
    for &e in &eccs {
        for &i in &incs {
            for &(raan, aop) in &angs {
                for ta in (1..360).step_by(step) {
                    grid.push((format!("{e}/{i}/{raan}/{ta}"), orbit_kep(9000.0 / (1.0 - e), e, i, raan, aop, ta as f64)));
                }
            }
        }
    }
    let elems = [OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::RAAN];
    let equi = [OE::EquinoctialH, OE::EquinoctialK, OE::EquinoctialP, OE::EquinoctialQ];
    let off = |e: OE| match e {
        OE::SemiMajorAxis => (500.0, 1.0),
        OE::Inclination | OE::RAAN => (0.8, 0.01),
        _ => (0.015, 1e-4),
    };
    // (a) one objective
    for (gname, o) in grid.clone() {
        for (law, list) in [("ruggiero", elems.to_vec()), ("kluever", elems.iter().chain(equi.iter()).copied().collect::<Vec<_>>())] {
            for e in list {
                for sense in [1.0, -1.0] {
                    sp.push(format!("single/{law}/{e:?}/{}/{gname}", if sense > 0.0 { "up" } else { "down" }), move |t: &mut Tally| {
                        let x = craft(o, PROP, GuidanceMode::Thrust);
                        let (r, v) = (o.radius_km, o.velocity_km_s);
                        let val = element(e, r, v);
                        t.close("element", x.value(sp_(e)).map_err(|e| e.to_string())?, val, 1e-6 * (1.0 + val.abs()))?;
                        let (d, tol) = off(e);
                        let obj = Objective::within_tolerance(sp_(e), val + sense * d, tol);
                        let law: Arc<dyn GuidanceLaw> = if law == "ruggiero" { Ruggiero::simple(&[obj], x).map_err(|e| e.to_string())? } else { Kluever::new(&[obj], &[0.7]) };
                        t.steps(3);
                        let got = law.direction(&x).map_err(|e| e.to_string())?;
                        let want = fastest(e, r, v) * sense;
                        t.see_f(&[got.x, got.y, got.z]);
                        t.close("norm of the steering", got.norm(), 1.0, 1e-9)?;
                        // at the nodes of the out-of-plane laws the gradient vanishes: the sign is moot there
                        let g = gradient(e, r, v);
                        let n = r.cross(&v).normalize();
                        let moot = !matches!(e, OE::SemiMajorAxis | OE::Eccentricity | OE::EquinoctialH | OE::EquinoctialK) && g.dot(&n).abs() < 1e-3 * g.norm().max(1e-3);
                        if !moot {
                            t.close(&format!("steering {got:?}, fastest {want:?}"), (got - want).norm(), 0.0, 1e-5)?;
                        }
                        t.ensure(law.throttle(&x).map_err(|e| e.to_string())? == 1.0, || "not thrusting at full throttle".into())?;
                        t.ensure(!law.achieved(&x).map_err(|e| e.to_string())?, || "achieved off target".into())?;
                        for mode in [GuidanceMode::Coast, GuidanceMode::Inhibit] {
                            let y = x.with_guidance_mode(mode);
                            t.ensure(law.throttle(&y).map_err(|e| e.to_string())? == 0.0 && law.direction(&y).map_err(|e| e.to_string())?.norm() == 0.0, || format!("thrusts in mode {mode:?}"))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // (b) pairs: Ruggiero adds the weighted fastest steerings; whatever is on target or has no weight has no influence
    let some: Vec<(String, anise::prelude::Orbit)> = grid.iter().step_by(tier.pick(7, 5)).cloned().collect();
    for (gname, o) in some.clone() {
        for a in 0..4usize {
            for b in 0..4usize {
                if a == b {
                    continue;
                }
                for (sa, sb) in [(1.0, 1.0), (1.0, -1.0), (-1.0, 0.4), (1.0, 0.0)] {
                    let (ea, eb) = (elems[a], elems[b]);
                    sp.push(format!("pair/{ea:?}/{eb:?}/{sa}/{sb}/{gname}"), move |t: &mut Tally| {
                        let x = craft(o, PROP, GuidanceMode::Thrust);
                        let (r, v) = (o.radius_km, o.velocity_km_s);
                        let obj = |e: OE, sgn: f64| Objective::within_tolerance(sp_(e), element(e, r, v) + sgn * off(e).0, off(e).1);
                        let objs = [obj(ea, sa), obj(eb, sb)];
                        // the initial state was elsewhere: twice and five times as far from the targets
                        let mut init = x;
                        let io = zoo(1);
                        init.orbit = io;
                        let wt = |e: OE, sgn: f64| {
                            let tgt = element(e, r, v) + sgn * off(e).0;
                            let i0 = element(e, io.radius_km, io.velocity_km_s);
                            sgn * off(e).0 / (tgt - i0).abs()
                        };
                        let law = Ruggiero::simple(&objs, init).map_err(|e| e.to_string())?;
                        let got = law.direction(&x).map_err(|e| e.to_string())?;
                        let sum = fastest(ea, r, v) * wt(ea, sa) + fastest(eb, r, v) * wt(eb, sb);
                        t.steps(6);
                        t.see_f(&[got.x, got.y, got.z]);
                        t.close(&format!("Ruggiero blend {got:?} for {:?}", sum.normalize()), (got - sum.normalize()).norm(), 0.0, 1e-4)?;
                        // Kluever: a unit vector, the same for proportional weights and whatever the order of the objectives
                        let k = |o: &[Objective], w: &[f64]| Kluever::new(o, w).direction(&x).map_err(|e| e.to_string());
                        let k0 = k(&objs, &[0.3, 0.9])?;
                        t.close("norm of the Kluever steering", k0.norm(), 1.0, 1e-9)?;
                        for scale in [2.0, 0.05, 1e-4] {
                            t.close("scaled weights", (k(&objs, &[0.3 * scale, 0.9 * scale])? - k0).norm(), 0.0, 1e-9)?;
                        }
                        t.close("other order", (k(&[objs[1], objs[0]], &[0.9, 0.3])? - k0).norm(), 0.0, 1e-9)?;
                        t.close("no weight on the second", (k(&objs, &[0.3, 0.0])? - k(&objs[0..1], &[0.3])?).norm(), 0.0, 1e-12)?;
                        t.close("no weight on the first", (k(&objs, &[0.0, 0.9])? - k(&objs[1..2], &[0.9])?).norm(), 0.0, 1e-12)?;
                        let met = Objective::within_tolerance(sp_(eb), element(eb, r, v) + 0.5 * off(eb).1, off(eb).1);
                        t.close("second on target (Kluever)", (k(&[objs[0], met], &[0.3, 0.9])? - k(&objs[0..1], &[0.3])?).norm(), 0.0, 1e-12)?;
                        let r2 = Ruggiero::simple(&[objs[0], met], init).map_err(|e| e.to_string())?.direction(&x).map_err(|e| e.to_string())?;
                        let r1 = Ruggiero::simple(&objs[0..1], init).map_err(|e| e.to_string())?.direction(&x).map_err(|e| e.to_string())?;
                        t.close("second on target (Ruggiero)", (r2 - r1).norm(), 0.0, 1e-12)
                    });
                }
            }
        }
    }
    // (c) efficiency: the rate of change here over the best one along the orbit; thrust only above the threshold
    for &e in &eccs {
        for &i in &incs {
            for &(raan, aop) in &angs {
                for el in [OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::RAAN, OE::AoP] {
                    sp.push(format!("efficiency/{el:?}/{e}/{i}/{raan}"), move |t: &mut Tally| {
                        let at = |ta: f64| orbit_kep(9000.0 / (1.0 - e), e, i, raan, aop, ta);
                        let rate = |ta: f64| {
                            let o = at(ta);
                            gradient(el, o.radius_km, o.velocity_km_s).norm()
                        };
                        let known = matches!(el, OE::SemiMajorAxis | OE::Inclination | OE::RAAN);
                        let best = if known { (0..1440).map(|k| rate(k as f64 * 0.25)).fold(0.0, f64::max) } else { 1.0 };
                        for ta in (1..360).step_by(23) {
                            let ta = ta as f64;
                            let o = at(ta);
                            let eta = Ruggiero::efficiency(&sp_(el), &o).map_err(|e| e.to_string())?;
                            t.step();
                            t.see_f(&[eta]);
                            t.ensure((-1e-12..=1.0 + 1e-9).contains(&eta), || format!("efficiency {eta} at {ta} deg"))?;
                            if known {
                                t.close(&format!("efficiency at {ta} deg"), eta, rate(ta) / best, 2e-4)?;
                            }
                            if el == OE::AoP {
                                continue;
                            }
                            let x = craft(o, PROP, GuidanceMode::Thrust);
                            let obj = Objective::within_tolerance(sp_(el), element(el, o.radius_km, o.velocity_km_s) + off(el).0, off(el).1);
                            for (thr, on) in [(eta - 1e-3, true), (eta + 1e-3, false)] {
                                let law = Ruggiero::from_ηthresholds(&[obj], &[thr], x).map_err(|e| e.to_string())?;
                                let d = law.direction(&x).map_err(|e| e.to_string())?.norm();
                                let th = law.throttle(&x).map_err(|e| e.to_string())?;
                                t.step();
                                t.ensure((d > 0.5) == on && th == if on { 1.0 } else { 0.0 }, || format!("threshold {thr}, efficiency {eta}: throttle {th}, direction {d}"))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // (d) the mode of the next step
    for law_name in ["ruggiero", "kluever", "ruggiero-set"] {
        for met in [0usize, 1, 2] {
            for dark in [false, true] {
                for limit in [None, Some(0.0), Some(50.0), Some(99.0), Some(100.0)] {
                    for mode in [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit] {
                        sp.push(format!("mode/{law_name}/{met}/{dark}/{limit:?}/{}", mode_name(mode)), move |t: &mut Tally| {
                            let o = shadowed(dark);
                            let x = craft(o, PROP, mode);
                            let (r, v) = (o.radius_km, o.velocity_km_s);
                            let objs: Vec<Objective> = [OE::SemiMajorAxis, OE::Inclination]
                                .iter()
                                .enumerate()
                                .map(|(k, e)| Objective::within_tolerance(sp_(*e), element(*e, r, v) + if k < met { 0.5 * off(*e).1 } else { off(*e).0 }, off(*e).1))
                                .collect();
                            let law: Arc<dyn GuidanceLaw> = match (law_name, limit) {
                                ("ruggiero", None) => Ruggiero::simple(&objs, x).map_err(|e| e.to_string())?,
                                ("ruggiero-set", l) => {
                                    let mut law = (*match l {
                                        None => Ruggiero::simple(&objs, x),
                                        Some(l) => Ruggiero::from_max_eclipse(&objs, x, 100.0 - l),
                                    }
                                    .map_err(|e| e.to_string())?)
                                    .clone();
                                    if let Some(l) = l {
                                        law.set_max_eclipse(l);
                                    }
                                    Arc::new(law)
                                }
                                ("ruggiero", Some(l)) => Ruggiero::from_max_eclipse(&objs, x, l).map_err(|e| e.to_string())?,
                                (_, None) => Kluever::new(&objs, &[1.0, 1.0]),
                                (_, Some(l)) => Kluever::from_max_eclipse(&objs, &[1.0, 1.0], l),
                            };
                            let want = if mode == GuidanceMode::Inhibit {
                                GuidanceMode::Inhibit
                            } else if met == 2 || (dark && limit.is_some_and(|l| l < 100.0)) {
                                GuidanceMode::Coast
                            } else {
                                GuidanceMode::Thrust
                            };
                            t.steps(2);
                            t.ensure(law.achieved(&x).map_err(|e| e.to_string())? == (met == 2), || "achieved".into())?;
                            let mut y = x;
                            law.next(&mut y, &almanac());
                            t.see(&(mode_name(want), met, dark));
                            t.ensure(y.mode() == want, || format!("next mode {:?}, expected {want:?}", y.mode()))?;
                            // the dynamics: what is recorded is the command of the coming step
                            let z = dynamics(law.clone(), true).finally(x, &almanac()).map_err(|e| e.to_string())?;
                            t.ensure(z.mode() == want && z.thrust_direction().is_some() == (want == GuidanceMode::Thrust), || format!("dynamics: {:?} {:?}", z.mode(), z.thrust_direction()))
                        });
                    }
                }
            }
        }
    }
    // Status: one line per objective, in order, saying whether it is met.
    for bits in 0..8usize {
        for dark in [false, true] {
            sp.push(format!("status/{bits}/{dark}"), move |t: &mut Tally| {
                let o = shadowed(dark);
                let x = craft(o, PROP, GuidanceMode::Coast);
                let es = [OE::Inclination, OE::SemiMajorAxis, OE::Eccentricity];
                let objs: Vec<Objective> = es
                    .iter()
                    .enumerate()
                    .map(|(k, e)| Objective::within_tolerance(sp_(*e), element(*e, o.radius_km, o.velocity_km_s) + if bits >> k & 1 == 1 { 0.5 * off(*e).1 } else { off(*e).0 }, off(*e).1))
                    .collect();
                for (name, st) in [("ruggiero", Ruggiero::simple(&objs, x).map_err(|e| e.to_string())?.status(&x)), ("kluever", Kluever::new(&objs, &[1.0; 3]).status(&x))] {
                    t.step();
                    t.ensure(st.len() == 3, || format!("{name}: {st:?}"))?;
                    for (k, l) in st.iter().enumerate() {
                        let met = bits >> k & 1 == 1;
                        t.see(&(name, k, met));
                        t.ensure(l.starts_with(&objs[k].to_string()) && l.contains(&format!("achieved: {met}")), || format!("{name} objective {k}: {l}"))?;
                    }
                }
                Ok(())
            });
        }
    }
    // (e) nothing to do: no thrust, even in thrust mode
    for (gname, o) in some.clone() {
        for el in elems.iter().chain(equi.iter()).copied() {
            sp.push(format!("idle/{el:?}/{gname}"), move |t: &mut Tally| {
                let x = craft(o, PROP, GuidanceMode::Thrust);
                let (r, v) = (o.radius_km, o.velocity_km_s);
                for sense in [1.0, -1.0] {
                    let obj = Objective::within_tolerance(sp_(el), element(el, r, v) + sense * 0.5 * off(el).1, off(el).1);
                    let mut laws: Vec<(&str, Arc<dyn GuidanceLaw>)> = vec![("kluever", Kluever::new(&[obj], &[1.0]))];
                    if elems.contains(&el) {
                        laws.push(("ruggiero", Ruggiero::simple(&[obj], x).map_err(|e| e.to_string())?));
                    }
                    for (name, law) in laws {
                        t.step();
                        t.ensure(law.achieved(&x).map_err(|e| e.to_string())?, || format!("{name}: not achieved on target"))?;
                        let (th, d) = (law.throttle(&x).map_err(|e| e.to_string())?, law.direction(&x).map_err(|e| e.to_string())?);
                        t.see(&name);
                        t.ensure(th == 0.0 && d.norm() == 0.0, || format!("{name} on target: throttle {th}, direction {d:?}"))?;
                    }
                }
                Ok(())
            });
        }
    }
    // (f) closed loop: the element goes to its target, then the engine stops
    let flights: Vec<(OE, f64)> = vec![(OE::SemiMajorAxis, 12.0), (OE::SemiMajorAxis, -12.0), (OE::Eccentricity, 0.002), (OE::Eccentricity, -0.002), (OE::Inclination, 0.05), (OE::Inclination, -0.05), (OE::RAAN, 0.06), (OE::RAAN, -0.06), (OE::EquinoctialH, 0.002), (OE::EquinoctialH, -0.002), (OE::EquinoctialK, 0.002), (OE::EquinoctialK, -0.002), (OE::EquinoctialP, 0.0005), (OE::EquinoctialP, -0.0005), (OE::EquinoctialQ, 0.0005), (OE::EquinoctialQ, -0.0005)];
    for law_name in ["ruggiero", "kluever"] {
        for oi in [0usize, 1, 3] {
            for &(el, d) in &flights {
                if law_name == "ruggiero" && !elems.contains(&el) {
                    continue;
                }
                for (mname, method) in METHODS {
                    if mname == "RK4" || (!tier.thorough() && mname != "RK89" && mname != "DP45") {
                        continue;
                    }
                    sp.push(format!("flight/{law_name}/{}/{el:?}/{d}/{mname}", ORBITS[oi].0), move |t: &mut Tally| {
                        let o = orbit_kep(ORBITS[oi].1, ORBITS[oi].2 + 0.02, ORBITS[oi].3, ORBITS[oi].4, ORBITS[oi].5, ORBITS[oi].6);
                        let mut x0 = craft(o, PROP, GuidanceMode::Thrust);
                        x0.thruster = Some(Thruster { thrust_N: 5.0, isp_s: 2500.0 });
                        let tgt = element(el, o.radius_km, o.velocity_km_s) + d;
                        let tol = d.abs() * 0.02;
                        let obj = Objective::within_tolerance(sp_(el), tgt, tol);
                        let law: Arc<dyn GuidanceLaw> = if law_name == "ruggiero" { Ruggiero::simple(&[obj], x0).map_err(|e| e.to_string())? } else { Kluever::new(&[obj], &[1.0]) };
                        let p = Propagator::new(dynamics(law.clone(), true), method, IntegratorOptions::with_fixed_step(s(20.0)));
                        let (x, traj) = p.with(x0, almanac()).for_duration(s(1.0)).and_then(|_| p.with(x0, almanac()).for_duration_with_traj(s(tier.pick(9000.0, 30_000.0)))).map_err(|e| format!("propagation failed: {e}"))?;
                        let (mut prev, mut largest) = (-d, 0.0);
                        let mut done = false;
                        for k in 1..traj.states.len() {
                            let c = &traj.states[k];
                            let signed = element(el, c.orbit.radius_km, c.orbit.velocity_km_s) - tgt;
                            let err = signed.abs();
                            t.step();
                            // the error never grows: optimal steering can at worst be ineffective; only the (fixed) step during
                            // which the target is reached, where the engine stops, may be off, by no more than a step
                            largest = f64::max(largest, (signed - prev).abs());
                            t.ensure(err <= prev.abs().max(tol + largest) + 1e-7 * d.abs().max(1e-3), || format!("step {k}: error grew from {prev} to {signed}"))?;
                            let burnt = traj.states[k - 1].mass.prop_mass_kg - c.mass.prop_mass_kg;
                            if done {
                                t.ensure(burnt == 0.0, || format!("step {k}: burning {burnt} kg on target"))?;
                            }
                            done = err <= tol * (1.0 - 1e-9);
                            t.ensure((c.mode() == GuidanceMode::Coast) == law.achieved(c).map_err(|e| e.to_string())?, || format!("step {k}: mode {:?} with error {err}", c.mode()))?;
                            prev = signed;
                        }
                        t.see_f(&[x.mass.prop_mass_kg]);
                        Ok(())
                    });
                }
            }
        }
    }
    // (g) configurations which cannot be flown are refused
    for n in 0..8usize {
        for m in 0..8usize {
            sp.push(format!("config/{n}/{m}"), move |t: &mut Tally| {
                let x = craft(zoo(1), PROP, GuidanceMode::Thrust);
                let objs = vec![Objective::within_tolerance(sp_(OE::SemiMajorAxis), 8000.0, 1.0); n];
                t.steps(3);
                let r = Ruggiero::from_ηthresholds(&objs, &vec![0.1; m], x);
                t.see(&r.is_ok());
                t.ensure(r.is_ok() == ((1..=5).contains(&n) && m >= n), || format!("{n} objectives with {m} thresholds: {}", r.is_ok()))?;
                t.ensure(Ruggiero::simple(&objs, x).is_ok() == (1..=5).contains(&n), || format!("{n} objectives"))?;
                t.ensure(Ruggiero::from_max_eclipse(&objs, x, 20.0).is_ok() == (1..=5).contains(&n), || format!("{n} objectives (eclipse)"))
            });
        }
    }
    for (k, par) in [sp_(OE::TrueAnomaly), sp_(OE::X), sp_(OE::Rmag), StateParameter::PropMass(), StateParameter::Cr(), sp_(OE::EquinoctialH), sp_(OE::Period)].into_iter().enumerate() {
        sp.push(format!("config/unsupported/{k}"), move |t: &mut Tally| {
            let x = craft(zoo(1), PROP, GuidanceMode::Thrust);
            let good = Objective::within_tolerance(sp_(OE::SemiMajorAxis), 8000.0, 1.0);
            let bad = Objective::within_tolerance(par, 1e9, 1e-3);
            for objs in [vec![bad], vec![good, bad], vec![bad, good]] {
                t.steps(4);
                t.ensure(Ruggiero::simple(&objs, x).is_err() && Ruggiero::from_max_eclipse(&objs, x, 10.0).is_err(), || format!("Ruggiero accepts {par:?}"))?;
                t.ensure(matches!(Ruggiero::efficiency(&par, &x.orbit), Err(_)), || format!("efficiency of {par:?}"))?;
                if par != sp_(OE::EquinoctialH) {
                    let law = Kluever::new(&objs, &[1.0, 1.0]);
                    t.ensure(law.direction(&x).is_err(), || format!("Kluever steers to {par:?}"))?;
                    let p = Propagator::default(dynamics(law, true));
                    t.ensure(p.with(x, almanac()).for_duration(s(60.0)).is_err(), || format!("Kluever flies to {par:?}"))?;
                }
            }
            t.see(&k);
            Ok(())
        });
    }
    sp
}
