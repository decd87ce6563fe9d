//! C26: spacecraft sequences.
use crate::core::*;
use crate::guid::axes;
use crate::prop::{zoo_full, METHODS};
use crate::world::*;
use anise::analysis::prelude::OrbitalElement as OE;
use anise::constants::frames::{EARTH_J2000, IAU_EARTH_FRAME, MOON_J2000, SUN_J2000};
use anise::prelude::Frame;
use nalgebra::Vector3;
use nyx_space::cosmic::{DragData, Mass, SRPData};
use nyx_space::dynamics::guidance::mnvr::ImpulsiveManeuver;
use nyx_space::dynamics::guidance::*;
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::{AtmDensity, Drag, GravityField, OrbitalDynamics, PointMasses, SolarPressure, SolidTides, SpacecraftDynamics, TidalPerturber};
use nyx_space::io::gravity::{GravityFieldConfig, GravityFieldData};
use nyx_space::md::objective::Objective;
use nyx_space::md::{StateParameter, Trajectory};
use nyx_space::propagators::*;
use nyx_space::{Spacecraft, State};
use std::sync::Arc;

const LEN: f64 = 600.0;
const KINDS: [&str; 12] = ["coast", "coast-fine", "stage-vnc", "stage-props", "dock-ric", "dock-inertial", "moon", "earth", "ecliptic", "burn", "kluever", "ruggiero"];

fn ecliptic() -> Frame {
    almanac().frame_info(EARTH_J2000.with_orient(17)).unwrap()
}
fn props(k: f64) -> PhysicalProperties {
    PhysicalProperties {
        mass: Some(Mass { dry_mass_kg: 10.0 * k, prop_mass_kg: 4.0 * k, extra_mass_kg: 1.5 * k }),
        srp: Some(SRPData { area_m2: 3.0 * k, coeff_reflectivity: 0.1 * k }),
        drag: Some(DragData { area_m2: 2.0 * k, coeff_drag: 0.2 * k }),
    }
}
fn burn(start: f64) -> Maneuver {
    Maneuver::from_time_invariant(t0() + s(start + 120.0), t0() + s(start + 420.0), 0.5, Vector3::new(0.6, 0.0, 0.8), LocalFrame::VNC)
}
fn raise() -> Objective {
    Objective::new(StateParameter::Element(OE::SemiMajorAxis), 50_000.0)
}
fn impulse(kind: usize) -> Option<ImpulsiveManeuver> {
    let (f, v) = match kind {
        2 => (LocalFrame::VNC, [0.02, 0.005, -0.01]),
        4 => (LocalFrame::RIC, [0.01, -0.02, 0.004]),
        5 => (LocalFrame::Inertial, [0.0, 0.03, 0.01]),
        _ => return None,
    };
    Some(ImpulsiveManeuver { local_frame: f, dv_km_s: v.into() })
}
/// (guidance law, thruster set, propellant mass kept)
fn guided(kind: usize, start: f64) -> Option<(SteeringLaw, usize, bool)> {
    match kind {
        9 => Some((SteeringLaw::FiniteBurn(burn(start)), 0, false)),
        10 => Some((SteeringLaw::Kluever { objectives: vec![ObjectiveWeight { objective: raise(), weight: 1.0 }], max_eclipse_prct: None }, 1, true)),
        11 => Some((SteeringLaw::Ruggiero { objectives: vec![ObjectiveEfficiency { objective: raise(), efficiency: 0.0 }], max_eclipse_prct: None }, 1, false)),
        _ => None,
    }
}
const THRUSTERS: [Thruster; 2] = [Thruster { thrust_N: 40.0, isp_s: 300.0 }, Thruster { thrust_N: 5.0, isp_s: 1500.0 }];

fn options(fine: bool) -> IntegratorOptions {
    if fine { IntegratorOptions::with_fixed_step(s(60.0)) } else { IntegratorOptions::with_adaptive_step(s(0.1), s(120.0), 1e-11, ErrorControl::RSSCartesianStep) }
}
fn configs() -> [(&'static str, PropagatorConfig); 2] {
    let alm = almanac();
    [
        (
            "rough",
            PropagatorConfig {
                method: IntegratorMethod::DormandPrince78,
                options: options(false),
                dynamics: Dynamics { accel_models: AccelModels { point_masses: Some(PointMasses::new(vec![399, 301, 10])), ..Default::default() }, force_models: ForceModels::default() },
            },
        ),
        (
            "fine",
            PropagatorConfig {
                method: IntegratorMethod::RungeKutta89,
                options: options(true),
                dynamics: Dynamics {
                    accel_models: AccelModels { point_masses: Some(PointMasses::new(vec![399, 301])), ..Default::default() },
                    force_models: ForceModels { solar_pressure: Some(SolarPressure::default_flux_raw(vec![EARTH_J2000], &alm).unwrap()), drag: None },
                },
            },
        ),
    ]
}
fn by_hand(fine: bool) -> (SpacecraftDynamics, IntegratorMethod, IntegratorOptions) {
    if fine {
        (
            SpacecraftDynamics::from_model(OrbitalDynamics::new(vec![Arc::new(PointMasses::new(vec![399, 301]))]), SolarPressure::default_flux(EARTH_J2000, &almanac()).unwrap()),
            IntegratorMethod::RungeKutta89,
            options(true),
        )
    } else {
        (SpacecraftDynamics::new(OrbitalDynamics::new(vec![Arc::new(PointMasses::new(vec![399, 301, 10]))])), IntegratorMethod::DormandPrince78, options(false))
    }
}
/// The propagator of each kind of phase.
fn fine(kind: usize) -> bool {
    matches!(kind, 1 | 3 | 4)
}

fn phase(i: usize, kind: usize, start: f64, disabled: bool) -> Phase {
    let impulsive_maneuver = impulse(kind);
    let on_entry = match kind {
        2 => Some(DiscreteEvent::Staging { impulsive_maneuver, decrement_properties: None }),
        3 => Some(DiscreteEvent::Staging { impulsive_maneuver, decrement_properties: Some(props(1.0)) }),
        4 => Some(DiscreteEvent::Docking { impulsive_maneuver, increment_properties: Some(props(2.0)) }),
        5 => Some(DiscreteEvent::Docking { impulsive_maneuver, increment_properties: None }),
        6 => Some(DiscreteEvent::FrameSwap { new_frame: almanac().frame_info(MOON_J2000).unwrap() }),
        7 => Some(DiscreteEvent::FrameSwap { new_frame: almanac().frame_info(EARTH_J2000).unwrap() }),
        8 => Some(DiscreteEvent::FrameSwap { new_frame: ecliptic() }),
        _ => None,
    };
    Phase::Activity {
        name: format!("phase {i}"),
        propagator: if fine(kind) { "fine" } else { "rough" }.into(),
        guidance: guided(kind, start).map(|(law, n, keep)| Box::new(GuidanceConfig { thruster_model: format!("set {n}"), disable_prop_mass: keep, law })),
        on_entry: on_entry.map(Box::new),
        disabled,
    }
}

/// What entering a phase does to the spacecraft.
fn enter(mut x: Spacecraft, kind: usize) -> Result<Spacecraft, String> {
    if let Some(m) = impulse(kind) {
        let d = axes(m.local_frame, x.orbit.radius_km, x.orbit.velocity_km_s) * m.dv_km_s;
        x.orbit.velocity_km_s += d;
    }
    let sign = match kind {
        3 => -1.0,
        4 => 2.0,
        _ => 0.0,
    };
    x.mass.dry_mass_kg += 10.0 * sign;
    x.mass.prop_mass_kg += 4.0 * sign;
    x.mass.extra_mass_kg += 1.5 * sign;
    x.srp.area_m2 += 3.0 * sign;
    x.srp.coeff_reflectivity += 0.1 * sign;
    x.drag.area_m2 += 2.0 * sign;
    x.drag.coeff_drag += 0.2 * sign;
    let frame = match kind {
        6 => almanac().frame_info(MOON_J2000).unwrap(),
        7 => almanac().frame_info(EARTH_J2000).unwrap(),
        8 => ecliptic(),
        _ => return Ok(x),
    };
    x.orbit = almanac().transform_to(x.orbit, frame, None).map_err(|e| e.to_string())?;
    Ok(x)
}

fn fly(x: Spacecraft, kind: usize, start: f64, until: f64) -> Result<(Spacecraft, Trajectory), String> {
    let (mut d, m, o) = by_hand(fine(kind));
    let mut x = x;
    if let Some((law, n, keep)) = guided(kind, start) {
        x.thruster = Some(THRUSTERS[n]);
        d.decrement_mass = !keep;
        d.guid_law = Some(match law {
            SteeringLaw::FiniteBurn(b) => Arc::new(b),
            SteeringLaw::Kluever { .. } => Kluever::new(&[raise()], &[1.0]),
            SteeringLaw::Ruggiero { .. } => Ruggiero::simple(&[raise()], x).map_err(|e| e.to_string())?,
        });
    }
    Propagator::new(d, m, o).with(x, almanac()).until_epoch_with_traj(t0() + s(until)).map_err(|e| e.to_string())
}

fn same(t: &mut Tally, what: &str, a: &Spacecraft, b: &Spacecraft) -> Result<(), String> {
    t.ensure(a.epoch() == b.epoch(), || format!("{what}: at {} instead of {}", a.epoch(), b.epoch()))?;
    t.ensure(a.orbit.frame == b.orbit.frame, || format!("{what}: in {} instead of {}", a.orbit.frame, b.orbit.frame))?;
    t.close(&format!("{what}: position"), (a.orbit.radius_km - b.orbit.radius_km).norm(), 0.0, 1e-6)?;
    t.close(&format!("{what}: velocity"), (a.orbit.velocity_km_s - b.orbit.velocity_km_s).norm(), 0.0, 1e-9)?;
    for (n, p, q) in [
        ("dry mass", a.mass.dry_mass_kg, b.mass.dry_mass_kg),
        ("propellant", a.mass.prop_mass_kg, b.mass.prop_mass_kg),
        ("extra mass", a.mass.extra_mass_kg, b.mass.extra_mass_kg),
        ("SRP area", a.srp.area_m2, b.srp.area_m2),
        ("Cr", a.srp.coeff_reflectivity, b.srp.coeff_reflectivity),
        ("drag area", a.drag.area_m2, b.drag.area_m2),
        ("Cd", a.drag.coeff_drag, b.drag.coeff_drag),
    ] {
        t.close(&format!("{what}: {n}"), p, q, 1e-9)?;
    }
    t.ensure(a.thruster == b.thruster, || format!("{what}: thruster {:?} instead of {:?}", a.thruster, b.thruster))
}

/// Phases (kind, disabled), one every ten minutes, then the end.
fn sequence(ph: &[(usize, bool)]) -> SpacecraftSequence {
    let mut q = SpacecraftSequence::default();
    for (n, c) in configs() {
        q.propagators.insert(n.into(), c);
    }
    for (n, th) in THRUSTERS.iter().enumerate() {
        q.thruster_sets.insert(format!("set {n}"), *th);
    }
    for (i, (k, d)) in ph.iter().enumerate() {
        let start = LEN * i as f64;
        q.seq.insert(t0() + s(start), phase(i, *k, start, *d));
    }
    q.seq.insert(t0() + s(LEN * ph.len() as f64), Phase::Terminate);
    q
}

fn craft(at: f64) -> Spacecraft {
    let mut o = zoo_full(1);
    o.epoch = t0() + s(at);
    Spacecraft::builder()
        .orbit(o)
        .mass(Mass { dry_mass_kg: 500.0, prop_mass_kg: 100.0, extra_mass_kg: 20.0 })
        .srp(SRPData { area_m2: 20.0, coeff_reflectivity: 1.3 })
        .drag(DragData { area_m2: 10.0, coeff_drag: 2.1 })
        .build()
}

fn run(t: &mut Tally, ph: &[(usize, bool)], at: f64, until: Option<usize>) -> Result<(), String> {
    let mut q = sequence(ph);
    q.setup(almanac())?;
    let end = LEN * ph.len() as f64;
    // The phases which are flown: those which are enabled, each until the next one.
    let stop = until.map(|u| LEN * u as f64).unwrap_or(end);
    let live: Vec<usize> = (0..ph.len()).filter(|i| !ph[*i].1).collect();
    let mut want: Vec<(usize, f64, bool)> = vec![]; // phase, until, entered
    for (n, i) in live.iter().enumerate() {
        let (start, next) = (LEN * *i as f64, live.get(n + 1).map(|j| LEN * *j as f64).unwrap_or(end));
        if next <= at || start >= stop || until.is_some() && at >= stop {
            continue;
        }
        want.push((*i, next.min(stop), at <= start));
    }
    let mut x = craft(at);
    let mut segs = vec![];
    let mut failed = None;
    for (i, to, entered) in want {
        let start = LEN * i as f64;
        let r = if entered { enter(x, ph[i].0) } else { Ok(x) }.and_then(|x| fly(x, ph[i].0, start, to));
        match r {
            Ok((y, tr)) => {
                x = y;
                segs.push((i, tr));
            }
            Err(e) => {
                failed = Some(e);
                break;
            }
        }
    }
    let got = q.propagate(craft(at), until.map(|u| format!("phase {u}")), almanac());
    t.step();
    if let Some(e) = failed {
        return t.ensure(got.is_err(), || format!("a phase which cannot be flown ({e}) is an error"));
    }
    let got = got.map_err(|e| e.to_string())?;
    t.ensure(got.len() == segs.len(), || format!("{} trajectories instead of {}", got.len(), segs.len()))?;
    for (g, (i, w)) in got.iter().zip(&segs) {
        t.step();
        let what = format!("phase {i}");
        t.ensure(g.name.as_deref() == Some(&what), || format!("{what} is named {:?}", g.name))?;
        same(t, &format!("{what}, first"), g.first(), w.first())?;
        same(t, &format!("{what}, last"), g.last(), w.last())?;
        let mid = w.first().epoch() + (w.last().epoch() - w.first().epoch()) * 0.4;
        let (a, b) = (g.at(mid).map_err(|e| e.to_string())?, w.at(mid).map_err(|e| e.to_string())?);
        t.close(&format!("{what}: half way"), (a.orbit.radius_km - b.orbit.radius_km).norm(), 0.0, 1e-5)?;
        t.see_f(&[g.last().orbit.radius_km.x, g.last().orbit.velocity_km_s.y, g.last().mass.prop_mass_kg]);
    }
    Ok(())
}

pub fn c26(tier: Tier) -> Space {
    let mut sp = Space::new("every sequence of up to two phases of every kind (three of a smaller set; thorough: three of every kind), each enabled or disabled, from every epoch before, at, between and after the phases, until the end and until every later phase; every subset of the models of a propagator configuration with every method; every way a sequence can be invalid; every subset of the properties of an entry event with every impulse; guidance laws with their eclipse limits over a pass through the shadow");
    let label = |ph: &[(usize, bool)]| ph.iter().map(|(k, d)| format!("{}{}", if *d { "-" } else { "" }, KINDS[*k])).collect::<Vec<_>>().join("+");
    let mut plans: Vec<Vec<(usize, bool)>> = vec![];
    for n in 1..=2usize {
        for idx in product(&vec![KINDS.len() * 2; n]) {
            plans.push(idx.iter().map(|i| (i / 2, i % 2 == 1)).collect());
        }
    }
    let small: Vec<usize> = if tier.thorough() { (0..KINDS.len()).collect() } else { vec![0, 2, 4, 6, 8, 9] };
    for idx in product(&vec![small.len() * 2; 3]) {
        plans.push(idx.iter().map(|i| (small[i / 2], i % 2 == 1)).collect());
    }
    if tier.thorough() {
        for idx in product(&vec![10; 4]) {
            let few = [0, 2, 6, 8, 9];
            plans.push(idx.iter().map(|i| (few[i / 2], i % 2 == 1)).collect());
        }
    }
    for ph in plans {
        let n = ph.len();
        let mut ats = vec![-100.0];
        for k in 0..=n {
            ats.push(LEN * k as f64);
            ats.push(LEN * k as f64 + 250.0);
        }
        let ph2 = ph.clone();
        sp.push(format!("plan/{}", label(&ph)), move |t| {
            for at in &ats {
                let mut untils = vec![None];
                untils.extend((0..n).filter(|u| LEN * *u as f64 >= *at).map(Some));
                for u in untils {
                    run(t, &ph2, *at, u).map_err(|e| format!("from {at} s until {u:?}: {e}"))?;
                }
            }
            Ok(())
        });
    }
    // The models, the method and the options of a configuration.
    let gpath = scratch("c26.cof");
    {
        let cof = |x: f64| format!("{x:.14e}");
        let mut txt = String::new();
        for (n, m, c, q) in [(2, 0, -4.84165e-4, 0.0), (2, 1, 1e-9, 2e-9), (2, 2, 2.4e-6, -1.4e-6)] {
            txt += &if m == 0 { format!("RECOEF  {n:3}{m:3}{:>23}\n", cof(c)) } else { format!("RECOEF  {n:3}{m:3}{:>23}{:>21}\n", cof(c), cof(q)) };
        }
        txt += "END\n";
        std::fs::write(&gpath, txt).unwrap();
    }
    for idx in product(&[2, 2, 2, 2, 2, METHODS.len(), 2]) {
        let gpath = gpath.clone();
        sp.push(format!("config/{idx:?}"), move |t| {
            let alm = almanac();
            let on = |k: usize| idx[k] == 1;
            let iau = alm.frame_info(IAU_EARTH_FRAME).unwrap();
            let tides = SolidTides { frame: iau, k2: 0.3, k3: 0.1, perturbers: vec![TidalPerturber { frame: alm.frame_info(MOON_J2000).unwrap(), compute_degree_3: true }, TidalPerturber { frame: alm.frame_info(SUN_J2000).unwrap(), compute_degree_3: false }] };
            let drag = Drag { density: AtmDensity::Constant(1e-9), frame: iau, estimate: false };
            let srp = SolarPressure::default_flux_raw(vec![EARTH_J2000], &alm).unwrap();
            let pm = PointMasses::new(vec![10, 301]);
            let gf = GravityFieldConfig { degree: 2, order: 2, filepath: gpath.clone(), gunzipped: false, frame: IAU_EARTH_FRAME.into() };
            let method = METHODS[idx[5]].1;
            let opts = if on(6) { IntegratorOptions::with_fixed_step(s(10.0)) } else { IntegratorOptions::with_adaptive_step(s(0.5), s(90.0), 1e-9, ErrorControl::RSSCartesianStep) };
            let cfg = PropagatorConfig {
                method,
                options: opts,
                dynamics: Dynamics {
                    accel_models: AccelModels { point_masses: on(0).then(|| pm.clone()), gravity_field: on(1).then(|| gf.clone()), solid_tides: on(2).then(|| tides.clone()) },
                    force_models: ForceModels { solar_pressure: on(3).then(|| srp.clone()), drag: on(4).then_some(drag) },
                },
            };
            let mut od = OrbitalDynamics::two_body();
            if on(0) {
                od.accel_models.push(Arc::new(pm));
            }
            if on(1) {
                od.accel_models.push(GravityField::new(GravityFieldData::from_cof(&gpath, 2, 2, false, iau).map_err(|e| e.to_string())?));
            }
            if on(2) {
                od.accel_models.push(Arc::new(tides));
            }
            let mut d = SpacecraftDynamics::new(od);
            if on(3) {
                d.force_models.push(Arc::new(srp));
            }
            if on(4) {
                d.force_models.push(Arc::new(drag));
            }
            let mut x = craft(0.0);
            x.orbit = zoo_full(0);
            let want = Propagator::new(d, method, opts).with(x, alm.clone()).for_duration(s(900.0)).map_err(|e| e.to_string())?;
            let got = cfg.build(alm.clone())?.with(x, alm.clone()).for_duration(s(900.0)).map_err(|e| e.to_string())?;
            t.step();
            t.see_f(&[got.orbit.radius_km.x, got.orbit.radius_km.y]);
            same(t, "propagator", &got, &want)?;
            // The same configuration as the only propagator of a sequence.
            let mut q = SpacecraftSequence::default();
            q.propagators.insert("it".into(), cfg);
            q.seq.insert(t0(), Phase::Activity { name: "only".into(), propagator: "it".into(), guidance: None, on_entry: None, disabled: false });
            q.seq.insert(t0() + s(900.0), Phase::Terminate);
            q.setup(alm.clone())?;
            let tr = q.propagate(x, None, alm).map_err(|e| e.to_string())?;
            t.ensure(tr.len() == 1, || format!("{} trajectories", tr.len()))?;
            same(t, "sequence", tr[0].last(), &want)
        });
    }
    // Validity.
    for idx in product(&[2, 2, 2, 2, 2, 2]) {
        sp.push(format!("valid/{idx:?}"), move |t| {
            let on = |k: usize| idx[k] == 1;
            let mut q = sequence(&[(0, false), (9, false)]);
            let mut bad = false;
            if on(0) {
                // No end
                q.seq.remove(&(t0() + s(2.0 * LEN)));
                bad = true;
            }
            if on(1) {
                q.propagators.remove("rough");
                bad = true;
            }
            if on(2) {
                q.thruster_sets.remove("set 0");
                bad = true;
            }
            if on(3) {
                q.seq.clear();
                bad = true;
            }
            if on(4) {
                // A phase after the end
                q.seq.insert(t0() + s(5000.0), phase(7, 1, 5000.0, false));
                bad = true;
            }
            t.step();
            let v = q.validate();
            t.see(&v.is_ok());
            t.ensure(v.is_err() == bad, || format!("validation: {v:?}"))?;
            if on(5) {
                let r = q.setup(almanac());
                t.ensure(r.is_err() == v.is_err(), || format!("setup: {r:?}, validation: {v:?}"))?;
            }
            // Whatever has been called before, propagation is never a panic.
            let r = q.propagate(craft(0.0), None, almanac());
            t.ensure(r.is_ok() == (on(5) && !bad), || format!("propagation: {:?}", r.as_ref().map(|x| x.len()).map_err(|e| e.to_string())))
        });
    }
    // The configuration of the latest setup counts.
    for (a, b) in [("rough", "fine"), ("fine", "rough")] {
        sp.push(format!("setup-again/{a}/{b}"), move |t| {
            let mut q = sequence(&[(0, false)]);
            let cfg = |n: &str| configs().into_iter().find(|c| c.0 == n).unwrap().1;
            q.propagators.insert("rough".into(), cfg(a));
            q.setup(almanac())?;
            let first = q.propagate(craft(0.0), None, almanac()).map_err(|e| e.to_string())?;
            q.propagators.insert("rough".into(), cfg(b));
            q.setup(almanac())?;
            let second = q.propagate(craft(0.0), None, almanac()).map_err(|e| e.to_string())?;
            t.steps(2);
            let kind = |n: &str| if n == "fine" { 1 } else { 0 };
            same(t, "first", first[0].last(), &fly(craft(0.0), kind(a), 0.0, LEN)?.0)?;
            same(t, "second", second[0].last(), &fly(craft(0.0), kind(b), 0.0, LEN)?.0)
        });
    }
    // Entry events with only some of their properties.
    for dock in [false, true] {
        for k in 0..5usize {
            for mask in 0..9usize {
                sp.push(format!("entry/{}/{k}/{mask}", if dock { "dock" } else { "stage" }), move |t| {
                    let impulsive_maneuver = if k == 0 { None } else { impulse([2, 4, 5, 2][k - 1]).map(|m| ImpulsiveManeuver { local_frame: if k == 4 { LocalFrame::RCN } else { m.local_frame }, ..m }) };
                    let all = props(0.7);
                    let change = (mask < 8).then(|| PhysicalProperties { mass: all.mass.filter(|_| mask & 1 != 0), srp: all.srp.filter(|_| mask & 2 != 0), drag: all.drag.filter(|_| mask & 4 != 0) });
                    let mut want = craft(0.0);
                    if let Some(m) = &impulsive_maneuver {
                        want.orbit.velocity_km_s += axes(m.local_frame, want.orbit.radius_km, want.orbit.velocity_km_s) * m.dv_km_s;
                    }
                    if let Some(c) = &change {
                        let f = if dock { 1.0 } else { -1.0 };
                        if let Some(m) = c.mass {
                            want.mass.dry_mass_kg += f * m.dry_mass_kg;
                            want.mass.prop_mass_kg += f * m.prop_mass_kg;
                            want.mass.extra_mass_kg += f * m.extra_mass_kg;
                        }
                        if let Some(x) = c.srp {
                            want.srp.area_m2 += f * x.area_m2;
                            want.srp.coeff_reflectivity += f * x.coeff_reflectivity;
                        }
                        if let Some(x) = c.drag {
                            want.drag.area_m2 += f * x.area_m2;
                            want.drag.coeff_drag += f * x.coeff_drag;
                        }
                    }
                    let event = if dock { DiscreteEvent::Docking { impulsive_maneuver, increment_properties: change } } else { DiscreteEvent::Staging { impulsive_maneuver, decrement_properties: change } };
                    let mut q = sequence(&[(0, false)]);
                    if let Phase::Activity { on_entry, .. } = q.seq.get_mut(&t0()).unwrap() {
                        *on_entry = Some(Box::new(event));
                    }
                    q.setup(almanac())?;
                    let got = q.propagate(craft(0.0), None, almanac()).map_err(|e| e.to_string())?;
                    t.step();
                    same(t, "after the event", got[0].first(), &want)?;
                    same(t, "at the end", got[0].last(), &fly(want, 0, 0.0, LEN)?.0)
                });
            }
        }
    }
    // Guidance with its objectives, weights or thresholds, and eclipses.
    for v in product(&[4, 2, 3, 2]) {
        let (orb, rug, ecl, keep) = ([1usize, 0, 3, 4][v[0]], v[1] == 1, [None, Some(0.2), Some(1.0)][v[2]], v[3] == 1);
        sp.push(format!("guided/{}/{}/{ecl:?}/{keep}", ORBITS[orb].0, if rug { "ruggiero" } else { "kluever" }), move |t| {
            let mut x = craft(0.0);
            x.orbit = zoo_full(orb);
            let objectives = [raise(), Objective::within_tolerance(StateParameter::Element(OE::Inclination), 40.0, 0.1)];
            let law = if rug {
                SteeringLaw::Ruggiero { objectives: objectives.iter().map(|o| ObjectiveEfficiency { objective: *o, efficiency: 0.3 }).collect(), max_eclipse_prct: ecl }
            } else {
                SteeringLaw::Kluever { objectives: objectives.iter().zip([1.0, 0.4]).map(|(o, weight)| ObjectiveWeight { objective: *o, weight }).collect(), max_eclipse_prct: ecl }
            };
            let mut q = sequence(&[(0, false), (0, false)]);
            if let Phase::Activity { guidance, .. } = q.seq.get_mut(&t0()).unwrap() {
                *guidance = Some(Box::new(GuidanceConfig { thruster_model: "set 1".into(), disable_prop_mass: keep, law }));
            }
            // The guided phase is longer, such that it crosses the shadow.
            let (ph, n) = (q.seq.remove(&(t0() + s(LEN))).unwrap(), 6600.0);
            q.seq.remove(&(t0() + s(2.0 * LEN)));
            q.seq.insert(t0() + s(n), ph);
            q.seq.insert(t0() + s(n + LEN), Phase::Terminate);
            q.setup(almanac())?;
            let got = q.propagate(x, None, almanac()).map_err(|e| e.to_string())?;
            t.step();
            let (mut d, m, o) = by_hand(false);
            x.thruster = Some(THRUSTERS[1]);
            d.decrement_mass = !keep;
            d.guid_law = Some(match (rug, ecl) {
                (true, None) => Ruggiero::from_ηthresholds(&objectives, &[0.3, 0.3], x).map_err(|e| e.to_string())?,
                (true, Some(e)) => {
                    let mut law = (*Ruggiero::from_ηthresholds(&objectives, &[0.3, 0.3], x).map_err(|e| e.to_string())?).clone();
                    law.set_max_eclipse(e);
                    Arc::new(law)
                }
                (false, None) => Kluever::new(&objectives, &[1.0, 0.4]),
                (false, Some(e)) => Kluever::from_max_eclipse(&objectives, &[1.0, 0.4], e),
            });
            let (y, tr) = Propagator::new(d, m, o).with(x, almanac()).until_epoch_with_traj(t0() + s(n)).map_err(|e| e.to_string())?;
            t.ensure(got.len() == 2, || format!("{} trajectories", got.len()))?;
            same(t, "guided", got[0].last(), &y)?;
            let modes = |tr: &Trajectory| tr.states.iter().filter(|x| x.mode == nyx_space::cosmic::GuidanceMode::Thrust).count();
            t.see(&(modes(&tr), tr.states.len()));
            t.ensure(got[0].states.len() == tr.states.len() && modes(&got[0]) == modes(&tr), || format!("{} thrusting steps instead of {}", modes(&got[0]), modes(&tr)))?;
            // Guidance ends with its phase.
            let (z, _) = {
                let (d, m, o) = by_hand(false);
                Propagator::new(d, m, o).with(y, almanac()).until_epoch_with_traj(t0() + s(n + LEN)).map_err(|e| e.to_string())?
            };
            same(t, "then", got[1].last(), &z)
        });
    }
    sp
}
