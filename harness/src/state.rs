//! C33: spacecraft states and their parameters.
use crate::core::*;
use crate::guid::axes;
use crate::mc::{value, wrapped};
use crate::world::*;
use anise::analysis::prelude::OrbitalElement as OE;
use nalgebra::{SMatrix, SVector, Vector3};
use nyx_space::cosmic::{DragData, GuidanceMode, Mass, SRPData};
use nyx_space::dynamics::guidance::{LocalFrame, Thruster};
use nyx_space::md::StateParameter as SP;
use nyx_space::{Spacecraft, State};

type V3 = Vector3<f64>;

/// Position and velocity from a, e and angles (degrees).
pub fn from_elements(mu: f64, a: f64, e: f64, inc: f64, raan: f64, aop: f64, ta: f64) -> (V3, V3) {
    let (i, o, w, n) = (inc.to_radians(), raan.to_radians(), aop.to_radians(), ta.to_radians());
    let p = a * (1.0 - e * e);
    let r = p / (1.0 + e * n.cos());
    let node = V3::new(o.cos(), o.sin(), 0.0);
    let m = V3::new(-o.sin() * i.cos(), o.cos() * i.cos(), i.sin());
    let dir = |x: f64| node * x.cos() + m * x.sin();
    let k = (mu / p).sqrt();
    (dir(w + n) * r, (dir(w + n + std::f64::consts::FRAC_PI_2) * (1.0 + e * n.cos()) + dir(w + n) * e * n.sin()) * k)
}

/// The model of a spacecraft.
#[derive(Clone, Debug)]
struct Model {
    r: V3,
    v: V3,
    dry: f64,
    prop: f64,
    extra: f64,
    cr: f64,
    cd: f64,
    engine: Option<(f64, f64)>,
    dir: Option<V3>,
    mode: GuidanceMode,
}
const KEP: [OE; 6] = [OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::RAAN, OE::AoP, OE::TrueAnomaly];
impl Model {
    /// Elements are well defined.
    fn regular(&self) -> bool {
        let (e, i) = (value(OE::Eccentricity, self.r, self.v), value(OE::Inclination, self.r, self.v));
        (1e-3..0.95).contains(&e) && (2.0..178.0).contains(&i)
    }
    /// Err: the parameter cannot be set.
    fn set(&mut self, p: SP, x: f64) -> Result<(), ()> {
        match p {
            SP::Cd() => self.cd = x,
            SP::Cr() => self.cr = x,
            SP::PropMass() => self.prop = x,
            SP::DryMass() => self.dry = x,
            SP::Isp() => self.engine.as_mut().ok_or(())?.1 = x,
            SP::Thrust() => self.engine.as_mut().ok_or(())?.0 = x,
            SP::ThrustX() => self.dir.get_or_insert(V3::zeros()).x = x,
            SP::ThrustY() => self.dir.get_or_insert(V3::zeros()).y = x,
            SP::ThrustZ() => self.dir.get_or_insert(V3::zeros()).z = x,
            SP::Element(OE::X) => self.r.x = x,
            SP::Element(OE::Y) => self.r.y = x,
            SP::Element(OE::Z) => self.r.z = x,
            SP::Element(OE::VX) => self.v.x = x,
            SP::Element(OE::VY) => self.v.y = x,
            SP::Element(OE::VZ) => self.v.z = x,
            SP::Element(OE::Rmag) => self.r *= x / self.r.norm(),
            SP::Element(OE::Vmag) => self.v *= x / self.v.norm(),
            SP::Element(e) => {
                let k = KEP.iter().position(|y| *y == e).ok_or(())?;
                let mut el = KEP.map(|y| value(y, self.r, self.v));
                el[k] = x;
                (self.r, self.v) = from_elements(MU, el[0], el[1], el[2], el[3], el[4], el[5]);
            }
            _ => return Err(()),
        }
        Ok(())
    }
}
fn settable() -> Vec<(SP, f64)> {
    let mut v = vec![
        (SP::Cd(), 2.4),
        (SP::Cr(), 1.25),
        (SP::PropMass(), 33.0),
        (SP::DryMass(), 900.0),
        (SP::Isp(), 250.0),
        (SP::Thrust(), 0.3),
        (SP::ThrustX(), 0.6),
        (SP::ThrustY(), -0.8),
        (SP::ThrustZ(), 0.25),
        (SP::TotalMass(), 1.0),
        (SP::GuidanceMode(), 1.0),
        (SP::Epoch(), 1.0),
        (SP::BdotR(), 5.0),
        (SP::BdotT(), 5.0),
        (SP::ThrustInPlane(LocalFrame::RIC), 5.0),
        (SP::ThrustOutOfPlane(LocalFrame::VNC), 5.0),
    ];
    for (e, x) in [
        (OE::X, 4100.0),
        (OE::Y, -5200.0),
        (OE::Z, 3300.0),
        (OE::VX, -1.5),
        (OE::VY, 2.5),
        (OE::VZ, 3.5),
        (OE::Rmag, 9000.0),
        (OE::Vmag, 6.0),
        (OE::SemiMajorAxis, 12_000.0),
        (OE::Eccentricity, 0.2),
        (OE::Inclination, 50.0),
        (OE::RAAN, 200.0),
        (OE::AoP, 70.0),
        (OE::TrueAnomaly, 130.0),
        (OE::TrueAnomaly, 300.0),
        (OE::HX, 1.0),
        (OE::Period, 6000.0),
        (OE::Declination, 4.0),
        (OE::PeriapsisRadius, 7000.0),
    ] {
        v.push((SP::Element(e), x));
    }
    v
}
fn start(oi: usize, engine: bool, mode: usize) -> (Spacecraft, Model) {
    let o = zoo(oi);
    let mut x = Spacecraft::builder()
        .orbit(o)
        .mass(Mass { dry_mass_kg: 700.0, prop_mass_kg: 80.0, extra_mass_kg: 5.0 })
        .srp(SRPData { area_m2: 11.0, coeff_reflectivity: 1.8 })
        .drag(DragData { area_m2: 7.0, coeff_drag: 2.2 })
        .build();
    x.mode = [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][mode % 3];
    let dir = (mode / 3 == 1).then(|| V3::new(0.48, 0.6, -0.64));
    if engine {
        x.thruster = Some(Thruster { thrust_N: 1.5, isp_s: 310.0 });
    }
    x.mut_thrust_direction(dir.map(|d| d * 2.5));
    let m = Model { r: o.radius_km, v: o.velocity_km_s, dry: 700.0, prop: 80.0, extra: 5.0, cr: 1.8, cd: 2.2, engine: engine.then_some((1.5, 310.0)), dir, mode: x.mode };
    (x, m)
}
const ORBITAL: [OE; 26] = [
    OE::X, OE::Y, OE::Z, OE::VX, OE::VY, OE::VZ, OE::Rmag, OE::Vmag, OE::HX, OE::HY, OE::HZ, OE::Hmag, OE::Energy, OE::C3, OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::RAAN, OE::AoP, OE::TrueAnomaly, OE::AoL, OE::PeriapsisRadius,
    OE::ApoapsisRadius, OE::SemiParameter, OE::SemiMinorAxis, OE::Declination,
];
fn agree(t: &mut Tally, x: &Spacecraft, m: &Model, tol: f64) -> Result<(), String> {
    t.close("position", (x.orbit.radius_km - m.r).norm(), 0.0, tol * m.r.norm())?;
    t.close("velocity", (x.orbit.velocity_km_s - m.v).norm(), 0.0, tol * m.v.norm())?;
    t.ensure(x.epoch() == t0() && x.orbit.epoch == t0() && x.orbit.frame == earth(), || "epoch or frame changed".into())?;
    let same = [
        ("dry mass", x.mass.dry_mass_kg, m.dry),
        ("propellant", x.mass.prop_mass_kg, m.prop),
        ("extra mass", x.mass.extra_mass_kg, m.extra),
        ("total mass", x.mass_kg(), m.dry + m.prop + m.extra),
        ("Cr", x.srp.coeff_reflectivity, m.cr),
        ("Cd", x.drag.coeff_drag, m.cd),
        ("SRP area", x.srp.area_m2, 11.0),
        ("drag area", x.drag.area_m2, 7.0),
    ];
    for (n, a, b) in same {
        t.close(n, a, b, 1e-12)?;
    }
    t.ensure(x.thruster.map(|e| (e.thrust_N, e.isp_s)) == m.engine, || format!("thruster {:?}", x.thruster))?;
    t.ensure(x.mode == m.mode && x.mode() == m.mode, || format!("mode {:?}", x.mode))?;
    let d = x.thrust_direction();
    t.ensure(d.is_some() == m.dir.is_some() && (d.unwrap_or_default() - m.dir.unwrap_or_default()).norm() < 1e-15, || format!("thrust direction {d:?}, expected {:?}", m.dir))?;
    // As parameters.
    let mode = match m.mode {
        GuidanceMode::Coast => 0.0,
        GuidanceMode::Thrust => 1.0,
        GuidanceMode::Inhibit => -1.0,
    };
    let mut want: Vec<(SP, Option<f64>)> = vec![
        (SP::DryMass(), Some(m.dry)),
        (SP::PropMass(), Some(m.prop)),
        (SP::TotalMass(), Some(m.dry + m.prop + m.extra)),
        (SP::Cr(), Some(m.cr)),
        (SP::Cd(), Some(m.cd)),
        (SP::Thrust(), m.engine.map(|e| e.0)),
        (SP::Isp(), m.engine.map(|e| e.1)),
        (SP::GuidanceMode(), Some(mode)),
        (SP::ThrustX(), m.dir.map(|d| d.x)),
        (SP::ThrustY(), m.dir.map(|d| d.y)),
        (SP::ThrustZ(), m.dir.map(|d| d.z)),
        (SP::Epoch(), None),
    ];
    if m.dir.is_none_or(|d| d.norm() <= 1.0 && d.norm() > 0.0) {
        for f in [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::VNC, LocalFrame::RCN] {
            let l = m.dir.map(|d| axes(f, m.r, m.v).transpose() * d);
            want.push((SP::ThrustInPlane(f), l.map(|l| l.y.atan2(l.x).to_degrees())));
            want.push((SP::ThrustOutOfPlane(f), l.map(|l| l.z.asin().to_degrees())));
        }
    }
    for (p, w) in want {
        let g = x.value(p).ok();
        t.step();
        match (g, w) {
            (Some(g), Some(w)) => {
                let d = if matches!(p, SP::ThrustInPlane(_)) { (g - w + 180.0).rem_euclid(360.0) - 180.0 } else { g - w };
                t.close(&format!("{p:?}"), d, 0.0, if matches!(p, SP::ThrustInPlane(_) | SP::ThrustOutOfPlane(_)) { 1e-4 } else { 1e-12 })?;
            }
            (None, None) => {}
            _ => return Err(format!("{p:?}: {g:?}, expected {w:?}")),
        }
    }
    if m.regular() {
        for e in ORBITAL {
            let (g, w) = (x.value(SP::Element(e)).map_err(|e| e.to_string())?, value(e, m.r, m.v));
            t.close(&format!("{e:?}"), wrapped(SP::Element(e), g - w), 0.0, 1e-7 * (1.0 + w.abs()))?;
        }
        t.ensure(x.value(SP::BdotR()).is_err() && x.value(SP::BdotT()).is_err(), || "B-plane of a closed orbit".into())?;
    }
    Ok(())
}

pub fn c33(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every history of parameter changes (settable, read-only and unavailable ones) up to the depth, from every orbit with and without thruster, guidance mode and thrust direction; grids of state vectors, deviations and transition matrices; builders",
    );
    sp.assumptions.push("Elements are changed only where they are defined: eccentricity from 0.001 to 0.95, inclination 2 degrees away from the equator.".into());
    let n = settable().len();
    for oi in 0..ORBITS.len() {
        for engine in [false, true] {
            for mode in 0..6usize {
                for h in sequences(n, 1, if mode == 3 && oi == 1 || tier.thorough() && mode % 3 == 0 { 3 } else { 2 }) {
                    sp.push(format!("set/{}/{engine}/{mode}/{h:?}", ORBITS[oi].0), move |t| {
                        let ops = settable();
                        let (mut x, mut m) = start(oi, engine, mode);
                        agree(t, &x, &m, 1e-12)?;
                        for k in &h {
                            let (p, val) = ops[*k];
                            let kep = matches!(p, SP::Element(e) if KEP.contains(&e));
                            if kep && !m.regular() {
                                // Elements are not defined.
                                return Ok(());
                            }
                            let (x0, m0) = (x, m.clone());
                            let (a, b) = (x.set_value(p, val), m.set(p, val));
                            t.step();
                            t.ensure(a.is_ok() == b.is_ok(), || format!("{p:?} set to {val}: {a:?}"))?;
                            if b.is_err() {
                                agree(t, &x, &m0, 1e-6)?;
                                t.ensure(x.orbit == x0.orbit, || "a rejected change changed the orbit".into())?;
                            }
                            agree(t, &x, &m, 1e-8)?;
                            t.see_f(&[m.r.x, m.v.y, m.prop, m.cr]);
                            // Continue from the same state.
                            m.r = x.orbit.radius_km;
                            m.v = x.orbit.velocity_km_s;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // Vectors.
    for oi in 0..ORBITS.len() {
        for mode in 0..6usize {
            for stm in [false, true] {
                sp.push(format!("vector/{}/{mode}/{stm}", ORBITS[oi].0), move |t| {
                    let (mut x, m) = start(oi, mode % 2 == 0, mode);
                    let phi = SMatrix::<f64, 9, 9>::from_fn(|i, j| 1.0 + i as f64 * 10.0 + j as f64 * 0.1);
                    t.ensure(x.stm().is_err(), || "transition matrix of a state without".into())?;
                    if stm {
                        x = x.with_stm();
                        t.ensure(x.stm().ok() == Some(SMatrix::identity()), || "transition matrix does not start at identity".into())?;
                        x.stm = Some(phi);
                    }
                    let vec = x.to_vector();
                    let head = [m.r.x, m.r.y, m.r.z, m.v.x, m.v.y, m.v.z, m.cr, m.cd, m.prop];
                    t.step();
                    for (i, w) in head.iter().enumerate() {
                        t.close("state vector", vec[i], *w, 0.0)?;
                    }
                    for cr in [-0.5, 0.0, 1.1, 2.0, 2.7] {
                        for k in 0..9usize {
                            let mut nv = vec;
                            nv[k] += 0.25;
                            nv[6] = cr;
                            for (i, q) in nv.iter_mut().enumerate().skip(9) {
                                *q += i as f64;
                            }
                            let mut y = x;
                            let e = t0() + s(123.5);
                            y.set(e, &nv);
                            t.step();
                            t.ensure(y.epoch() == e, || format!("epoch {}", y.epoch()))?;
                            let got = y.to_vector();
                            for i in 0..9 {
                                t.close("state vector as set", got[i], if i == 6 { cr.clamp(0.0, 2.0) } else { nv[i] }, 0.0)?;
                            }
                            t.ensure(y.stm.is_some() == stm, || "the transition matrix came or went".into())?;
                            if stm {
                                for i in 9..90 {
                                    t.close("transition matrix as set", got[i], nv[i], 0.0)?;
                                }
                                // A vector of derivatives follows the same layout as the matrix.
                                let p = y.stm().map_err(|e| e.to_string())?;
                                t.close("corner of the transition matrix", p[(8, 0)] - p[(0, 0)], phi[(8, 0)] - phi[(0, 0)] + 8.0, 1e-9)?;
                            }
                            t.ensure(
                                y.mass.dry_mass_kg == 700.0 && y.mass.extra_mass_kg == 5.0 && y.srp.area_m2 == 11.0 && y.drag.area_m2 == 7.0 && y.mode == x.mode && y.thruster == x.thruster && y.thrust_direction == x.thrust_direction && y.orbit.frame == x.orbit.frame,
                                || "setting the vector changed something else".into(),
                            )?;
                            // Deviations
                            let mut d = SVector::<f64, 9>::zeros();
                            d[k] = 0.125;
                            d[6] += cr - m.cr;
                            let z = x + d;
                            let z2 = State::add(x, d);
                            t.ensure(z.to_vector() == z2.to_vector() && z.epoch() == x.epoch(), || "two ways of adding a deviation differ".into())?;
                            let gz = z.to_vector();
                            for i in 0..90 {
                                let w = if i == 6 { (head[6] + d[6]).clamp(0.0, 2.0) } else if i < 9 { head[i] + d[i] } else { vec[i] };
                                t.close("deviated vector", gz[i], w, 1e-12)?;
                            }
                            if k < 6 {
                                let mut d = SVector::<f64, 6>::zeros();
                                d[k] = -0.375;
                                let z = (x + d).to_vector();
                                for i in 0..90 {
                                    t.close("deviated orbit", z[i], vec[i] + if i == k { -0.375 } else { 0.0 }, 1e-12)?;
                                }
                            }
                            // Differences
                            let (p, v, f) = x.rss(&(x + d)).map_err(|e| e.to_string())?;
                            t.close("RSS of the position", p, if k < 3 { 0.125 } else { 0.0 }, 1e-10)?;
                            t.close("RSS of the velocity", v, if (3..6).contains(&k) { 0.125 } else { 0.0 }, 1e-12)?;
                            t.close("RSS of the propellant", f, if k == 8 { 0.125 } else { 0.0 }, 1e-12)?;
                        }
                    }
                    // Equality.
                    t.ensure(x == x, || "a state differs from itself".into())?;
                    for k in 0..9 {
                        let mut d = SVector::<f64, 9>::zeros();
                        d[k] = if k < 3 { 1e-7 } else if k < 6 { 1e-10 } else { -1e-3 };
                        t.ensure(x + d != x, || format!("states which differ in component {k} are equal"))?;
                    }
                    let mut y = x;
                    y.set_epoch(t0() + s(1.0));
                    t.ensure(y != x && y.epoch() == t0() + s(1.0), || "states at different epochs are equal".into())?;
                    x.reset_stm();
                    t.ensure(x.stm().ok() == Some(SMatrix::identity()), || "the transition matrix was not reset".into())?;
                    x.unset_stm();
                    t.ensure(x.stm().is_err(), || "the transition matrix was not removed".into())
                });
            }
        }
        // Builders and copies.
        sp.push(format!("build/{}", ORBITS[oi].0), move |t| {
            let o = zoo(oi);
            let th = Thruster { thrust_N: 2.0, isp_s: 300.0 };
            let see = |x: &Spacecraft| (x.mass.dry_mass_kg, x.mass.prop_mass_kg, x.mass.extra_mass_kg, x.srp.area_m2, x.drag.area_m2, x.srp.coeff_reflectivity, x.drag.coeff_drag);
            let a = Spacecraft::new(o, 1.0, 2.0, 3.0, 4.0, 1.5, 2.5);
            t.steps(4);
            t.ensure(see(&a) == (1.0, 2.0, 0.0, 3.0, 4.0, 1.5, 2.5) && a.orbit == o && a.thruster.is_none() && a.mode == GuidanceMode::Coast && a.stm.is_none(), || format!("{a:?}"))?;
            for mode in [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit] {
                let b = Spacecraft::from_thruster(o, 1.0, 2.0, th, mode);
                t.ensure(b.mass.dry_mass_kg == 1.0 && b.mass.prop_mass_kg == 2.0 && b.thruster == Some(th) && b.mode == mode && b.srp.area_m2 == 0.0 && b.drag.area_m2 == 0.0, || format!("{b:?}"))?;
                t.ensure(GuidanceMode::from(f64::from(mode)) == mode, || format!("{mode:?} does not survive its number"))?;
                t.ensure(a.with_guidance_mode(mode).mode == mode && a.mode == GuidanceMode::Coast, || "guidance mode".into())?;
                let mut c = a;
                c.mut_mode(mode);
                t.ensure(c.mode() == mode && see(&c) == see(&a), || "guidance mode in place".into())?;
            }
            let c = Spacecraft::from_srp_defaults(o, 10.0, 6.0);
            t.ensure(see(&c) == (10.0, 0.0, 0.0, 6.0, 0.0, 1.8, c.drag.coeff_drag) && c.orbit == o, || format!("{c:?}"))?;
            let d = Spacecraft::from_drag_defaults(o, 10.0, 6.0);
            t.ensure(see(&d) == (10.0, 0.0, 0.0, 0.0, 6.0, d.srp.coeff_reflectivity, 2.2) && d.orbit == o, || format!("{d:?}"))?;
            for (n, x, w) in [
                ("dry", a.with_dry_mass(9.0), (9.0, 2.0, 0.0, 3.0, 4.0, 1.5, 2.5)),
                ("prop", a.with_prop_mass(9.0), (1.0, 9.0, 0.0, 3.0, 4.0, 1.5, 2.5)),
                ("srp", a.with_srp(9.0, 1.1), (1.0, 2.0, 0.0, 9.0, 4.0, 1.1, 2.5)),
                ("srp area", a.with_srp_area(9.0), (1.0, 2.0, 0.0, 9.0, 4.0, 1.5, 2.5)),
                ("cr", a.with_cr(1.1), (1.0, 2.0, 0.0, 3.0, 4.0, 1.1, 2.5)),
                ("drag", a.with_drag(9.0, 1.1), (1.0, 2.0, 0.0, 3.0, 9.0, 1.5, 1.1)),
                ("drag area", a.with_drag_area(9.0), (1.0, 2.0, 0.0, 3.0, 9.0, 1.5, 2.5)),
                ("cd", a.with_cd(1.1), (1.0, 2.0, 0.0, 3.0, 4.0, 1.5, 1.1)),
            ] {
                t.step();
                t.ensure(see(&x) == w && x.orbit == o, || format!("{n}: {x:?}"))?;
            }
            let dv = V3::new(0.1, -0.2, 0.3);
            let e = a.with_dv_km_s(dv);
            t.ensure(e.orbit.velocity_km_s == o.velocity_km_s + dv && e.orbit.radius_km == o.radius_km && see(&e) == see(&a), || format!("{e:?}"))?;
            let q = zoo((oi + 1) % ORBITS.len());
            t.ensure(a.with_orbit(q).orbit == q && see(&a.with_orbit(q)) == see(&a) && State::orbit(&a) == o, || "orbit".into())?;
            let mut f = a;
            f.set_orbit(q);
            t.ensure(f.orbit == q && see(&f) == see(&a), || "orbit in place".into())
        });
    }
    sp
}
