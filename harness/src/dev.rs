//! C16: the measurement models of every tracking device and their partials, against independent geometry.
use crate::core::*;
use crate::traj::{on_orbit, traj_of};
use crate::world::*;
use anise::astro::{Location, TerrainMask};
use anise::constants::frames::*;
use anise::prelude::{Frame, Orbit};
use hifitime::{Epoch, Unit};
use indexmap::{IndexMap, IndexSet};
use nalgebra::{Const, Matrix3, OMatrix, U1, U2, U3, U4, Vector3};
use nyx_space::State;
use nyx_space::dynamics::Dynamics;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::groundpnt::GroundAsset;
use nyx_space::od::groundpnt::ground_dynamics::GroundDynamics;
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, WhiteNoise};
use nyx_space::od::position::PositionDevice;
use nyx_space::od::prelude::MeasurementType as M;
use nyx_space::od::{GroundStation, TrackingDevice};
use nyx_space::propagators::Propagator;
use nyx_space::Spacecraft;

/// Rotation from J2000 to the rotating Earth of the synthetic almanac, and its rate.
pub fn to_fixed(t: Epoch) -> (Matrix3<f64>, f64) {
    let rate = 360.985_623_5f64;
    let w = (190.147 + rate * t.to_tdb_days_since_j2000() + 90.0).to_radians();
    let (sn, c) = w.sin_cos();
    (Matrix3::new(c, sn, 0., -sn, c, 0., 0., 0., 1.), rate.to_radians() / 86_400.0)
}
pub fn moon_to_fixed(t: Epoch) -> (Matrix3<f64>, f64) {
    let (ra, de, w0, rate) = (269.9949f64.to_radians(), 66.5392f64.to_radians(), 38.3213, 13.176_358f64);
    let w = (w0 + rate * t.to_tdb_days_since_j2000()).to_radians();
    let r3 = |a: f64| Matrix3::new(a.cos(), a.sin(), 0., -a.sin(), a.cos(), 0., 0., 0., 1.);
    let r1 = |a: f64| Matrix3::new(1., 0., 0., 0., a.cos(), a.sin(), 0., -a.sin(), a.cos());
    let h = std::f64::consts::FRAC_PI_2;
    (r3(w) * r1(h - de) * r3(h + ra), rate.to_radians() / 86_400.0)
}
/// Ellipsoid point and its South, East, Zenith axes.
pub fn site(lat: f64, lon: f64, h: f64, a: f64, b: f64) -> (Vector3<f64>, [Vector3<f64>; 3]) {
    let (sp, cp) = lat.to_radians().sin_cos();
    let (sl, cl) = lon.to_radians().sin_cos();
    let n = a * a / (a * a * cp * cp + b * b * sp * sp).sqrt();
    let r = Vector3::new((n + h) * cp * cl, (n + h) * cp * sl, (n * b * b / (a * a) + h) * sp);
    let z = Vector3::new(cp * cl, cp * sl, sp);
    let e = Vector3::new(-sl, cl, 0.0);
    (r, [e.cross(&z), e, z])
}
#[derive(Clone, Copy, Debug)]
pub struct Look {
    pub rho: f64,
    pub rate: f64,
    pub az: f64,
    pub el: f64,
}
impl Look {
    pub fn get(&self, ty: M) -> f64 {
        match ty {
            M::Range => self.rho,
            M::Doppler => self.rate,
            M::Azimuth => self.az,
            _ => self.el,
        }
    }
}
/// Look angles of a body-fixed target from a site moving at `vs` (body-fixed).
pub fn look(st: &(Vector3<f64>, [Vector3<f64>; 3]), vs: Vector3<f64>, r: Vector3<f64>, v: Vector3<f64>) -> Look {
    let d = r - st.0;
    let rho = d.norm();
    let (s_, e, z) = (d.dot(&st.1[0]), d.dot(&st.1[1]), d.dot(&st.1[2]));
    Look { rho, rate: d.dot(&(v - vs)) / rho, az: e.atan2(-s_).to_degrees().rem_euclid(360.0), el: (z / rho).asin().to_degrees() }
}
/// Look angles from an Earth site of an Earth-centred inertial state.
pub fn look_eci(stn: &[f64; 3], r: Vector3<f64>, v: Vector3<f64>, t: Epoch) -> Look {
    let (c, w) = to_fixed(t);
    let rf = c * r;
    let vf = c * v - Vector3::new(0., 0., w).cross(&rf);
    look(&site(stn[0], stn[1], stn[2], RE, RP), Vector3::zeros(), rf, vf)
}

const STATIONS: [(&str, [f64; 3]); 5] =
    [("sea", [31.5, 35.5, -0.43]), ("mad", [40.427_222, 4.250_556, 0.834_939]), ("can", [-35.398_333, 148.981_944, 0.691_75]), ("pole", [89.2, -30.0, 2.8]), ("eq", [0.0, 359.2, 0.0])];
const TYPES: [M; 4] = [M::Range, M::Doppler, M::Azimuth, M::Elevation];
fn name_types(ty: &[M]) -> String {
    ty.iter().map(|t| format!("{t:?}").chars().take(2).collect::<String>()).collect::<Vec<_>>().join("")
}
fn masks() -> Vec<(&'static str, Vec<(f64, f64)>, bool)> {
    vec![
        ("flat", vec![], false),
        ("ignored", vec![(0.0, 40.0)], true),
        ("sectors", vec![(0.0, 5.0), (90.0, 35.0), (180.0, 0.0), (270.0, 12.0)], false),
        ("wrap", vec![(60.0, 3.0), (200.0, 30.0)], false),
    ]
}
fn mask_at(m: &[(f64, f64)], ignored: bool, az: f64) -> f64 {
    if ignored || m.is_empty() {
        return 0.0;
    }
    m.iter().rev().find(|x| x.0 <= az).or(m.last()).unwrap().1
}
fn near_edge(m: &[(f64, f64)], az: f64) -> bool {
    m.iter().any(|x| (x.0 - az).abs() < 1e-6) || az < 1e-6 || az > 360.0 - 1e-6
}
pub fn noise_of(ty: M) -> StochasticNoise {
    StochasticNoise {
        white_noise: Some(WhiteNoise { mean: 0.0, sigma: 0.01 * (1.0 + ty as u8 as f64) }),
        bias: if ty == M::Doppler { Some(GaussMarkov::new(Unit::Hour * 3, 0.004).unwrap()) } else { None },
    }
}
fn station(stn: &[f64; 3], mask: &[(f64, f64)], ignored: bool, types: &[M], noise: bool) -> GroundStation {
    let mut g = GroundStation {
        name: "stn".into(),
        location: Location {
            latitude_deg: stn[0],
            longitude_deg: stn[1],
            height_km: stn[2],
            frame: IAU_EARTH_FRAME.into(),
            terrain_mask: mask.iter().map(|m| TerrainMask { azimuth_deg: m.0, elevation_mask_deg: m.1 }).collect(),
            terrain_mask_ignored: ignored,
        },
        measurement_types: types.iter().copied().collect(),
        ..Default::default()
    };
    if noise {
        g.stochastic_noises = Some(types.iter().map(|t| (*t, noise_of(*t))).collect());
    }
    g
}
fn ang(a: f64, b: f64) -> f64 {
    (a - b + 180.0).rem_euclid(360.0) - 180.0
}
fn check_msr(t: &mut Tally, m: &Measurement, who: &str, ep: Epoch, types: &[M], want: &dyn Fn(M) -> f64) -> Result<(), String> {
    t.step();
    t.ensure(m.tracker == who, || format!("tracker {} instead of {who}", m.tracker))?;
    t.ensure(m.epoch == ep, || format!("epoch {} instead of {ep}", m.epoch))?;
    t.ensure(m.data.len() == types.len(), || format!("types {:?} instead of {types:?}", m.data.keys()))?;
    for ty in types {
        let got = *m.data.get(ty).ok_or_else(|| format!("no {ty:?}"))?;
        let w = want(*ty);
        t.see_f(&[got]);
        let (err, tol) = match ty {
            M::Azimuth => (ang(got, w), 2e-7),
            M::Elevation => (got - w, 2e-8),
            M::Doppler => (got - w, 3e-7),
            _ => (got - w, 2e-6),
        };
        t.ensure(err.abs() < tol, || format!("{ty:?} is {got}, expected {w}"))?;
        if *ty == M::Azimuth {
            t.ensure((-1e-7..360.0 + 1e-7).contains(&got), || format!("azimuth {got}"))?;
        }
    }
    Ok(())
}
/// Orbits to observe: (r, v) in Earth J2000 at t0.
fn orbits() -> Vec<(&'static str, Orbit)> {
    let mut v: Vec<(&'static str, Orbit)> = (0..ORBITS.len()).map(|i| (ORBITS[i].0, zoo(i))).collect();
    v.push(("hyper", hyperbola()));
    v
}
pub fn at(o: &Orbit, dt: f64) -> (Vector3<f64>, Vector3<f64>) {
    kepler(MU, o.radius_km, o.velocity_km_s, dt)
}
pub fn on_traj(tr: &Traj<Spacecraft>, ep: Epoch) -> Result<(Vector3<f64>, Vector3<f64>), String> {
    let o = tr.at(ep).map_err(|e| e.to_string())?.orbit;
    if o.epoch != ep {
        return Err(format!("trajectory state at {} instead of {ep}", o.epoch));
    }
    Ok((o.radius_km, o.velocity_km_s))
}
pub fn spacecraft(r: Vector3<f64>, v: Vector3<f64>, ep: Epoch, frame: Frame) -> Spacecraft {
    sc(Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, ep, frame))
}
fn hrow(h: &[f64], what: &str, t: &mut Tally, want: impl Fn(Vector3<f64>, Vector3<f64>) -> f64, r: Vector3<f64>, v: Vector3<f64>, deg: bool) -> Result<(), String> {
    // Central differences of the model, eighth order.
    let hr = r.norm() * 2e-4;
    let hv = v.norm() * 1e-3;
    let base = want(r, v);
    let f = |r: Vector3<f64>, v: Vector3<f64>| {
        let x = want(r, v);
        [if deg { ang(x, base) } else { x - base }]
    };
    let mut w = [0.0; 9];
    for j in 0..3 {
        w[j] = fd8(|x| f(x, v), r, j, hr)[0];
        w[j + 3] = fd8(|x| f(r, x), v, j, hv)[0];
    }
    let (sr, sv) = ((w[0].powi(2) + w[1].powi(2) + w[2].powi(2)).sqrt(), (w[3].powi(2) + w[4].powi(2) + w[5].powi(2)).sqrt());
    for j in 0..9 {
        t.see_f(&[h[j]]);
        let scale = if j < 3 { sr + 1e-9 } else { sv + 1e-9 };
        t.ensure((h[j] - w[j]).abs() < 1e-5 * scale + 1e-9, || format!("{what}: partial {j} is {:e}, expected {:e}", h[j], w[j]))?;
    }
    Ok(())
}
fn rows<MM: nalgebra::DimName, NN: nalgebra::DimName>(m: &OMatrix<f64, MM, NN>) -> Vec<Vec<f64>>
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<MM, NN>,
{
    (0..MM::dim()).map(|i| (0..NN::dim()).map(|j| m[(i, j)]).collect()).collect()
}

pub fn c16(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every device (ground station, interlink transmitter, position device, PNT transmitter to ground asset) x sites x orbits x epochs x measurement type subsets and orders x masks x integration times: value, visibility, and partials vs independent ellipsoid geometry and its finite differences",
    );
    sp.assumptions.push("Synthetic almanac: uniformly rotating Earth and Moon; light time corrections off.".into());
    let alm = almanac();
    let n_ep = tier.pick(96, 720);
    // 1. Ground station, instantaneous, all frames and masks.
    for (sn, stn) in STATIONS {
        for (on, o) in orbits() {
            for (mn, mask, ign) in masks() {
                for (fname, frame) in [("j2000", earth()), ("iau", IAU_EARTH_FRAME), ("moonj2000", MOON_J2000)] {
                    let (alm, mask) = (alm.clone(), mask.clone());
                    sp.push(format!("gs/{sn}/{on}/{mn}/{fname}"), move |t| {
                        for k in 0..n_ep {
                            let dt = k as f64 * 613.7;
                            let (r, v) = at(&o, dt);
                            let ep = t0() + s(dt);
                            let w = look_eci(&stn, r, v, ep);
                            let (mut fr, mut rr, mut vv) = (frame, r, v);
                            let mut blocked = false;
                            let mut unsure = false;
                            match fname {
                                "iau" => {
                                    fr = alm.frame_info(frame).unwrap();
                                    let (c, om) = to_fixed(ep);
                                    rr = c * r;
                                    vv = c * v - Vector3::new(0., 0., om).cross(&rr);
                                }
                                "moonj2000" => {
                                    // A lunar orbiter: the same shape of orbit, scaled, about the Moon.
                                    fr = alm.frame_info(frame).unwrap();
                                    let (mr, mv) = moon_pos_vel(ep);
                                    rr = r * 0.3;
                                    vv = v * 0.2;
                                    let (rt, vt) = (rr + mr, vv + mv);
                                    let (c, om) = to_fixed(ep);
                                    let st = c.transpose() * site(stn[0], stn[1], stn[2], RE, RP).0;
                                    // Distance of the line of sight to the center of the Moon.
                                    let (a, b) = (st - mr, rt - mr);
                                    let d = b - a;
                                    let tau = (-a.dot(&d) / d.norm_squared()).clamp(0.0, 1.0);
                                    let miss = (a + d * tau).norm();
                                    blocked = miss < 1737.4;
                                    unsure = (miss - 1737.4).abs() < 1e-3;
                                    let rf = c * rt;
                                    let vf = c * vt - Vector3::new(0., 0., om).cross(&rf);
                                    let w = look(&site(stn[0], stn[1], stn[2], RE, RP), Vector3::zeros(), rf, vf);
                                    one_gs(t, &alm, &stn, &mask, ign, &w, spacecraft(rr, vv, ep, fr), blocked, unsure)?;
                                    continue;
                                }
                                _ => {}
                            }
                            one_gs(t, &alm, &stn, &mask, ign, &w, spacecraft(rr, vv, ep, fr), blocked, unsure)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // 2. Ground station: type subsets and orders; integration times; partials; noise statistics.
    let subsets: Vec<Vec<M>> = {
        let mut v = vec![];
        for k in 1..=4usize {
            for p in sequences(4, k, k) {
                if (0..k).all(|i| (0..i).all(|j| p[i] != p[j])) {
                    v.push(p.iter().map(|i| TYPES[*i]).collect::<Vec<_>>());
                }
            }
        }
        v
    };
    for (sn, stn) in STATIONS {
        for (on, o) in orbits() {
            let (alm, subsets) = (alm.clone(), subsets.clone());
            sp.push(format!("partials/{sn}/{on}"), move |t| {
                let mut seen = 0;
                for k in 0..tier.pick(30, 180) {
                    let dt = k as f64 * 1127.3;
                    let (r, v) = at(&o, dt);
                    let ep = t0() + s(dt);
                    let w = look_eci(&stn, r, v, ep);
                    if w.el < 1.0 || w.el > 88.0 {
                        continue;
                    }
                    seen += 1;
                    let rx = spacecraft(r, v, ep, earth());
                    for types in &subsets {
                        let g = station(&stn, &[], false, types, true);
                        // The measured values may be noisy, ambiguous, or missing: the partials are those of the model.
                        for variant in 0..3 {
                            let mut m = Measurement::new("stn".into(), ep);
                            for (i, ty) in types.iter().enumerate() {
                                if variant == 2 && i == 0 {
                                    continue;
                                }
                                m.push(*ty, w.get(*ty) + if variant == 1 { 0.3 * w.get(*ty) } else { 0.0 });
                            }
                            let set: IndexSet<M> = types.iter().copied().collect();
                            let h = match types.len() {
                                1 => g.h_tilde::<U1>(&m, &set, &rx, &alm).map(|m| rows(&m)),
                                2 => g.h_tilde::<U2>(&m, &set, &rx, &alm).map(|m| rows(&m)),
                                3 => g.h_tilde::<U3>(&m, &set, &rx, &alm).map(|m| rows(&m)),
                                _ => g.h_tilde::<U4>(&m, &set, &rx, &alm).map(|m| rows(&m)),
                            }
                            .map_err(|e| format!("h_tilde: {e}"))?;
                            t.step();
                            for (i, ty) in types.iter().enumerate() {
                                if m.data.contains_key(ty) {
                                    // One check of each distinct row is enough once rows are in the order of the types.
                                    if types.len() == 1 {
                                        hrow(&h[i], &format!("{ty:?} at {dt} s (variant {variant})"), t, |r, v| look_eci(&stn, r, v, ep).get(*ty), r, v, *ty == M::Azimuth)?;
                                    } else {
                                        let g1 = station(&stn, &[], false, &[*ty], true);
                                        let mut m1 = Measurement::new("stn".into(), ep);
                                        m1.push(*ty, w.get(*ty));
                                        let h1 = rows(&g1.h_tilde::<U1>(&m1, &[*ty].into_iter().collect(), &rx, &alm).map_err(|e| e.to_string())?);
                                        t.ensure(h[i].iter().zip(&h1[0]).all(|(a, b)| (a - b).abs() <= 1e-12 * b.abs().max(1e-12)), || {
                                            format!("row {i} of {types:?} (variant {variant}) is {:?}, expected {:?}", h[i], h1[0])
                                        })?;
                                    }
                                } else {
                                    t.ensure(h[i].iter().all(|x| *x == 0.0), || format!("absent {ty:?} has partials {:?}", h[i]))?;
                                }
                            }
                        }
                        // Noise statistics follow the types.
                        let set: IndexSet<M> = types.iter().copied().collect();
                        let rm = match types.len() {
                            1 => g.measurement_covar_matrix::<U1>(&set, ep).map(|m| rows(&m)),
                            2 => g.measurement_covar_matrix::<U2>(&set, ep).map(|m| rows(&m)),
                            3 => g.measurement_covar_matrix::<U3>(&set, ep).map(|m| rows(&m)),
                            _ => g.measurement_covar_matrix::<U4>(&set, ep).map(|m| rows(&m)),
                        }
                        .map_err(|e| e.to_string())?;
                        for i in 0..types.len() {
                            for j in 0..types.len() {
                                let n = noise_of(types[i]);
                                let want = if i != j { 0.0 } else { n.white_noise.unwrap().sigma.powi(2) + n.bias.map_or(0.0, |b| b.process_noise.powi(2)) };
                                t.close("measurement covariance", rm[i][j], want, 1e-15)?;
                            }
                        }
                    }
                }
                t.see(&seen);
                Ok(())
            });
        }
    }
    for (sn, stn) in STATIONS {
        for (on, o) in orbits() {
            for (mn, mask, ign) in masks() {
                for it in [None, Some(60.0), Some(600.0)] {
                    let (alm, mask) = (alm.clone(), mask.clone());
                    let subsets = subsets.clone();
                    sp.push(format!("traj/{sn}/{on}/{mn}/{}", it.unwrap_or(0.0)), move |t| {
                        let span = tier.pick(14_400.0, 86_400.0);
                        let n = (span / 60.0) as usize;
                        let tr = traj_of((0..=n).map(|k| on_orbit(&o, s(k as f64 * 60.0), 0.0)).collect());
                        for k in 0..tier.pick(120, 1200) {
                            let dt = -90.0 + (span + 180.0) * k as f64 / (tier.pick(120, 1200) - 1) as f64;
                            let types = &subsets[(k * 7) % subsets.len()];
                            let mut g = station(&stn, &mask, ign, types, false);
                            g.integration_time = it.map(s);
                            let ep = t0() + s(dt);
                            let got = g.measure(ep, &tr, None, &alm);
                            t.step();
                            let end_in = dt >= 0.0 && dt <= span;
                            let start_in = dt - it.unwrap_or(0.0) >= 0.0;
                            if !(end_in && start_in) {
                                match (it, got) {
                                    (Some(_), Ok(None)) => {}
                                    (None, Err(_)) => {}
                                    (_, g) => return Err(format!("measurement outside the trajectory at {dt}: {g:?}")),
                                }
                                continue;
                            }
                            let got = got.map_err(|e| e.to_string())?;
                            // The interpolation itself is C10's.
                            let (ra, va) = on_traj(&tr, ep - s(it.unwrap_or(0.0)))?;
                            let (rb, vb) = on_traj(&tr, ep)?;
                            let wa = look_eci(&stn, ra, va, ep - s(it.unwrap_or(0.0)));
                            let wb = look_eci(&stn, rb, vb, ep);
                            if [wa, wb].iter().any(|w| near_edge(&mask, w.az) || (w.el - mask_at(&mask, ign, w.az)).abs() < 1e-4) {
                                continue;
                            }
                            let vis = |w: &Look| w.el >= mask_at(&mask, ign, w.az);
                            let visible = vis(&wa) && vis(&wb);
                            t.see(&(visible, got.is_some()));
                            t.ensure(got.is_some() == visible, || format!("at {dt} s: measurement {} but visible = {visible}", got.is_some()))?;
                            if let Some(m) = got {
                                t.ensure(m.tracker == "stn" && m.epoch == ep, || format!("{} {}", m.tracker, m.epoch))?;
                                t.ensure(m.data.len() == types.len(), || "types".to_string())?;
                                for ty in types {
                                    let want = match ty {
                                        M::Azimuth => wa.az + 0.5 * ang(wb.az, wa.az),
                                        _ => 0.5 * (wa.get(*ty) + wb.get(*ty)),
                                    };
                                    if *ty == M::Azimuth && (wa.el > 85.0 || wb.el > 85.0) {
                                        continue;
                                    }
                                    let v = m.data[ty];
                                    let err = if *ty == M::Azimuth { ang(v, want) } else { v - want };
                                    let tol = match ty {
                                        M::Range => 2e-6,
                                        M::Doppler => 3e-7,
                                        _ => 1e-6,
                                    };
                                    t.ensure(err.abs() < tol, || format!("{ty:?} at {dt} s is {v}, expected {want}"))?;
                                    if *ty == M::Azimuth {
                                        t.ensure((-1e-7..360.0 + 1e-7).contains(&v), || format!("azimuth {v}"))?;
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // 2'. An integrated measurement of a lunar orbiter: the Moon must not stand in the way at the start nor at the end of the integration.
    for (sn, stn) in STATIONS {
        for (pn, plane) in [("polar", Vector3::new(0.0, 0.1, 1.0)), ("inclined", Vector3::new(0.6, -0.3, 0.5))] {
            for radius in [1900.0, 2600.0] {
                for it in [None, Some(60.0), Some(600.0), Some(2500.0)] {
                    let alm = alm.clone();
                    sp.push(format!("lunar/{sn}/{pn}/{radius}/{}", it.unwrap_or(0.0)), move |t| {
                        let fr = alm.frame_info(MOON_J2000).unwrap();
                        let u = moon_pos_vel(t0()).0.normalize();
                        // The orbit passes in front of and behind the Moon.
                        let side = plane.cross(&u).normalize();
                        let n = (4902.800066f64 / f64::powi(radius, 3)).sqrt();
                        let state = |dt: f64| {
                            let th = n * dt;
                            ((u * th.cos() + side * th.sin()) * radius, (side * th.cos() - u * th.sin()) * (radius * n))
                        };
                        let span = 86_400.0;
                        let tr = traj_of(
                            (0..=1440)
                                .map(|k| {
                                    let (r, v) = state(k as f64 * 60.0);
                                    spacecraft(r, v, t0() + s(k as f64 * 60.0), fr)
                                })
                                .collect(),
                        );
                        // (visible from the site, blocked by the Moon, too close to call, look)
                        let sight = |ep: Epoch| -> Result<(bool, bool, bool, Look), String> {
                            let (rr, vv) = on_traj(&tr, ep)?;
                            let (mr, mv) = moon_pos_vel(ep);
                            let (c, om) = to_fixed(ep);
                            let st = c.transpose() * site(stn[0], stn[1], stn[2], RE, RP).0;
                            let (a, b) = (st - mr, rr);
                            let d = b - a;
                            let tau = (-a.dot(&d) / d.norm_squared()).clamp(0.0, 1.0);
                            let miss = (a + d * tau).norm();
                            let rf = c * (rr + mr);
                            let vf = c * (vv + mv) - Vector3::new(0., 0., om).cross(&rf);
                            let w = look(&site(stn[0], stn[1], stn[2], RE, RP), Vector3::zeros(), rf, vf);
                            Ok((w.el >= 0.0, miss < 1737.4, (miss - 1737.4).abs() < 0.1 || w.el.abs() < 1e-4, w))
                        };
                        let count = tier.pick(240, 2400);
                        for k in 0..count {
                            let dt = it.unwrap_or(0.0) + (span - it.unwrap_or(0.0)) * k as f64 / count as f64;
                            let ep = t0() + s(dt);
                            let mut g = station(&stn, &[], false, &TYPES[..2], false);
                            g.integration_time = it.map(s);
                            let got = g.measure(ep, &tr, None, &alm).map_err(|e| e.to_string())?;
                            t.step();
                            let a = sight(ep - s(it.unwrap_or(0.0)))?;
                            let b = sight(ep)?;
                            if a.2 || b.2 {
                                continue;
                            }
                            let visible = a.0 && b.0 && !a.1 && !b.1;
                            t.see(&(a.0, b.0, a.1, b.1));
                            t.ensure(got.is_some() == visible, || format!("at {dt} s: measured {}, although above the horizon {} then {}, behind the Moon {} then {}", got.is_some(), a.0, b.0, a.1, b.1))?;
                            if let Some(m) = got {
                                for ty in &TYPES[..2] {
                                    t.close(&format!("{ty:?} of a lunar orbiter"), m.data[ty], 0.5 * (a.3.get(*ty) + b.3.get(*ty)), if *ty == M::Range { 1e-4 } else { 1e-6 })?;
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // 3. Interlink.
    for (tn, to) in orbits() {
        for (rn, ro) in orbits() {
            if tn == rn {
                continue;
            }
            for it in [None, Some(60.0)] {
                let alm = alm.clone();
                sp.push(format!("link/{tn}-{rn}/{}", it.unwrap_or(0.0)), move |t| {
                    let span = tier.pick(14_400.0, 86_400.0);
                    let n = (span / 60.0) as usize;
                    let mut ttr = traj_of((0..=n).map(|k| on_orbit(&to, s(k as f64 * 60.0), 0.0)).collect());
                    ttr.name = Some("tx".into());
                    let rtr = traj_of((0..=n).map(|k| on_orbit(&ro, s(k as f64 * 60.0), 0.0)).collect());
                    for types in [vec![M::Range, M::Doppler], vec![M::Doppler, M::Range], vec![M::Doppler], vec![M::Range]] {
                        let mut tx = InterlinkTxSpacecraft {
                            traj: ttr.clone(),
                            measurement_types: types.iter().copied().collect(),
                            integration_time: it.map(s),
                            timestamp_noise_s: None,
                            stochastic_noises: Some(types.iter().map(|x| (*x, noise_of(*x))).collect()),
                            ab_corr: None,
                        };
                        let look2 = |ep: Epoch| {
                            let ((ra, va), (rb, vb)) = (on_traj(&ttr, ep)?, on_traj(&rtr, ep)?);
                            let (d, dv) = (rb - ra, vb - va);
                            let tau = (-ra.dot(&d) / d.norm_squared()).clamp(0.0, 1.0);
                            Ok::<_, String>(((ra + d * tau).norm(), d.norm(), d.dot(&dv) / d.norm()))
                        };
                        for k in 0..tier.pick(90, 600) {
                            let dt = 30.0 + (span - 60.0) * k as f64 / (tier.pick(90, 600) - 1) as f64;
                            let ep = t0() + s(dt);
                            let got = <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut tx, ep, &rtr, None, &alm).map_err(|e| e.to_string())?;
                            t.step();
                            let i = it.unwrap_or(0.0);
                            if dt - i < 0.0 {
                                t.ensure(got.is_none(), || "measurement before the trajectory".into())?;
                                continue;
                            }
                            let (a, b) = (look2(ep - s(i))?, look2(ep)?);
                            if (a.0 - RE).abs() < 0.1 || (b.0 - RE).abs() < 0.1 {
                                continue;
                            }
                            let visible = a.0 > RE && b.0 > RE;
                            t.see(&visible);
                            t.ensure(got.is_some() == visible, || format!("at {dt} s: measurement {} but visible = {visible}", got.is_some()))?;
                            if let Some(m) = got {
                                t.ensure(m.tracker == "tx" && m.epoch == ep && m.data.len() == types.len(), || format!("{m:?}"))?;
                                for ty in &types {
                                    let (want, tol) = if *ty == M::Range { (0.5 * (a.1 + b.1), 1e-6) } else { (0.5 * (a.2 + b.2), 1e-9) };
                                    t.close(&format!("{ty:?} at {dt} s"), m.data[ty], want, tol)?;
                                }
                                if it.is_none() && k % 5 == 0 {
                                    let (r, v) = at(&ro, dt);
                                    let rx = spacecraft(r, v, ep, earth());
                                    let tx_s = ttr.at(ep).map_err(|e| e.to_string())?.orbit;
                                    let f = |ty: M, r: Vector3<f64>, v: Vector3<f64>| {
                                        let (d, dv) = (r - tx_s.radius_km, v - tx_s.velocity_km_s);
                                        if ty == M::Range { d.norm() } else { d.dot(&dv) / d.norm() }
                                    };
                                    if f(M::Range, r, v) < 500.0 {
                                        continue;
                                    }
                                    for variant in 0..2 {
                                        let mut m2 = m.clone();
                                        if variant == 1 {
                                            for x in m2.data.values_mut() {
                                                *x *= 1.4;
                                            }
                                        }
                                        let set: IndexSet<M> = types.iter().copied().collect();
                                        let h = <InterlinkTxSpacecraft as TrackerSensitivity<Spacecraft, Spacecraft>>::h_tilde::<U2>(&tx, &m2, &set, &rx, &alm)
                                            .map_err(|e| e.to_string())?;
                                        let h = rows(&h);
                                        for (i, ty) in types.iter().enumerate() {
                                            hrow(&h[i], &format!("{ty:?} at {dt} s (variant {variant})"), t, |r, v| f(*ty, r, v), r, v, false)?;
                                        }
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    // 4. Position device: every non-empty subset and order of the axes.
    for (on, o) in orbits() {
        let alm = alm.clone();
        sp.push(format!("position/{on}"), move |t| {
            let axes = [M::X, M::Y, M::Z];
            let (r, v) = at(&o, 300.0);
            let ep = t0() + s(300.0);
            let rx = spacecraft(r, v, ep, earth());
            let tr = traj_of((0..=20).map(|k| on_orbit(&o, s(k as f64 * 30.0), 0.0)).collect());
            for k in 1..=3usize {
                for p in sequences(3, k, k) {
                    if !(0..k).all(|i| (0..i).all(|j| p[i] != p[j])) {
                        continue;
                    }
                    let types: Vec<M> = p.iter().map(|i| axes[*i]).collect();
                    let mut d = PositionDevice::new("gnss".into());
                    for ty in &types {
                        d = d.with_noise(*ty, noise_of(*ty));
                    }
                    let want = |ty: M| match ty {
                        M::X => r.x,
                        M::Y => r.y,
                        _ => r.z,
                    };
                    let m = d.measure_instantaneous(rx, None, &alm).map_err(|e| e.to_string())?.ok_or("no measurement")?;
                    check_msr(t, &m, "gnss", ep, &types, &want)?;
                    let m = d.measure(ep, &tr, None, &alm).map_err(|e| e.to_string())?.ok_or("no measurement")?;
                    check_msr(t, &m, "gnss", ep, &types, &want)?;
                    t.ensure(d.measure(t0() + s(601.0), &tr, None, &alm).is_err(), || "measurement outside the trajectory".into())?;
                    let set: IndexSet<M> = types.iter().copied().collect();
                    let h = rows(&d.h_tilde::<U3>(&m, &set, &rx, &alm).map_err(|e| e.to_string())?);
                    let rm = rows(&d.measurement_covar_matrix::<U3>(&set, ep).map_err(|e| e.to_string())?);
                    for (i, ty) in types.iter().enumerate() {
                        for j in 0..9 {
                            let one = j == (*ty as u8 as usize - 6);
                            t.ensure(h[i][j] == if one { 1.0 } else { 0.0 }, || format!("partial {j} of {ty:?}: {}", h[i][j]))?;
                        }
                        t.close("covariance", rm[i][i], noise_of(*ty).white_noise.unwrap().sigma.powi(2), 1e-15)?;
                    }
                }
            }
            let mut d = PositionDevice::new("gnss".into()).with_noise(M::Range, noise_of(M::Range));
            t.ensure(!matches!(d.measure_instantaneous(rx, None, &alm), Ok(Some(_))), || "a position device measured a range".into())?;
            Ok(())
        });
    }
    // 6. What a device cannot do is an error, not a panic: an unsupported type, a time without transmitter.
    for bad in [M::Azimuth, M::Elevation, M::ReceiveFrequency, M::TransmitFrequency, M::TransmitFrequencyRate, M::X, M::Y, M::Z] {
        for pos in 0..3usize {
            let alm = alm.clone();
            sp.push(format!("refuse/type/{bad:?}/{pos}"), move |t| refuse_type(t, &alm, bad, pos));
        }
    }
    for off in [-3600.0, -1.0, 0.0, 600.0, 1200.0, 1201.0, 86400.0] {
        let alm = alm.clone();
        sp.push(format!("refuse/epoch/{off}"), move |t| refuse_epoch(t, &alm, off));
    }
    // The built-in stations are where their antennas stand (Earth-fixed coordinates of the DSN, in kilometers), above the given mask.
    for (name, want) in [("madrid", [4849.3366, -360.4886, 4114.7489]), ("canberra", [-4461.1471, 2682.4392, -3674.3931]), ("goldstone", [-2351.1125, -4655.5307, 3660.9128])] {
        let alm = alm.clone();
        sp.push(format!("builtin/{name}/place"), move |t| {
            let g = builtin(name, 5.0);
            t.step();
            let o = g.to_orbit(t0(), &alm).map_err(|e| e.to_string())?;
            t.see_f(&[o.radius_km.x]);
            t.close("distance to the antenna (km)", (o.radius_km - Vector3::from(want)).norm(), 0.0, 1.0)
        });
    }
    for name in ["madrid", "canberra", "goldstone"] {
        for el in [-3.0, 0.0, 5.0, 37.5, 80.0] {
            let alm = alm.clone();
            sp.push(format!("builtin/{name}/mask/{el}"), move |t| {
                let mut g = builtin(name, el);
                t.ensure(g.name.to_lowercase().contains(name) && g.measurement_types.iter().copied().collect::<Vec<_>>() == vec![M::Range, M::Doppler], || format!("{} measures {:?}", g.name, g.measurement_types))?;
                // A target straight along each azimuth, right below and above the mask.
                let st = site(g.location.latitude_deg, g.location.longitude_deg, g.location.height_km, RE, RP);
                for az in [0.0f64, 77.0, 181.0, 290.0] {
                    for d in [-0.2, 0.2] {
                        let (a, e) = (az.to_radians(), (el + d).to_radians());
                        let dir = -st.1[0] * (e.cos() * a.cos()) + st.1[1] * (e.cos() * a.sin()) + st.1[2] * e.sin();
                        let rf = st.0 + dir * 20_000.0;
                        let (c, w) = to_fixed(t0());
                        let r = c.transpose() * rf;
                        let v = c.transpose() * Vector3::new(0., 0., w).cross(&rf);
                        let x = spacecraft(r, v, t0(), earth());
                        t.step();
                        let m = g.measure_instantaneous(x, None, &alm).map_err(|e| e.to_string())?;
                        t.see(&(az as i64, m.is_some()));
                        t.ensure(m.is_some() == (d > 0.0), || format!("azimuth {az}, {d} deg from the mask: seen {}", m.is_some()))?;
                        if let Some(m) = m {
                            t.close("range", m.data[&M::Range], 20_000.0, 1e-6)?;
                            t.close("range rate", m.data[&M::Doppler], 0.0, 1e-8)?;
                        }
                        let ae = g.azimuth_elevation_of(x.orbit, None, &alm).map_err(|e| e.to_string())?;
                        t.close("azimuth", ang(ae.azimuth_deg, az), 0.0, 1e-6)?;
                        t.close("elevation", ae.elevation_deg, el + d, 1e-6)?;
                        t.close("range", ae.range_km, 20_000.0, 1e-6)?;
                    }
                }
                for ty in [M::Range, M::Doppler] {
                    let s2 = g.measurement_covar(ty, t0()).map_err(|e| e.to_string())?;
                    t.close("variance", s2, if ty == M::Range { 0.25e-4 } else { 1e-10 }, 1e-15)?;
                }
                Ok(())
            });
        }
    }
    // A station on a body nobody knows.
    {
        let alm = alm.clone();
        sp.push("refuse/frame".to_string(), move |t| {
            let mut g = station(&STATIONS[1].1, &[], false, &[M::Range], false);
            g.location.frame = Frame::from_ephem_j2000(-77_001).into();
            t.step();
            t.ensure(g.location(t0(), earth(), &alm).is_err(), || "location".into())?;
            t.ensure(g.to_orbit(t0(), &alm).is_err(), || "orbit".into())?;
            let x = spacecraft(Vector3::new(9000.0, 0.0, 0.0), Vector3::new(0.0, 7.0, 0.0), t0(), earth());
            t.ensure(g.measure_instantaneous(x, None, &alm).is_err(), || "measure".into())?;
            t.ensure(g.azimuth_elevation_of(x.orbit, None, &alm).is_err(), || "azimuth and elevation".into())
        });
    }
    // 5. PNT: orbiters observed from ground assets on the Earth and on the Moon, moving or not.
    for (sn, stn) in STATIONS {
        for (vn, vel) in [("still", [0.0, 0.0, 0.0]), ("moving", [12.0, -40.0, 3.0])] {
            for (on, o) in orbits() {
                for body in ["earth", "moon"] {
                    let alm = alm.clone();
                    sp.push(format!("pnt/{sn}/{vn}/{on}/{body}"), move |t| pnt(t, &alm, tier, &stn, vel, &o, body));
                }
            }
        }
    }
    sp
}

fn builtin(name: &str, el: f64) -> GroundStation {
    let n = |sigma: f64| StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma }), bias: None };
    match name {
        "madrid" => GroundStation::dss65_madrid(el, n(5e-3), n(1e-5)),
        "canberra" => GroundStation::dss34_canberra(el, n(5e-3), n(1e-5)),
        _ => GroundStation::dss13_goldstone(el, n(5e-3), n(1e-5)),
    }
}

#[allow(clippy::too_many_arguments)]
fn one_gs(
    t: &mut Tally,
    alm: &anise::almanac::Almanac,
    stn: &[f64; 3],
    mask: &[(f64, f64)],
    ign: bool,
    w: &Look,
    rx: Spacecraft,
    blocked: bool,
    unsure: bool,
) -> Result<(), String> {
    t.step();
    let mut g = station(stn, mask, ign, &TYPES, false);
    let got = g.measure_instantaneous(rx, None, alm).map_err(|e| e.to_string())?;
    if unsure || near_edge(mask, w.az) || (w.el - mask_at(mask, ign, w.az)).abs() < 1e-7 {
        return Ok(());
    }
    let visible = w.el >= mask_at(mask, ign, w.az) && !blocked;
    t.see(&(visible, blocked));
    t.ensure(got.is_some() == visible, || format!("{}: measurement {} but visible = {visible} (el {}, az {}, blocked {blocked})", rx.orbit, got.is_some(), w.el, w.az))?;
    if let Some(m) = got {
        if w.el > 89.0 {
            return Ok(());
        }
        check_msr(t, &m, "stn", rx.epoch(), &TYPES, &|ty| w.get(ty))?;
    }
    Ok(())
}

fn pnt(t: &mut Tally, alm: &anise::almanac::Almanac, tier: Tier, stn: &[f64; 3], vel: [f64; 3], o: &Orbit, body: &str) -> Result<(), String> {
    let moon = body == "moon";
    let (frame, fixed, a, b) = if moon { (MOON_J2000, IAU_MOON_FRAME, 1737.4, 1737.4) } else { (EARTH_J2000, IAU_EARTH_FRAME, RE, RP) };
    let frame = alm.frame_info(frame).unwrap();
    let fixed = alm.frame_info(fixed).unwrap();
    let span = 7200.0;
    let k_scale = if moon { 0.4 } else { 1.0 };
    let mu_scale = if moon { MU_MOON / MU } else { 1.0 };
    // Scaled motion about the Moon: lengths by k, times by sqrt(k^3 / mu ratio).
    let ts = (k_scale as f64).powi(3).sqrt() / (mu_scale as f64).sqrt();
    let state = |dt: f64| {
        let (r, v) = at(o, dt / ts);
        (r * k_scale, v * k_scale / ts)
    };
    let mut tr = Traj::<Spacecraft>::new();
    for k in 0..=(span / 60.0) as usize {
        let (r, v) = state(k as f64 * 60.0);
        tr.states.push(spacecraft(r, v, t0() + s(k as f64 * 60.0), frame));
    }
    tr.finalize();
    tr.name = Some("pnt".into());
    let asset0 = GroundAsset::from_fixed(stn[0], stn[1], stn[2], t0(), fixed)
        .with_velocity_sez_m_s(vel[0], vel[1], vel[2])
        .map_err(|e| e.to_string())?;
    let back = asset0.velocity_sez_m_s().map_err(|e| e.to_string())?;
    for j in 0..3 {
        t.close("velocity of the asset, m/s", back[j], vel[j], 1e-8)?;
    }
    // Rates are the derivatives of the geodetic coordinates.
    let site_of = |x: &[f64; 6]| site(x[0], x[1], x[2], a, b);
    let vel_of = |x: &[f64; 6]| {
        let h = 1e-3;
        let p = site(x[0] + x[3] * h, x[1] + x[4] * h, x[2] + x[5] * h, a, b).0;
        let m = site(x[0] - x[3] * h, x[1] - x[4] * h, x[2] - x[5] * h, a, b).0;
        (p - m) / (2.0 * h)
    };
    let x0 = [asset0.latitude_deg, asset0.longitude_deg, asset0.height_km, asset0.latitude_rate_deg_s, asset0.longitude_rate_deg_s, asset0.height_rate_km_s];
    let st0 = site_of(&x0);
    let v0 = vel_of(&x0);
    for j in 0..3 {
        t.close("velocity of the asset along South, East, Zenith", v0.dot(&st0.1[j]) * 1e3, vel[j], 1e-4)?;
    }
    let types = vec![M::Doppler, M::Range];
    let mut tx = InterlinkTxSpacecraft {
        traj: tr,
        measurement_types: types.iter().copied().collect(),
        integration_time: None,
        timestamp_noise_s: None,
        stochastic_noises: Some(types.iter().map(|x| (*x, noise_of(*x))).collect::<IndexMap<_, _>>()),
        ab_corr: None,
    };
    for k in 0..tier.pick(24, 120) {
        let dt = 30.0 + (span - 60.0) * k as f64 / (tier.pick(24, 120) - 1) as f64;
        let ep = t0() + s(dt);
        // The dynamics move the asset along its rates, and its STM is the derivative.
        let asset = {
            let mut a0 = asset0;
            a0 = a0.with_stm();
            let p = Propagator::default(GroundDynamics {});
            p.with(a0, almanac()).for_duration(s(dt)).map_err(|e| e.to_string())?
        };
        let x: [f64; 6] = std::array::from_fn(|j| if j < 3 { x0[j] + x0[j + 3] * dt } else { x0[j] });
        let got6 = asset.to_vector();
        for j in 0..6 {
            t.close(&format!("asset coordinate {j} at {dt} s"), got6[j], x[j], 1e-9 * (1.0 + x[j].abs()))?;
        }
        t.ensure(asset.epoch == ep, || "epoch of the asset".into())?;
        let stm = asset.stm().map_err(|e| e.to_string())?;
        for i in 0..6 {
            for j in 0..6 {
                let want = if i == j { 1.0 } else if j == i + 3 { dt } else { 0.0 };
                t.close(&format!("asset STM {i},{j} at {dt} s"), stm[(i, j)], want, 1e-8 * (1.0 + dt))?;
            }
        }
        let (r, v) = on_traj(&tx.traj, ep)?;
        let (c, om) = if moon { moon_to_fixed(ep) } else { to_fixed(ep) };
        let rf = c * r;
        let vf = c * v - Vector3::new(0., 0., om).cross(&rf);
        let f = |x: &[f64; 6]| look(&site_of(x), vel_of(x), rf, vf);
        let w = f(&x);
        let got = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure_instantaneous(&mut tx, asset, None, alm).map_err(|e| e.to_string())?;
        t.step();
        if w.el.abs() < 1e-4 {
            continue;
        }
        t.see(&(w.el > 0.0));
        t.ensure(got.is_some() == (w.el > 0.0), || format!("at {dt} s: measurement {} at elevation {}", got.is_some(), w.el))?;
        let Some(m) = got else { continue };
        t.close("range", m.data[&M::Range], w.rho, 2e-6)?;
        t.close("Doppler", m.data[&M::Doppler], w.rate, 3e-7)?;
        t.ensure(m.epoch == ep && m.data.len() == 2, || format!("{m:?}"))?;
        let set: IndexSet<M> = types.iter().copied().collect();
        let h: OMatrix<f64, U2, Const<6>> =
            <InterlinkTxSpacecraft as TrackerSensitivity<GroundAsset, GroundAsset>>::h_tilde::<U2>(&tx, &m, &set, &asset, alm).map_err(|e| e.to_string())?;
        for (i, ty) in types.iter().enumerate() {
            for j in 0..6 {
                let st = [1e-3, 1e-3, 0.1, 1e-4, 1e-4, 1e-2][j];
                let d = |n: f64| {
                    let mut y = x;
                    y[j] += n * st;
                    f(&y).get(*ty)
                };
                let want = (8.0 * (d(1.0) - d(-1.0)) - (d(2.0) - d(-2.0))) / (12.0 * st);
                let scale = [1e2, 1e2, 1.0, 1e2, 1e2, 1.0][j] * if (i == 0) == (j >= 3) { 1.0 } else { 1e-2 };
                t.close(&format!("{ty:?} partial {j} at {dt} s"), h[(i, j)], want, 1e-5 * scale)?;
            }
        }
    }
    let _ = GroundDynamics {}.dual_eom(0.0, &asset0.with_stm(), alm).map_err(|e| e.to_string())?;
    Ok(())
}

/// Two spacecraft in plain view of each other for 20 minutes; the device transmits the given types.
fn plain_link(types: &[M]) -> (InterlinkTxSpacecraft, Traj<Spacecraft>, GroundAsset) {
    let o = orbits()[0].1;
    let mk = |lag: f64| traj_of((0..=20).map(|k| on_orbit(&o, s(k as f64 * 60.0), lag)).collect());
    let mut ttr = mk(0.0);
    ttr.name = Some("tx".into());
    let rtr = traj_of(
        (0..=20)
            .map(|k| {
                let mut x = on_orbit(&o, s(k as f64 * 60.0), 0.0);
                x.orbit.radius_km *= 1.02;
                x
            })
            .collect(),
    );
    let fixed = almanac().frame_info(IAU_EARTH_FRAME).unwrap();
    // Right below the transmitter at the first epoch.
    let (c, _) = to_fixed(t0());
    let r = c * ttr.states[0].orbit.radius_km;
    let asset = GroundAsset::from_fixed(r.z.atan2(r.x.hypot(r.y)).to_degrees(), r.y.atan2(r.x).to_degrees(), 0.0, t0(), fixed);
    let tx = InterlinkTxSpacecraft {
        traj: ttr,
        measurement_types: types.iter().copied().collect(),
        integration_time: None,
        timestamp_noise_s: None,
        stochastic_noises: Some(types.iter().map(|x| (*x, noise_of(*x))).collect()),
        ab_corr: None,
    };
    (tx, rtr, asset)
}

fn refuse_type(t: &mut Tally, alm: &anise::almanac::Almanac, bad: M, pos: usize) -> Result<(), String> {
    let mut types = vec![M::Range, M::Doppler];
    types.insert(pos, bad);
    // The same devices measure when the type is left out.
    for (with, types) in [(false, vec![M::Range, M::Doppler]), (true, types)] {
        let (tx, rtr, asset) = plain_link(&types);
        let mut outcomes = vec![];
        for k in [0usize, 3, 7] {
            let rx = rtr.states[k];
            let mut d = tx.clone();
            outcomes.push(("link, instantaneous", <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure_instantaneous(&mut d, rx, None, alm).map(|m| m.is_some())));
            for it in [None, Some(s(30.0))] {
                let mut d = tx.clone();
                d.integration_time = it;
                if k == 0 && it.is_some() {
                    continue;
                }
                outcomes.push(("link, over the integration time", <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut d, rx.epoch(), &rtr, None, alm).map(|m| m.is_some())));
            }
        }
        let mut d = tx.clone();
        outcomes.push(("pnt, instantaneous", <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure_instantaneous(&mut d, asset, None, alm).map(|m| m.is_some())));
        for (what, r) in outcomes {
            t.step();
            t.see(&(what, with, r.is_ok()));
            match r {
                Ok(got) => {
                    t.ensure(!with, || format!("{what}: {bad:?} is not supported, but there is no error"))?;
                    t.ensure(got, || format!("{what}: no measurement in plain view"))?;
                }
                Err(e) => t.ensure(with, || format!("{what}: {e}"))?,
            }
        }
        if with {
            // Sensitivities of a type that the device does not know.
            let rx = rtr.states[3];
            let m = Measurement::new("tx".into(), rx.epoch()).with(bad, 1.0);
            let set: IndexSet<M> = [bad].into_iter().collect();
            let h = <InterlinkTxSpacecraft as TrackerSensitivity<Spacecraft, Spacecraft>>::h_tilde::<nalgebra::U1>(&tx, &m, &set, &rx, alm);
            t.ensure(h.is_err(), || format!("sensitivity of {bad:?} on a link is not an error"))?;
            let h = <InterlinkTxSpacecraft as TrackerSensitivity<GroundAsset, GroundAsset>>::h_tilde::<nalgebra::U1>(&tx, &m, &set, &asset, alm);
            t.ensure(h.is_err(), || format!("sensitivity of {bad:?} of a ground asset is not an error"))?;
        }
    }
    Ok(())
}

fn refuse_epoch(t: &mut Tally, alm: &anise::almanac::Almanac, off: f64) -> Result<(), String> {
    let inside = (0.0..=1200.0).contains(&off);
    let ep = t0() + s(off);
    for types in [vec![M::Range], vec![M::Doppler], vec![M::Doppler, M::Range]] {
        let (tx, rtr, mut asset) = plain_link(&types);
        let mut rx = rtr.states[0];
        rx.orbit.epoch = ep;
        asset.epoch = ep;
        let mut d = tx.clone();
        let mut res = vec![
            ("location", <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::location(&tx, ep, earth(), alm).is_ok()),
            ("location for a ground asset", <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::location(&tx, ep, earth(), alm).is_ok()),
            ("link", <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure_instantaneous(&mut d, rx, None, alm).is_ok()),
            ("pnt", <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure_instantaneous(&mut d, asset, None, alm).is_ok()),
        ];
        for ty in &types {
            let m = Measurement::new("tx".into(), ep).with(*ty, 1.0);
            let set: IndexSet<M> = [*ty].into_iter().collect();
            res.push(("sensitivity of the link", <InterlinkTxSpacecraft as TrackerSensitivity<Spacecraft, Spacecraft>>::h_tilde::<nalgebra::U1>(&tx, &m, &set, &rx, alm).is_ok()));
            res.push((
                "sensitivity of the asset",
                <InterlinkTxSpacecraft as TrackerSensitivity<GroundAsset, GroundAsset>>::h_tilde::<nalgebra::U1>(&tx, &m, &set, &asset, alm).is_ok(),
            ));
        }
        for (what, ok) in res {
            t.step();
            t.see(&(what, ok));
            t.ensure(ok == inside, || format!("{what}: {} at {off} s, where the transmitter is known from 0 to 1200 s", if ok { "an answer" } else { "an error" }))?;
        }
    }
    Ok(())
}
