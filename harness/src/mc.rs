//! C27, C28: dispersions, initial uncertainties, and Monte Carlo runs.
use crate::core::*;
use crate::guid::axes;
use crate::prop::zoo_full;
use crate::traj::read_parquet;
use crate::world::*;
use anise::analysis::prelude::OrbitalElement as OE;
use anise::prelude::{Almanac, Orbit};
use nalgebra::{DMatrix, DVector, Matrix3, SMatrix, SVector, Vector3};
use nyx_space::cosmic::{DragData, Mass, SRPData};
use nyx_space::dynamics::guidance::LocalFrame;
use nyx_space::dynamics::{AccelModel, DynamicsError, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::io::ExportCfg;
use nyx_space::mc::helpers::unit_vector_from_seed;
use nyx_space::mc::{DispersedState, MonteCarlo, MvnSpacecraft, StateDispersion};
use nyx_space::md::StateParameter as SP;
use nyx_space::od::estimate::{Estimate, KfEstimate, SpacecraftUncertainty};
use nyx_space::propagators::*;
use nyx_space::{Spacecraft, State};
use rand_distr::Distribution;
use rand_pcg::Pcg64Mcg;
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};

type M9 = SMatrix<f64, 9, 9>;
type V9 = SVector<f64, 9>;

/// A source of chosen standard normal variates: the n-th draw is z[n] (then zero).
struct Script {
    z: Vec<f64>,
    n: usize,
}
impl rand::TryRng for Script {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok((self.try_next_u64()? >> 32) as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        let x = self.z.get(self.n).copied().unwrap_or(0.0);
        self.n += 1;
        // The second layer of the ziggurat: returned as is below 3.44.
        let u = x / 3.654_152_885_361_009;
        Ok(((((u + 3.0) / 2.0 - 1.0) * (1u64 << 52) as f64) as u64) << 12 | 1)
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Self::Error> {
        for c in dst.chunks_mut(8) {
            let b = self.try_next_u64()?.to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
        Ok(())
    }
}
/// A source of chosen numbers in [0, 1).
struct Uni {
    u: Vec<f64>,
    n: usize,
}
impl rand::TryRng for Uni {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok((self.try_next_u64()? >> 32) as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        let x = self.u[self.n % self.u.len()];
        self.n += 1;
        Ok(((x * (1u64 << 52) as f64) as u64) << 12)
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Self::Error> {
        dst.fill(0);
        Ok(())
    }
}

fn vec9(x: &Spacecraft) -> V9 {
    let (r, v) = (x.orbit.radius_km, x.orbit.velocity_km_s);
    V9::from([r.x, r.y, r.z, v.x, v.y, v.z, x.srp.coeff_reflectivity, x.drag.coeff_drag, x.mass.prop_mass_kg])
}
const DRAWS: usize = 12;
fn draw(m: &MvnSpacecraft, z: Vec<f64>) -> DispersedState<Spacecraft> {
    m.sample(&mut Script { z, n: 0 })
}
/// Mean and covariance of the samples, exactly: they are affine in the draws.
fn moments(t: &mut Tally, m: &MvnSpacecraft, template: &Spacecraft) -> Result<(V9, M9), String> {
    let zero = vec9(&draw(m, vec![]).state);
    let mut c = M9::zeros();
    let mut sum = V9::zeros();
    for k in 0..DRAWS {
        let mut z = vec![0.0; DRAWS];
        z[k] = 1.0;
        let d = vec9(&draw(m, z.clone()).state) - zero;
        z[k] = -2.0;
        let e = vec9(&draw(m, z).state) - zero;
        t.steps(2);
        for i in 0..9 {
            t.close("samples are affine in the draws", e[i], -2.0 * d[i], 1e-9 * (1.0 + d[i].abs()))?;
        }
        sum += d;
        c += d * d.transpose();
    }
    let all = vec9(&draw(m, vec![1.0; DRAWS]).state) - zero;
    t.close("samples are affine in the draws", (all - sum).norm(), 0.0, 1e-8 * (1.0 + sum.norm()))?;
    Ok((zero - vec9(template), c))
}

/// Elements, from their definitions.
pub fn value(e: OE, r: Vector3<f64>, v: Vector3<f64>) -> f64 {
    let h = r.cross(&v);
    let ev = v.cross(&h) / MU - r.normalize();
    let sma = 1.0 / (2.0 / r.norm() - v.norm_squared() / MU);
    let n = Vector3::z().cross(&h);
    // Angle from a to b around h, in [0, 360)
    let ang = |a: Vector3<f64>, b: Vector3<f64>| a.cross(&b).dot(&h.normalize()).atan2(a.dot(&b)).to_degrees().rem_euclid(360.0);
    match e {
        OE::X => r.x,
        OE::Y => r.y,
        OE::Z => r.z,
        OE::VX => v.x,
        OE::VY => v.y,
        OE::VZ => v.z,
        OE::Rmag => r.norm(),
        OE::Vmag => v.norm(),
        OE::HX => h.x,
        OE::HY => h.y,
        OE::HZ => h.z,
        OE::Hmag => h.norm(),
        OE::Energy => v.norm_squared() / 2.0 - MU / r.norm(),
        OE::C3 => v.norm_squared() - 2.0 * MU / r.norm(),
        OE::SemiMajorAxis => sma,
        OE::Eccentricity => ev.norm(),
        OE::Inclination => (h.z / h.norm()).acos().to_degrees(),
        OE::RAAN => n.y.atan2(n.x).to_degrees().rem_euclid(360.0),
        OE::AoP => ang(n, ev),
        OE::TrueAnomaly => ang(ev, r),
        OE::AoL => ang(n, r),
        OE::PeriapsisRadius => sma * (1.0 - ev.norm()),
        OE::ApoapsisRadius => sma * (1.0 + ev.norm()),
        OE::SemiParameter => h.norm_squared() / MU,
        OE::SemiMinorAxis => sma * (1.0 - ev.norm_squared()).sqrt(),
        OE::Declination => (r.z / r.norm()).asin().to_degrees(),
        OE::RightAscension => r.y.atan2(r.x).to_degrees().rem_euclid(360.0),
        OE::Period => std::f64::consts::TAU * (sma.powi(3) / MU).sqrt(),
        _ => unreachable!(),
    }
}
pub fn b_plane(r: Vector3<f64>, v: Vector3<f64>) -> (f64, f64) {
    // B is the impact parameter vector: perpendicular to the incoming asymptote, with B x V = h.
    let h = r.cross(&v);
    let ev = v.cross(&h) / MU - r.normalize();
    let e = ev.norm();
    let vinf = (v.norm_squared() - 2.0 * MU / r.norm()).sqrt();
    // Rotate the axis of symmetry by the angle of the asymptote.
    let nu = (-1.0 / e).acos();
    let q = h.normalize().cross(&ev.normalize());
    let s = -(ev.normalize() * nu.cos() - q * nu.sin());
    let b = s.cross(&h) / vinf;
    let tt = s.cross(&Vector3::z()).normalize();
    let rr = s.cross(&tt);
    (b.dot(&rr), b.dot(&tt))
}
pub fn param(p: SP, r: Vector3<f64>, v: Vector3<f64>) -> f64 {
    match p {
        SP::Element(e) => value(e, r, v),
        SP::BdotR() => b_plane(r, v).0,
        SP::BdotT() => b_plane(r, v).1,
        _ => unreachable!(),
    }
}
fn angular(p: SP) -> bool {
    matches!(p, SP::Element(OE::RAAN | OE::AoP | OE::TrueAnomaly | OE::AoL | OE::RightAscension))
}
pub fn wrapped(p: SP, x: f64) -> f64 {
    if angular(p) { (x + 180.0).rem_euclid(360.0) - 180.0 } else { x }
}
/// Derivative of a parameter with respect to the Cartesian state.
pub fn row(p: SP, o: &Orbit) -> [f64; 6] {
    let mut g = [0.0; 6];
    for (k, g) in g.iter_mut().enumerate() {
        let f = |d: f64| {
            let (mut r, mut v) = (o.radius_km, o.velocity_km_s);
            if k < 3 {
                r[k] += d;
            } else {
                v[k - 3] += d;
            }
            param(p, r, v)
        };
        let h = if k < 3 { o.radius_km.norm() * 2e-3 } else { o.velocity_km_s.norm() * 2e-3 };
        let c = [4.0 / 5.0, -1.0 / 5.0, 4.0 / 105.0, -1.0 / 280.0];
        *g = (0..4).map(|j| c[j] * wrapped(p, f(h * (j + 1) as f64) - f(-h * (j + 1) as f64))).sum::<f64>() / h;
    }
    g
}
fn jacobian(ps: &[SP], o: &Orbit) -> DMatrix<f64> {
    let mut j = DMatrix::zeros(ps.len(), 6);
    for (i, p) in ps.iter().enumerate() {
        for (k, x) in row(*p, o).iter().enumerate() {
            j[(i, k)] = *x;
        }
    }
    j
}
/// Rows scaled to one: how well the parameters determine a dispersion.
fn condition(j: &DMatrix<f64>) -> f64 {
    let mut n = j.clone();
    for mut r in n.row_iter_mut() {
        let s = r.norm();
        r /= s;
    }
    let sv = n.singular_values();
    sv.max() / sv.min()
}

fn craft(o: Orbit) -> Spacecraft {
    Spacecraft::builder()
        .orbit(o)
        .mass(Mass { dry_mass_kg: 500.0, prop_mass_kg: 100.0, extra_mass_kg: 20.0 })
        .srp(SRPData { area_m2: 20.0, coeff_reflectivity: 1.3 })
        .drag(DragData { area_m2: 10.0, coeff_drag: 2.1 })
        .build()
}
fn sigma(p: SP) -> (f64, f64) {
    // (1 sigma, mean)
    match p {
        SP::Element(OE::Eccentricity) => (1e-4, 3e-5),
        SP::Element(OE::X | OE::Y | OE::Z | OE::Rmag | OE::SemiMajorAxis | OE::PeriapsisRadius | OE::ApoapsisRadius | OE::SemiParameter | OE::SemiMinorAxis) => (1.5, -0.4),
        SP::Element(OE::VX | OE::VY | OE::VZ | OE::Vmag) => (2e-3, 7e-4),
        SP::Element(OE::HX | OE::HY | OE::HZ | OE::Hmag) => (20.0, 3.0),
        SP::Element(OE::Energy | OE::C3) => (0.01, 0.002),
        SP::Element(OE::Period) => (3.0, -1.0),
        SP::BdotR() | SP::BdotT() => (5.0, 1.0),
        SP::Cr() => (0.1, 0.02),
        SP::Cd() => (0.2, -0.05),
        SP::PropMass() => (3.0, 1.0),
        _ => (0.02, 0.006),
    }
}

const ELEMENTS: &[OE] = &[
    OE::X, OE::Y, OE::Z, OE::VX, OE::VY, OE::VZ, OE::Rmag, OE::Vmag, OE::HX, OE::HY, OE::HZ, OE::Hmag, OE::Energy, OE::C3, OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::RAAN, OE::AoP,
    OE::TrueAnomaly, OE::AoL, OE::PeriapsisRadius, OE::ApoapsisRadius, OE::SemiParameter, OE::SemiMinorAxis, OE::Declination, OE::RightAscension, OE::Period,
];

fn dispersed(t: &mut Tally, x: Spacecraft, ps: &[SP], with_mean: bool, zero_ctor: bool) -> Result<(), String> {
    dispersed_as(t, x, ps, &vec![if with_mean { 3 } else { 1 }; ps.len()], zero_ctor)
}
/// Each parameter with (1) or without standard deviation, and with (2) or without mean.
fn dispersed_as(t: &mut Tally, x: Spacecraft, ps: &[SP], kinds: &[usize], zero_ctor: bool) -> Result<(), String> {
    let of = |p: &SP| kinds[ps.iter().position(|q| q == p).unwrap()];
    let sigma = |p: SP| {
        let (s, m) = sigma(p);
        (if of(&p) & 1 != 0 { s } else { 0.0 }, if of(&p) & 2 != 0 && !zero_ctor { m } else { 0.0 })
    };
    let orb: Vec<SP> = ps.iter().copied().filter(|p| matches!(p, SP::Element(_) | SP::BdotR() | SP::BdotT())).collect();
    let disp: Vec<StateDispersion> = ps
        .iter()
        .map(|p| {
            let (s, m) = self::sigma(*p);
            match of(p) {
                0 => StateDispersion::builder().param(*p).build(),
                1 => StateDispersion::builder().param(*p).std_dev(s).build(),
                2 => StateDispersion::builder().param(*p).mean(m).build(),
                _ => StateDispersion::builder().param(*p).std_dev(s).mean(m).build(),
            }
        })
        .collect();
    let mvn = if zero_ctor { MvnSpacecraft::zero_mean(x, disp) } else { MvnSpacecraft::new(x, disp) }.map_err(|e| e.to_string())?;
    let mut want_c = M9::zeros();
    let mut want_m = V9::zeros();
    let mut tol = 1e-7;
    let mut mixed = 0.0;
    if !orb.is_empty() {
        let j = jacobian(&orb, &x.orbit);
        // Least norm solution, with the rows scaled to one for the sake of precision.
        let mut n = j.clone();
        let scale: Vec<f64> = (0..orb.len()).map(|i| j.row(i).norm()).collect();
        for (i, s) in scale.iter().enumerate() {
            n.row_mut(i).scale_mut(1.0 / s);
        }
        let mut inv = n.transpose() * (&n * n.transpose()).try_inverse().ok_or("dependent parameters")?;
        for (i, s) in scale.iter().enumerate() {
            inv.column_mut(i).scale_mut(1.0 / s);
        }
        let p = DMatrix::from_diagonal(&DVector::from_iterator(orb.len(), orb.iter().map(|p| sigma(*p).0.powi(2))));
        let c = &inv * &p * inv.transpose();
        let m = &inv * DVector::from_iterator(orb.len(), orb.iter().map(|p| sigma(*p).1));
        for i in 0..6 {
            for k in 0..6 {
                want_c[(i, k)] = c[(i, k)];
            }
            want_m[i] = m[i];
        }
        let sv = j.singular_values();
        tol = (1e-15 * (sv.max() / sv.min()).powi(2)).max(1e-6);
        // What rounding in the inverse of the squared Jacobian does to a component much smaller than the others.
        mixed = 1e-13 * (sv.max() / sv.min()).powi(2) * c.trace().sqrt();
    }
    for p in ps {
        let i = match p {
            SP::Cr() => 6,
            SP::Cd() => 7,
            SP::PropMass() => 8,
            _ => continue,
        };
        let (s, m) = sigma(*p);
        want_c[(i, i)] = s * s;
        want_m[i] = m;
    }
    let (m, c) = moments(t, &mvn, &x)?;
    t.see_f(&[c.norm().ln(), m.norm()]);
    // Rounding of a state, in each of its components.
    let round = |i: usize| if i < 3 { 3e-12 + mixed } else if i < 6 { 1e-14 + mixed } else { 1e-14 };
    for i in 0..9 {
        let scale = if i < 3 { want_m.fixed_rows::<3>(0).norm() } else if i < 6 { want_m.fixed_rows::<3>(3).norm() } else { 0.0 };
        t.close(&format!("mean[{i}]"), m[i], want_m[i], tol * scale + 1e-10)?;
        for k in 0..9 {
            let s = |i: usize| if i < 3 { want_c.fixed_view::<3, 3>(0, 0).trace().sqrt() } else if i < 6 { want_c.fixed_view::<3, 3>(3, 3).trace().sqrt() } else { want_c[(i, i)].sqrt() };
            t.close(&format!("covariance[{i}][{k}]"), c[(i, k)], want_c[(i, k)], tol * s(i) * s(k) + round(i) * s(k) + round(k) * s(i) + 1e-20)?;
        }
    }
    // Back in the space of the parameters, the samples have the requested statistics.
    for (i, p) in orb.iter().enumerate() {
        let g = row(*p, &x.orbit);
        let c6 = c.fixed_view::<6, 6>(0, 0).into_owned();
        let gv = SVector::<f64, 6>::from(g);
        t.close(&format!("sigma of {p:?} (#{i})"), (gv.transpose() * c6 * gv)[0].max(0.0).sqrt(), sigma(*p).0, tol * 100.0 * self::sigma(*p).0)?;
    }
    // What a sample says of itself.
    for z in [vec![0.7; DRAWS], (0..DRAWS).map(|k| if k % 2 == 0 { 1.1 } else { -0.4 }).collect()] {
        let d = draw(&mvn, z);
        t.step();
        let st = d.state;
        t.ensure(st.epoch() == x.epoch() && st.orbit.frame == x.orbit.frame && st.mass.dry_mass_kg == x.mass.dry_mass_kg && st.srp.area_m2 == x.srp.area_m2 && st.drag.area_m2 == x.drag.area_m2, || format!("a sample changes what is not dispersed: {st}"))?;
        t.ensure(d.actual_dispersions.len() == ps.len(), || format!("{} dispersions reported", d.actual_dispersions.len()))?;
        for ((q, got), p) in d.actual_dispersions.iter().zip(ps) {
            t.ensure(q == p, || format!("dispersion of {q:?} instead of {p:?}"))?;
            let want = match p {
                SP::Cr() => st.srp.coeff_reflectivity - x.srp.coeff_reflectivity,
                SP::Cd() => st.drag.coeff_drag - x.drag.coeff_drag,
                SP::PropMass() => st.mass.prop_mass_kg - x.mass.prop_mass_kg,
                _ => param(*p, st.orbit.radius_km, st.orbit.velocity_km_s) - param(*p, x.orbit.radius_km, x.orbit.velocity_km_s),
            };
            t.close(&format!("dispersion of {p:?}"), *got, want, 1e-7 + 1e-6 * self::sigma(*p).0)?;
        }
    }
    Ok(())
}

/// Positive semi-definite covariances: diagonal, rotated and correlated, with every subset of nil uncertainties.
fn covariances(x: &Spacecraft) -> Vec<(String, M9)> {
    let mut out = vec![];
    let full = [2.0, 0.5, 1.0, 3e-3, 1e-3, 2e-3, 0.1, 0.2, 4.0];
    for mask in 0..32usize {
        let mut d = V9::from(full);
        for i in 0..9 {
            let g = [0, 0, 1, 2, 2, 3, 4, 4, 4][i];
            if mask >> g & 1 == 1 {
                d[i] = 0.0;
            }
        }
        let p = M9::from_diagonal(&d.map(|x| x * x));
        out.push((format!("diagonal-{mask}"), p));
        for (fi, f) in [LocalFrame::RIC, LocalFrame::VNC].into_iter().enumerate() {
            let a = axes(f, x.orbit.radius_km, x.orbit.velocity_km_s);
            let mut rot = M9::identity();
            rot.fixed_view_mut::<3, 3>(0, 0).copy_from(&a);
            rot.fixed_view_mut::<3, 3>(3, 3).copy_from(&a);
            out.push((format!("rotated-{mask}-{fi}"), rot * p * rot.transpose()));
            // A dense factor
            let mut l = M9::zeros();
            for i in 0..9 {
                for k in 0..=i {
                    l[(i, k)] = d[i] * if i == k { 1.0 } else { 0.15 * ((i * 3 + k * 5 + fi) % 7) as f64 / 7.0 - 0.05 };
                }
            }
            out.push((format!("dense-{mask}-{fi}"), l * l.transpose()));
        }
    }
    out
}

pub fn c27(tier: Tier) -> Space {
    let mut sp = Space::new("every element and every independent pair (thorough: triple) of them, coefficients and masses, each with and without a spread and an offset, on each orbit: the samples for each unit draw give the exact mean and covariance; every class of positive semi-definite covariance; every uncertainty subset and frame");
    let orbits: Vec<(usize, &str)> = vec![(1, "meo-ecc"), (3, "polar-retro"), (4, "gto")];
    for (oi, oname) in orbits {
        let mut o = zoo_full(oi);
        if oi == 4 {
            // Away from the node, where the derivatives of the angles are defined.
            let (r, v) = kepler(MU, o.radius_km, o.velocity_km_s, 900.0);
            (o.radius_km, o.velocity_km_s) = (r, v);
        }
        let x = craft(o);
        let mut sets: Vec<Vec<SP>> = vec![];
        let all: Vec<SP> = ELEMENTS.iter().map(|e| SP::Element(*e)).collect();
        for i in 0..all.len() {
            sets.push(vec![all[i]]);
            for j in i + 1..all.len() {
                sets.push(vec![all[i], all[j]]);
                if tier.thorough() {
                    for k in j + 1..all.len() {
                        sets.push(vec![all[i], all[j], all[k]]);
                    }
                }
            }
        }
        sets.push(all[0..6].to_vec());
        sets.push([OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::RAAN, OE::AoP, OE::TrueAnomaly].map(SP::Element).to_vec());
        sets.push([OE::SemiMajorAxis, OE::Inclination, OE::RAAN, OE::AoP].map(SP::Element).to_vec());
        sets.push([OE::TrueAnomaly, OE::AoP, OE::RAAN, OE::Inclination, OE::Eccentricity].map(SP::Element).to_vec());
        for (n, ps) in sets.into_iter().enumerate() {
            let j = jacobian(&ps, &x.orbit);
            if ps.len() > 1 && condition(&j) > 50.0 && ps.len() < 4 {
                continue;
            }
            let name = if ps.len() < 4 { ps.iter().map(|p| format!("{p:?}").replace("Element(", "").replace(')', "")).collect::<Vec<_>>().join("+") } else { format!("set-{}-{n}", ps.len()) };
            for mode in 0..3usize {
                let ps = ps.clone();
                sp.push(format!("elements/{oname}/{name}/{mode}"), move |t| dispersed(t, x, &ps, mode > 0, mode == 2));
            }
        }
        // With the other parameters, in every order.
        let extra = [SP::Cr(), SP::Cd(), SP::PropMass()];
        for mask in 1..8usize {
            let some: Vec<SP> = (0..3).filter(|k| mask >> k & 1 == 1).map(|k| extra[k]).collect();
            for (bi, base) in [vec![], vec![SP::Element(OE::X)], vec![SP::Element(OE::SemiMajorAxis), SP::Element(OE::RAAN)]].into_iter().enumerate() {
                for perm in permutations(some.len() + base.len()) {
                    let list: Vec<SP> = base.iter().chain(&some).copied().collect();
                    let ps: Vec<SP> = perm.iter().map(|k| list[*k]).collect();
                    for mode in 0..3usize {
                        let ps = ps.clone();
                        sp.push(format!("others/{oname}/{mask}/{bi}/{perm:?}/{mode}"), move |t| dispersed(t, x, &ps, mode > 0, mode == 2));
                    }
                }
            }
        }
        // Each with or without a spread and an offset.
        for (si, set) in [vec![OE::X, OE::VZ], vec![OE::SemiMajorAxis, OE::RAAN], vec![OE::VY, OE::Inclination], vec![OE::AoL], vec![]].into_iter().enumerate() {
            let mut ps: Vec<SP> = set.into_iter().map(SP::Element).collect();
            ps.extend([SP::Cd(), SP::Cr()]);
            for kinds in product(&vec![4; ps.len()]) {
                for zero in [false, true] {
                    let (ps, kinds) = (ps.clone(), kinds.clone());
                    sp.push(format!("parts/{oname}/{si}/{kinds:?}/{zero}"), move |t| dispersed_as(t, x, &ps, &kinds, zero));
                }
            }
        }
        for p in [SP::DryMass(), SP::TotalMass(), SP::Isp(), SP::Thrust(), SP::GuidanceMode(), SP::Epoch()] {
            sp.push(format!("not-dispersed/{oname}/{p:?}"), move |t| {
                t.step();
                t.ensure(MvnSpacecraft::new(x, vec![StateDispersion::zero_mean(p, 1.0)]).is_err(), || format!("{p:?} is not a parameter of the random state"))
            });
        }
        // From a covariance.
        for (name, cov) in covariances(&x) {
            sp.push(format!("covariance/{oname}/{name}"), move |t| {
                let mean = V9::from([0.1, -0.2, 0.3, 1e-4, 2e-4, -3e-4, 0.01, 0.02, -0.5]);
                for m in [V9::zeros(), mean] {
                    let mvn = MvnSpacecraft::from_spacecraft_cov(x, cov, m).map_err(|e| format!("this covariance is positive semi-definite: {e}"))?;
                    let (gm, gc) = moments(t, &mvn, &x)?;
                    let d = |i: usize| cov[(i, i)].sqrt();
                    for i in 0..9 {
                        t.close(&format!("mean[{i}]"), gm[i], m[i], 1e-9)?;
                        for k in 0..9 {
                            t.close(&format!("covariance[{i}][{k}]"), gc[(i, k)], cov[(i, k)], 1e-7 * d(i) * d(k) + 1e-13)?;
                        }
                        t.close(&format!("standard deviation {i}"), mvn.dispersions[i].std_dev.unwrap_or(0.0), d(i), 1e-12 * (1.0 + d(i)))?;
                    }
                }
                // The same through an estimate.
                let est = KfEstimate::from_covar(x, cov);
                let (gm, gc) = moments(t, &est.to_random_variable().map_err(|e| e.to_string())?, &x)?;
                t.close("mean", gm.norm(), 0.0, 1e-9)?;
                t.close("covariance", (gc - cov).norm(), 0.0, 1e-7 * (cov.norm() + 1e-9))?;
                // Its uncertainty in the elements.
                let c6 = cov.fixed_view::<6, 6>(0, 0).into_owned();
                for e in ELEMENTS {
                    let g = SVector::<f64, 6>::from(row(SP::Element(*e), &x.orbit));
                    let var = (gram(&g, &c6)).max(0.0);
                    let got = est.sigma_for(*e).map_err(|e| e.to_string())?;
                    t.step();
                    let got2 = if got.is_nan() { 0.0 } else { got * got };
                    let scale = g.abs().dot(&(c6.abs() * g.abs()));
                    t.close(&format!("variance of {e:?}"), got2, var, 1e-6 * scale + 1e-18)?;
                }
                let j = jacobian(&[OE::SemiMajorAxis, OE::Eccentricity, OE::Inclination, OE::RAAN, OE::AoP, OE::TrueAnomaly].map(SP::Element), &x.orbit);
                let got = est.keplerian_covar();
                for i in 0..6 {
                    for k in 0..6 {
                        let (a, b) = (SVector::<f64, 6>::from_iterator(j.row(i).iter().copied()), SVector::<f64, 6>::from_iterator(j.row(k).iter().copied()));
                        t.close(&format!("Keplerian covariance[{i}][{k}]"), got[(i, k)], (a.transpose() * c6 * b)[0], 1e-6 * a.abs().dot(&(c6.abs() * b.abs())) + 1e-18)?;
                    }
                }
                // Scaling the uncertainty.
                let twice = est * 2.0;
                t.close("twice the uncertainty", (twice.covar - cov * 4.0).norm(), 0.0, 1e-12 * (1.0 + cov.norm()))?;
                t.ensure(twice.nominal_state == est.nominal_state, || "scaling changes the state".into())
            });
            // Not positive semi-definite.
            for i in 0..9usize {
                let name = name.clone();
                sp.push(format!("not-psd/{oname}/{name}/{i}"), move |t| {
                    let mut c = cov;
                    c[(i, i)] = -(cov.diagonal().max() * 0.01 + 1e-6);
                    t.step();
                    t.ensure(MvnSpacecraft::from_spacecraft_cov(x, c, V9::zeros()).is_err(), || format!("a negative variance is accepted: {:e}", c[(i, i)]))
                });
            }
        }
        // Within so many sigmas: each component counts.
        for (i, side, up) in product(&[9, 2, 2]).into_iter().map(|v| (v[0], v[1], v[2])) {
            sp.push(format!("within/{oname}/{i}/{side}/{up}"), move |t| {
                let d = V9::from([2.0, 0.5, 1.0, 3e-3, 1e-3, 2e-3, 0.1, 0.2, 4.0]);
                let mut est = KfEstimate::from_diag(x, d.map(|x| x * x));
                for n in [0.5, 1.0, 3.0] {
                    let mut dev = d * n * 0.5;
                    dev[i] = n * d[i] * if up == 1 { 1.001 } else { 0.999 } * if side == 1 { -1.0 } else { 1.0 };
                    est.set_state_deviation(dev);
                    t.step();
                    t.ensure(est.within_sigma(n) == (up == 0), || format!("component {i} at {} sigmas: {}", dev[i] / d[i], est.within_sigma(n)))?;
                    if n == 3.0 {
                        t.ensure(est.within_3sigma() == (up == 0), || format!("component {i} at {} sigmas: {}", dev[i] / d[i], est.within_3sigma()))?;
                    }
                    let (a, b) = (vec9(&est.state()), vec9(&x) + dev);
                    t.close("state and deviation", (a - b).norm(), 0.0, 1e-9)?;
                }
                Ok(())
            });
        }
        // Initial estimates from dispersions.
        for seed in 0..tier.pick(8u128, 64) {
            sp.push(format!("estimate/{oname}/{seed}"), move |t| {
                for mean in [false, true] {
                    let disp: Vec<StateDispersion> = [SP::Element(OE::SemiMajorAxis), SP::Element(OE::Inclination), SP::Cr(), SP::PropMass()]
                        .iter()
                        .map(|p| StateDispersion { param: *p, std_dev: Some(sigma(*p).0), mean: mean.then_some(sigma(*p).1 * if matches!(p, SP::Element(_)) { 50.0 } else { 2.0 }) })
                        .collect();
                    let est = KfEstimate::from_dispersions(x, disp.clone(), Some(seed)).map_err(|e| e.to_string())?;
                    let again = KfEstimate::from_dispersions(x, disp.clone(), Some(seed)).map_err(|e| e.to_string())?;
                    t.steps(2);
                    t.ensure(est == again, || "the same seed gives another estimate".into())?;
                    t.ensure(est.nominal_state == x, || "the nominal state is left unchanged".into())?;
                    let want = MvnSpacecraft::new(x, disp).map_err(|e| e.to_string())?.sample(&mut Pcg64Mcg::new(seed)).state;
                    t.close("the state of the estimate is the dispersed state", (vec9(&est.state()) - vec9(&want)).norm(), 0.0, 1e-9)?;
                    t.close("deviation", (est.state_deviation - (vec9(&want) - vec9(&x))).norm(), 0.0, 1e-9)?;
                    for i in 0..9 {
                        for k in 0..9 {
                            t.ensure(if i == k { est.covar[(i, i)] >= 0.0 } else { est.covar[(i, k)] == 0.0 }, || format!("covariance[{i}][{k}] = {}", est.covar[(i, k)]))?;
                        }
                    }
                }
                Ok(())
            });
        }
        // Uncertainties: in the frame of the orbit, then in a local frame.
        for mask in 0..512usize {
            let sg: Vec<f64> = (0..9).map(|i| if mask >> i & 1 == 1 { [1.0, 2.0, 0.5, 1e-3, 3e-3, 2e-3, 0.1, 0.2, 4.0][i] } else { 0.0 }).collect();
            let build = move |f: Option<LocalFrame>, sg: &[f64]| SpacecraftUncertainty { nominal: x, frame: f, x_km: sg[0], y_km: sg[1], z_km: sg[2], vx_km_s: sg[3], vy_km_s: sg[4], vz_km_s: sg[5], coeff_reflectivity: sg[6], coeff_drag: sg[7], mass_kg: sg[8] };
            let sg2 = sg.clone();
            sp.push(format!("uncertainty/{oname}/{mask}"), move |t| {
                for f in [None, Some(LocalFrame::Inertial)] {
                    let e = build(f, &sg).to_estimate().map_err(|e| e.to_string())?;
                    t.step();
                    for i in 0..9 {
                        for k in 0..9 {
                            t.close(&format!("covariance[{i}][{k}]"), e.covar[(i, k)], if i == k { sg[i] * sg[i] } else { 0.0 }, 1e-15)?;
                        }
                    }
                    t.ensure(e.nominal_state == x && e.state_deviation.norm() == 0.0, || "the nominal state".into())?;
                }
                for f in [None, Some(LocalFrame::RIC), Some(LocalFrame::VNC), Some(LocalFrame::RCN)] {
                    // Dispersed within its own covariance, reproducibly.
                    let u = build(f, &sg);
                    let e = u.to_estimate().map_err(|e| e.to_string())?;
                    let a = u.to_estimate_randomized(Some(8)).map_err(|e| e.to_string())?;
                    let b = u.to_estimate_randomized(Some(8)).map_err(|e| e.to_string())?;
                    t.steps(2);
                    t.ensure(a == b, || "the same seed gives another estimate".into())?;
                    t.close("covariance", (a.covar - e.covar).norm(), 0.0, 1e-15)?;
                    let want = MvnSpacecraft::from_spacecraft_cov(x, e.covar, V9::zeros()).map_err(|e| e.to_string())?.sample(&mut Pcg64Mcg::new(8)).state;
                    t.close("dispersed state", (vec9(&a.nominal_state) - vec9(&want)).norm(), 0.0, 1e-12)?;
                    for i in 6..9 {
                        for k in 0..9 {
                            t.close(&format!("covariance[{i}][{k}]"), e.covar[(i, k)], if i == k { sg[i] * sg[i] } else { 0.0 }, 1e-15)?;
                        }
                    }
                }
                // A negative uncertainty is refused.
                for i in 0..9 {
                    let mut bad = sg.clone();
                    bad[i] = -1e-9;
                    t.step();
                    t.ensure(build(None, &bad).to_estimate().is_err(), || format!("negative uncertainty #{i} accepted"))?;
                }
                Ok(())
            });
            if mask < 64 && (mask & 7 == 0) != (mask & 56 == 0) {
                let sg = sg2;
                for (fname, f) in [("ric", LocalFrame::RIC), ("rcn", LocalFrame::RCN), ("vnc", LocalFrame::VNC)] {
                    let sg = sg.clone();
                    let sg3 = sg.clone();
                    // Whichever way it is rotated (see KNOWN_FINDINGS): one rotation of the same uncertainties, and the others as given.
                    sp.push(format!("uncertainty-rotated/{oname}/{fname}/{mask}"), move |t| {
                        let sg = &sg3;
                        let e = build(Some(f), sg).to_estimate().map_err(|e| e.to_string())?;
                        t.step();
                        let d = x.orbit.dcm_to_inertial(f).map_err(|e| e.to_string())?.state_dcm();
                        let p = SMatrix::<f64, 6, 6>::from_diagonal(&SVector::<f64, 6>::from_iterator(sg[..6].iter().map(|s| s * s)));
                        let (right, known) = (d * p * d.transpose(), d.transpose() * p * d);
                        let got = e.covar.fixed_view::<6, 6>(0, 0).into_owned();
                        let far = |w: &SMatrix<f64, 6, 6>| {
                            let mut worst: f64 = 0.0;
                            for i in 0..6 {
                                for k in 0..6 {
                                    let b = |i: usize| w.fixed_view::<3, 3>(i / 3 * 3, i / 3 * 3).trace().sqrt();
                                    worst = worst.max((got[(i, k)] - w[(i, k)]).abs() / (b(i) * b(k) + 1e-14));
                                }
                            }
                            worst
                        };
                        t.close("distance to a rotation of the uncertainties", far(&right).min(far(&known)), 0.0, 1e-9)?;
                        for i in 6..9 {
                            for k in 0..9 {
                                let w = if i == k { sg[i] * sg[i] } else { 0.0 };
                                t.close(&format!("covariance[{i}][{k}]"), e.covar[(i, k)], w, 1e-15)?;
                                t.close(&format!("covariance[{k}][{i}]"), e.covar[(k, i)], w, 1e-15)?;
                            }
                        }
                        t.ensure(e.nominal_state == x && e.state_deviation.norm() == 0.0 && e.covar_bar == e.covar, || "the nominal state".into())
                    });
                    sp.push(format!("uncertainty-local/{oname}/{fname}/{mask}"), move |t| {
                        let e = build(Some(f), &sg).to_estimate().map_err(|e| e.to_string())?;
                        t.step();
                        let a = axes(f, x.orbit.radius_km, x.orbit.velocity_km_s);
                        for (at, s3) in [(0, &sg[0..3]), (3, &sg[3..6])] {
                            if at == 3 && mask & 7 != 0 {
                                continue;
                            }
                            let want = a * Matrix3::from_diagonal(&Vector3::from_iterator(s3.iter().map(|s| s * s))) * a.transpose();
                            let got = e.covar.fixed_view::<3, 3>(at, at);
                            t.close("covariance rotated into the inertial frame", (got - want).norm(), 0.0, 1e-3 * want.norm() + 1e-12)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // B-plane dispersions
    {
        let o = hyperbola();
        let mut o2 = o;
        o2.frame = zoo_full(0).frame;
        let x = craft(o2);
        for (n, ps) in [vec![SP::BdotR()], vec![SP::BdotT()], vec![SP::BdotR(), SP::BdotT()], vec![SP::BdotT(), SP::BdotR()], vec![SP::BdotT(), SP::Element(OE::Vmag)], vec![SP::Cr(), SP::BdotR(), SP::Element(OE::Rmag)]].into_iter().enumerate() {
            for mode in 0..3usize {
                let ps = ps.clone();
                sp.push(format!("b-plane/{n}/{mode}"), move |t| dispersed(t, x, &ps, mode > 0, mode == 2));
            }
        }
        let y = craft(zoo_full(0));
        sp.push("b-plane/closed-orbit", move |t| {
            t.step();
            t.ensure(MvnSpacecraft::new(y, vec![StateDispersion::zero_mean(SP::BdotR(), 1.0)]).is_err(), || "the B-plane of a closed orbit".into())
        });
    }
    // Random directions: unit vectors, uniform over the sphere.
    let n = tier.pick(24usize, 96);
    sp.push("dispersion", move |t| {
        use nyx_space::mc::Dispersion;
        for sd in [0.0, 1e-9, 0.3, 1.0, 750.0] {
            for p in [SP::Element(OE::SemiMajorAxis), SP::Element(OE::VX), SP::DryMass(), SP::Cr()] {
                let z = StateDispersion::zero_mean(p, sd);
                t.ensure(z.param == p && z.mean.unwrap_or(0.0) == 0.0 && z.std_dev == Some(sd), || format!("{z:?}"))?;
                let (a, b) = (Dispersion::from_std_dev(p, sd), Dispersion::from_3std_dev(p, 3.0 * sd));
                t.step();
                for d in [a, b] {
                    t.ensure(d.param == p && d.bound_min.is_none() && d.bound_max.is_none(), || format!("{:?} dispersed instead of {p:?}, or bounded", d.param))?;
                    t.ensure(d.distr.mean() == 0.0, || format!("mean of {}", d.distr.mean()))?;
                    t.close("standard deviation", d.distr.std_dev(), sd, 1e-15 * sd)?;
                }
            }
        }
        Ok(())
    });
    sp.push("directions", move |t| {
        let mut mean = Vector3::zeros();
        let mut second = Matrix3::zeros();
        for i in 0..n {
            for k in 0..n {
                let u = unit_vector_from_seed(&mut Uni { u: vec![(i as f64 + 0.5) / n as f64, (k as f64 + 0.5) / n as f64], n: 0 });
                t.step();
                t.close("norm", u.norm(), 1.0, 1e-12)?;
                t.see_f(&[u.x, u.y, u.z]);
                mean += u / (n * n) as f64;
                second += u * u.transpose() / (n * n) as f64;
            }
        }
        t.close("mean direction", mean.norm(), 0.0, 1e-9)?;
        t.close("isotropy", (second - Matrix3::identity() / 3.0).norm(), 0.0, 1.0 / (n * n) as f64)
    });
    sp
}
fn gram(g: &SVector<f64, 6>, c: &SMatrix<f64, 6, 6>) -> f64 {
    (g.transpose() * c * g)[0]
}

// ---- Monte Carlo ----------------------------------------------------------------------------------------------------

/// Decides in which order the runs go on, and which fail: runs are recognized by their first state.
struct Gate {
    starts: Vec<Vector3<f64>>,
    order: Vec<usize>,
    fails: Vec<bool>,
    calls: usize,
    // (position in the order, evaluations of the current run)
    state: Mutex<(usize, usize)>,
    cv: Condvar,
}
#[derive(Clone)]
struct Gated(Arc<Gate>);
thread_local!(static RUN: Cell<usize> = const { Cell::new(usize::MAX) });
impl std::fmt::Display for Gated {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "gate")
    }
}
impl AccelModel for Gated {
    fn eom(&self, o: &Orbit, _a: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
        let g = &self.0;
        if let Some(k) = g.starts.iter().position(|r| (r - o.radius_km).norm() < 1e-9) {
            if o.epoch == t0() {
                RUN.set(k);
                if !g.order.is_empty() {
                    let mut st = g.state.lock().unwrap();
                    let until = std::time::Instant::now() + std::time::Duration::from_secs(5);
                    while g.order.get(st.0).is_some_and(|n| *n != k) && std::time::Instant::now() < until {
                        st = g.cv.wait_timeout(st, std::time::Duration::from_millis(50)).unwrap().0;
                    }
                    drop(st);
                    // Let the previous run be collected.
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
            }
        }
        let k = RUN.get();
        let fail = g.fails.get(k).copied().unwrap_or(false);
        let mut st = g.state.lock().unwrap();
        st.1 += 1;
        if fail || st.1 >= g.calls {
            *st = (st.0 + 1, 0);
            g.cv.notify_all();
        }
        drop(st);
        if fail {
            return Err(DynamicsError::StateTransitionMatrixUnset);
        }
        Ok(Vector3::zeros())
    }
    fn gradient(&self, o: &Orbit, a: &Almanac) -> Result<(Vector3<f64>, Matrix3<f64>), DynamicsError> {
        Ok((self.eom(o, a)?, Matrix3::zeros()))
    }
}

fn random(sig: f64) -> MvnSpacecraft {
    let x = craft(zoo_full(1));
    MvnSpacecraft::new(x, vec![StateDispersion::zero_mean(SP::Element(OE::X), sig), StateDispersion::zero_mean(SP::Element(OE::VY), sig * 1e-3), StateDispersion::zero_mean(SP::Cr(), 0.1)]).unwrap()
}
fn mc(seed: u128) -> MonteCarlo<Spacecraft, MvnSpacecraft> {
    let m = random(5.0);
    MonteCarlo::new(m.template, m, "check".into(), Some(seed))
}
fn prop_with(m: Option<Arc<Gate>>) -> Propagator<SpacecraftDynamics> {
    let od = match m {
        Some(g) => OrbitalDynamics::new(vec![Arc::new(Gated(g))]),
        None => OrbitalDynamics::two_body(),
    };
    Propagator::new(SpacecraftDynamics::new(od), IntegratorMethod::RungeKutta4, IntegratorOptions::with_fixed_step(s(20.0)))
}
const SPAN: f64 = 130.0;

fn same_traj(t: &mut Tally, what: &str, a: &nyx_space::md::Trajectory, b: &nyx_space::md::Trajectory) -> Result<(), String> {
    t.ensure(a.states.len() == b.states.len(), || format!("{what}: {} states instead of {}", a.states.len(), b.states.len()))?;
    for (x, y) in a.states.iter().zip(&b.states) {
        t.ensure(x.epoch() == y.epoch(), || format!("{what}: {} instead of {}", x.epoch(), y.epoch()))?;
        t.close(what, (vec9(x) - vec9(y)).norm(), 0.0, 1e-9)?;
    }
    Ok(())
}

pub fn c28(tier: Tier) -> Space {
    let mut sp = Space::new("every completion order of up to four runs (thorough: five) on the thread pool x every pattern of failing runs; pools of one to six threads; every split of the runs into two parts; reports and exports for every pattern of failures, window and step");
    sp.hang_s = 120.0;
    let big = tier.pick(4usize, 5);
    // The generated states.
    for seed in [0u128, 4, 5, 77, u64::MAX as u128 + 9] {
        sp.push(format!("states/{seed}"), move |t| {
            let m = mc(seed);
            let full = m.generate_states(0, 12, Some(seed));
            let rv = random(5.0);
            let mut rng = Pcg64Mcg::new(seed);
            for (k, (i, d)) in full.iter().enumerate() {
                t.step();
                t.ensure(*i == k, || format!("state {k} has index {i}"))?;
                let w = rv.sample(&mut rng);
                t.ensure(d.state == w.state, || format!("state {k} is {} instead of {}", d.state, w.state))?;
                t.ensure(k == 0 || d.state != full[k - 1].1.state, || format!("state {k} repeats the previous one"))?;
                t.see_f(&[d.state.orbit.radius_km.x]);
            }
            for skip in 0..=12 {
                for n in 0..=(12 - skip) {
                    let part = m.generate_states(skip, n, Some(seed));
                    t.step();
                    t.ensure(part.len() == n, || format!("{} states instead of {n}", part.len()))?;
                    for k in 0..n {
                        t.ensure(part[k].1.state == full[skip + k].1.state, || format!("state {k} after skipping {skip} is not state {}", skip + k))?;
                    }
                }
            }
            let other = m.generate_states(0, 12, Some(seed + 8));
            t.ensure(other.iter().zip(&full).all(|(a, b)| a.1.state != b.1.state), || "another seed gives the same states".into())
        });
    }
    // Every completion order and every pattern of failures.
    for n in 1..=big {
        for perm in permutations(n) {
            for mask in 0..(1usize << n) {
                let perm = perm.clone();
                sp.push(format!("order/{n}/{perm:?}/{mask:b}"), move |t| {
                    let m = mc(9);
                    let init: Vec<Spacecraft> = m.generate_states(0, n, Some(9)).iter().map(|x| x.1.state).collect();
                    let starts: Vec<Vector3<f64>> = init.iter().map(|x| x.orbit.radius_km).collect();
                    let fails: Vec<bool> = (0..n).map(|k| mask >> k & 1 == 1).collect();
                    // How many evaluations a run takes.
                    let count = Arc::new(Gate { starts: vec![], order: vec![], fails: vec![], calls: usize::MAX, state: Mutex::new((0, 0)), cv: Condvar::new() });
                    prop_with(Some(count.clone())).with(init[0], almanac()).until_epoch_with_traj(t0() + s(SPAN)).map_err(|e| e.to_string())?;
                    let calls = count.state.lock().unwrap().1;
                    let gate = Arc::new(Gate { starts, order: perm.clone(), fails: fails.clone(), calls, state: Mutex::new((0, 0)), cv: Condvar::new() });
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(n + 2).build().unwrap();
                    let res = pool.install(|| m.run_until_epoch(prop_with(Some(gate.clone())), almanac(), t0() + s(SPAN), n));
                    t.steps(n);
                    t.ensure(res.runs.len() == n, || format!("{} runs instead of {n}", res.runs.len()))?;
                    t.ensure(res.scenario == "check", || format!("scenario {}", res.scenario))?;
                    for (k, run) in res.runs.iter().enumerate() {
                        t.ensure(run.index == k, || format!("run {k} has index {}", run.index))?;
                        t.ensure(run.dispersed_state.state == init[k], || format!("run {k} started from another state"))?;
                        t.ensure(run.result.is_err() == fails[k], || format!("run {k}: {}", if fails[k] { "the failure is lost" } else { "a failure of another run" }))?;
                        if let Ok(r) = &run.result {
                            let (x, tr) = prop_with(None).with(init[k], almanac()).until_epoch_with_traj(t0() + s(SPAN)).map_err(|e| e.to_string())?;
                            t.close(&format!("final state of run {k}"), (vec9(&r.state) - vec9(&x)).norm(), 0.0, 1e-9)?;
                            t.ensure(r.state.epoch() == x.epoch(), || format!("run {k} ends on {}", r.state.epoch()))?;
                            same_traj(t, &format!("trajectory of run {k}"), &r.traj, &tr)?;
                        }
                    }
                    t.see(&perm);
                    Ok(())
                });
            }
        }
    }
    // Any number of threads, any split in two parts; events.
    for threads in 1..=6usize {
        sp.push(format!("threads/{threads}"), move |t| {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            let m = mc(21);
            let init = m.generate_states(0, 9, Some(21));
            let full = pool.install(|| m.resume_run_until_epoch(prop_with(None), almanac(), 0, t0() + s(SPAN), 9));
            for skip in 0..9 {
                let part = pool.install(|| m.resume_run_until_epoch(prop_with(None), almanac(), skip, t0() + s(SPAN), 9 - skip));
                t.steps(9 - skip);
                t.ensure(part.runs.len() == 9 - skip, || format!("{} runs", part.runs.len()))?;
                for (k, run) in part.runs.iter().enumerate() {
                    let (a, b) = (run.result.as_ref().map_err(|e| e.to_string())?, full.runs[skip + k].result.as_ref().map_err(|e| e.to_string())?);
                    t.ensure(run.dispersed_state.state == init[skip + k].1.state, || format!("run {k} after skipping {skip} started from another state"))?;
                    t.ensure(a.state == b.state, || format!("run {k} after skipping {skip} is not run {}", skip + k))?;
                    same_traj(t, "trajectory", &a.traj, &b.traj)?;
                }
            }
            Ok(())
        });
        sp.push(format!("events/{threads}"), move |t| {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            let m = random(40.0);
            let m = MonteCarlo::new(m.template, m, "check".into(), Some(33));
            let prop = || Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorMethod::RungeKutta89, IntegratorOptions::default());
            let event = anise::analysis::event::Event::apoapsis();
            for (trigger, hours) in [(1usize, 8.0), (2, 14.0), (2, 7.0)] {
                let max = s(hours * 3600.0);
                let res = pool.install(|| m.resume_run_until_nth_event(prop(), almanac(), 2, max, &event, trigger, 5));
                let init = m.generate_states(2, 5, Some(33));
                // From the first run on: the same runs.
                let again = {
                    let m = random(40.0);
                    let m = MonteCarlo::new(m.template, m, "check".into(), Some(33));
                    pool.install(|| m.run_until_nth_event::<_, ()>(prop(), almanac(), max, &event, trigger, 7))
                };
                t.ensure(again.runs.len() == 7, || format!("{} runs", again.runs.len()))?;
                for (a, b) in again.runs[2..].iter().zip(&res.runs) {
                    t.step();
                    t.ensure(a.index == b.index + 2 && a.dispersed_state.state == b.dispersed_state.state, || format!("run {} resumed as {}", a.index, b.index))?;
                    match (&a.result, &b.result) {
                        (Ok(x), Ok(y)) => t.ensure(x.state == y.state && x.traj.states.len() == y.traj.states.len(), || format!("run {}: {} resumed as {}", a.index, x.state, y.state))?,
                        (Err(_), Err(_)) => {}
                        _ => return Err(format!("run {} found its event only once", a.index)),
                    }
                }
                t.ensure(res.runs.len() == 5, || format!("{} runs", res.runs.len()))?;
                for (k, run) in res.runs.iter().enumerate() {
                    t.step();
                    t.ensure(run.dispersed_state.state == init[k].1.state, || format!("run {k} started from another state"))?;
                    let alone = prop().with(init[k].1.state, almanac()).until_nth_event(max, &event, None, trigger);
                    match (&run.result, &alone) {
                        (Ok(a), Ok(b)) => {
                            t.ensure(a.state.epoch() == b.0.epoch(), || format!("run {k}: event on {} instead of {}", a.state.epoch(), b.0.epoch()))?;
                            t.close("state at the event", (vec9(&a.state) - vec9(&b.0)).norm(), 0.0, 1e-9)?;
                            same_traj(t, "trajectory", &a.traj, &b.1)?;
                        }
                        (Err(_), Err(_)) => {}
                        (a, b) => return Err(format!("run {k}: found {} in the Monte Carlo, {} alone", a.is_ok(), b.is_ok())),
                    }
                }
            }
            Ok(())
        });
    }
    // Reports and exports.
    for mask in 0..16usize {
        sp.push(format!("report/{mask:b}"), move |t| {
            let n = 4;
            let m = mc(9);
            let init: Vec<DispersedState<Spacecraft>> = m.generate_states(0, n, Some(9)).into_iter().map(|x| x.1).collect();
            let starts: Vec<Vector3<f64>> = init.iter().map(|x| x.state.orbit.radius_km).collect();
            let fails: Vec<bool> = (0..n).map(|k| mask >> k & 1 == 1).collect();
            let gate = Arc::new(Gate { starts, order: vec![], fails: fails.clone(), calls: usize::MAX, state: Mutex::new((0, 0)), cv: Condvar::new() });
            // On one thread: the runs are recognized by their first state.
            let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
            let res = pool.install(|| m.run_until_epoch(prop_with(Some(gate)), almanac(), t0() + s(SPAN), n));
            let flights: Vec<Option<nyx_space::md::Trajectory>> = (0..n).map(|k| (!fails[k]).then(|| prop_with(None).with(init[k].state, almanac()).until_epoch_with_traj(t0() + s(SPAN)).unwrap().1)).collect();
            for p in [SP::Element(OE::X), SP::Element(OE::VY), SP::Cr(), SP::PropMass(), SP::Isp()] {
                let val = |x: &Spacecraft| match p {
                    SP::Element(OE::X) => Some(x.orbit.radius_km.x),
                    SP::Element(OE::VY) => Some(x.orbit.velocity_km_s.y),
                    SP::Cr() => Some(x.srp.coeff_reflectivity),
                    SP::PropMass() => Some(x.mass.prop_mass_kg),
                    _ => None,
                };
                for instead in [None, Some(-1.5)] {
                    // A report: what each run gives, or the replacement.
                    let report = |f: &dyn Fn(&nyx_space::md::Trajectory) -> Vec<Option<f64>>| -> Vec<f64> {
                        let mut out = vec![];
                        for fl in &flights {
                            match fl {
                                Some(tr) => out.extend(f(tr).into_iter().filter_map(|x| x.or(instead))),
                                None => out.extend(instead),
                            }
                        }
                        out
                    };
                    let mut cmp = |what: &str, got: Vec<f64>, want: Vec<f64>| {
                        t.step();
                        t.ensure(got.len() == want.len(), || format!("{what} of {p:?}: {} values instead of {}", got.len(), want.len()))?;
                        for (a, b) in got.iter().zip(&want) {
                            t.close(&format!("{what} of {p:?}"), *a, *b, 1e-6)?;
                        }
                        Ok::<(), String>(())
                    };
                    cmp("first", res.first_values_of(p, instead), report(&|tr| vec![val(tr.first())]))?;
                    cmp("last", res.last_values_of(p, instead), report(&|tr| vec![val(tr.last())]))?;
                    for step in [10.0, 45.0, 200.0] {
                        let at = |tr: &nyx_space::md::Trajectory, a: f64, b: f64| {
                            let mut out = vec![];
                            let mut e = a;
                            while e <= b + 1e-9 {
                                out.push(val(&tr.at(t0() + s(e)).unwrap()));
                                e += step;
                            }
                            out
                        };
                        cmp("all", res.every_value_of(p, s(step), instead), report(&|tr| at(tr, 0.0, SPAN)))?;
                        for (a, b) in [(0.0, SPAN), (15.0, 100.0), (60.0, 60.0)] {
                            cmp("window", res.every_value_of_between(p, s(step), t0() + s(a), t0() + s(b), instead), report(&|tr| at(tr, a, b)))?;
                        }
                    }
                }
                // Dispersions are those of every run, failed or not.
                let d = res.dispersion_values_of(p);
                match p {
                    SP::PropMass() | SP::Isp() => t.ensure(d.is_err(), || format!("{p:?} is not dispersed"))?,
                    _ => {
                        let d = d.map_err(|e| e.to_string())?;
                        t.ensure(d.len() == n, || format!("{} dispersions", d.len()))?;
                        for k in 0..n {
                            t.close(&format!("dispersion of {p:?}"), d[k], val(&init[k].state).unwrap() - val(&random(5.0).template).unwrap(), 1e-9)?;
                        }
                    }
                }
            }
            // Exports
            for (ci, cfg) in [
                ExportCfg::default(),
                ExportCfg::builder().step(s(30.0)).build(),
                ExportCfg::builder().step(s(30.0)).start_epoch(t0() + s(35.0)).build(),
                ExportCfg::builder().step(s(25.0)).end_epoch(t0() + s(90.0)).build(),
                ExportCfg::builder().fields(vec![SP::Element(OE::X), SP::Cr(), SP::Isp()]).build(),
                ExportCfg::builder().end_epoch(t0() + s(90.0)).build(),
                ExportCfg::builder().start_epoch(t0() + s(35.0)).build(),
                ExportCfg::builder().start_epoch(t0() + s(20.0)).end_epoch(t0() + s(90.0)).step(s(7.0)).build(),
            ]
            .into_iter()
            .enumerate()
            {
                let path = scratch(&format!("c28-{mask}-{ci}.parquet"));
                let r = res.to_parquet(&path, cfg).map_err(|e| e.to_string());
                t.step();
                if fails.iter().all(|f| *f) {
                    t.ensure(r.is_err(), || "an export without any successful run".into())?;
                    continue;
                }
                let cols = read_parquet(&r?)?;
                let _ = std::fs::remove_file(&path);
                let mut want = vec![];
                for (k, fl) in flights.iter().enumerate() {
                    let Some(tr) = fl else { continue };
                    let (a, b, st) = match ci {
                        1 => (0.0, SPAN, 30.0),
                        2 => (35.0, SPAN, 30.0),
                        3 => (0.0, 90.0, 25.0),
                        // Every minute unless told otherwise.
                        5 => (0.0, 90.0, 60.0),
                        6 => (35.0, SPAN, 60.0),
                        7 => (20.0, 90.0, 7.0),
                        _ => {
                            want.extend(tr.states.iter().map(|x| (k, *x)));
                            continue;
                        }
                    };
                    let mut e = a;
                    while e <= b {
                        want.push((k, tr.at(t0() + s(e)).map_err(|e| e.to_string())?));
                        e += st;
                    }
                }
                t.ensure(cols.rows == want.len(), || format!("{} rows instead of {}", cols.rows, want.len()))?;
                let xs = cols.num.iter().find(|(k, _)| k.starts_with("X (km)") || k.as_str() == "x (km)").map(|x| x.1.clone()).ok_or_else(|| format!("no X in {:?}", cols.num.keys()))?;
                let idx = cols.num.get("Monte Carlo Run Index").ok_or_else(|| format!("no index in {:?}", cols.num.keys()))?;
                let ep = &cols.text["Epoch (UTC)"];
                for (i, (k, x)) in want.iter().enumerate() {
                    t.close("index", idx[i].unwrap_or(-1.0), *k as f64, 1e-12)?;
                    t.close("X", xs[i].unwrap_or(f64::NAN), x.orbit.radius_km.x, 1e-6)?;
                    let e: hifitime::Epoch = format!("{} UTC", ep[i].clone().unwrap_or_default()).parse().map_err(|e| format!("{e:?}"))?;
                    t.ensure((e - x.epoch()).abs() < s(1e-3), || format!("row {i}: {e} instead of {}", x.epoch()))?;
                }
            }
            Ok(())
        });
    }
    // A field which only some of the states have is exported with blanks, one which none has is left out.
    for mask in 0..8usize {
        for dirs in 0..4usize {
            sp.push(format!("export/partial/{mask:b}/{dirs}"), move |t| {
                let mut res = mc(9).run_until_epoch(prop_with(None), almanac(), t0() + s(SPAN), 3);
                let mut want: Vec<(Option<f64>, Option<f64>, Option<f64>)> = vec![];
                for (k, run) in res.runs.iter_mut().enumerate() {
                    let r = run.result.as_mut().map_err(|e| e.to_string())?;
                    for (i, x) in r.traj.states.iter_mut().enumerate() {
                        x.thruster = (mask >> k & 1 == 1).then_some(nyx_space::dynamics::guidance::Thruster { thrust_N: 0.5 + k as f64, isp_s: 200.0 + i as f64 });
                        // never, from the second state on, on the last states only, on the first run only
                        let has = [false, i > 0, i > 4, k == 0][dirs];
                        x.mut_thrust_direction(has.then_some(Vector3::new(0.6, -0.8, 0.0)));
                        want.push((x.thruster.map(|y| y.isp_s), x.thruster.map(|y| y.thrust_N), has.then_some(-0.8)));
                    }
                }
                for all in [true, false] {
                    let cfg = if all { ExportCfg::default() } else { ExportCfg::builder().fields(vec![SP::Isp(), SP::ThrustY(), SP::Thrust(), SP::Cr()]).build() };
                    let path = scratch(&format!("c28-partial-{mask}-{dirs}-{all}.parquet"));
                    let cols = read_parquet(&res.to_parquet(&path, cfg).map_err(|e| e.to_string())?)?;
                    let _ = std::fs::remove_file(&path);
                    t.ensure(cols.rows == want.len(), || format!("{} rows instead of {}", cols.rows, want.len()))?;
                    for (name, want) in [("isp", want.iter().map(|x| x.0).collect::<Vec<_>>()), ("thrust (", want.iter().map(|x| x.1).collect()), ("thrust_y", want.iter().map(|x| x.2).collect())] {
                        t.step();
                        let col = cols.num.iter().find(|(k, _)| k.to_lowercase().starts_with(name));
                        if want.iter().all(|x| x.is_none()) {
                            t.ensure(col.is_none_or(|c| c.1.iter().all(|x| x.is_none())), || format!("{name} is exported although no state has it"))?;
                        } else {
                            let c = col.ok_or_else(|| format!("no {name} in {:?}", cols.num.keys()))?.1;
                            t.ensure(*c == want, || format!("{name}: {c:?} instead of {want:?}"))?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // Runs of different durations are exported in full.
    sp.push("export/events", move |t| {
        let m = random(40.0);
        let m = MonteCarlo::new(m.template, m, "check".into(), Some(33));
        let prop = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::two_body()), IntegratorMethod::RungeKutta89, IntegratorOptions::default());
        let res = m.resume_run_until_nth_event(prop, almanac(), 0, s(8.0 * 3600.0), &anise::analysis::event::Event::apoapsis(), 1, 6);
        let path = scratch("c28-events.parquet");
        let cols = read_parquet(&res.to_parquet(&path, ExportCfg::builder().step(s(60.0)).build()).map_err(|e| e.to_string())?)?;
        let _ = std::fs::remove_file(&path);
        let idx = cols.num.get("Monte Carlo Run Index").ok_or("no index")?;
        for run in &res.runs {
            let r = run.result.as_ref().map_err(|e| e.to_string())?;
            let want = ((r.state.epoch() - r.traj.first().epoch()).to_seconds() / 60.0).floor() as usize + 1;
            let got = idx.iter().filter(|x| **x == Some(run.index as f64)).count();
            t.step();
            t.ensure(got == want, || format!("run {}: {got} rows instead of {want}", run.index))?;
        }
        Ok(())
    });
    sp
}
