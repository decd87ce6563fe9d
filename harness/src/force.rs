//! Force models: every model's acceleration against the physical law it stands for, and its partials against differences of it.
use crate::core::*;
use crate::world::*;
use anise::constants::frames::*;
use anise::prelude::{Frame, Orbit};
use nalgebra::{Matrix3, Vector3};
use nyx_space::{Spacecraft, State};
use nyx_space::cosmic::eclipse::ShadowModel;
use nyx_space::dynamics::*;
use nyx_space::io::gravity::GravityFieldData;
use std::sync::Arc;

/// Integration frames: the usual one and one with other (inertial) axes.
pub fn int_frames() -> Vec<(&'static str, Frame)> {
    let alm = almanac();
    vec![
        ("eme", alm.frame_info(EARTH_J2000).unwrap()),
        ("ecl", alm.frame_info(EARTH_J2000).unwrap().with_orient(17)),
    ]
}

/// Positions (km, inertial) and a velocity to go with them; none on a symmetry axis except the polar and equatorial ones.
pub const POS: &[(&str, [f64; 3], [f64; 3])] = &[
    ("leo", [5123.0, -3456.0, 3210.0], [3.1, 6.2, 2.0]),
    ("south", [-2100.0, 3900.0, -5800.0], [-5.0, -3.1, 4.4]),
    ("equator", [7000.0, 1200.0, 0.0], [-0.9, 7.3, 1.0]),
    ("near-pole", [3.0, -2.0, 6900.0], [7.4, 0.5, 0.1]),
    ("geo", [-30_000.0, 29_000.0, -400.0], [-2.1, -2.2, 0.01]),
    ("far", [90_000.0, -60_000.0, 70_000.0], [0.9, 1.1, -0.3]),
];

fn orbit(p: usize, f: Frame, days: f64) -> Orbit {
    let (_, r, v) = POS[p];
    Orbit::new(r[0], r[1], r[2], v[0], v[1], v[2], t0() + s(days * 86400.0), f)
}
fn at(o: Orbit, r: Vector3<f64>) -> Orbit {
    Orbit::new(r.x, r.y, r.z, o.velocity_km_s.x, o.velocity_km_s.y, o.velocity_km_s.z, o.epoch, o.frame)
}

/// Fully normalised associated Legendre function, from the definition (explicit finite sum).
fn pbar(n: usize, m: usize, x: f64) -> f64 {
    // P_nm(x) = (1-x^2)^{m/2} d^m/dx^m P_n(x), with P_n's monomial coefficients.
    let fact = |k: usize| (1..=k).map(|i| i as f64).product::<f64>();
    let mut sum = 0.0;
    for k in 0..=(n / 2) {
        let e = n - 2 * k;
        if e < m {
            continue;
        }
        let c = (if k % 2 == 0 { 1.0 } else { -1.0 }) * fact(2 * n - 2 * k)
            / (2f64.powi(n as i32) * fact(k) * fact(n - k) * fact(n - 2 * k));
        sum += c * fact(e) / fact(e - m) * x.powi((e - m) as i32);
    }
    let norm = ((if m == 0 { 1.0 } else { 2.0 }) * (2 * n + 1) as f64 * fact(n - m) / fact(n + m)).sqrt();
    norm * (1.0 - x * x).max(0.0).powf(m as f64 / 2.0) * sum
}

type Cs = Vec<(usize, usize, f64, f64)>;

fn potential(r: Vector3<f64>, cs: &Cs) -> f64 {
    let rn = r.norm();
    let sin_phi = r.z / rn;
    let lam = r.y.atan2(r.x);
    cs.iter()
        .map(|&(n, m, c, sv)| {
            MU / rn * (RE / rn).powi(n as i32) * pbar(n, m, sin_phi) * (c * (m as f64 * lam).cos() + sv * (m as f64 * lam).sin())
        })
        .sum()
}

fn shadr(cs: &Cs, name: &str) -> std::path::PathBuf {
    let p = scratch(name);
    let mut txt = String::from("6378.1366, 398600.44, 0.0, 90, 90, 1, 0.0, 0.0\n");
    let nmax = cs.iter().map(|c| c.0).max().unwrap();
    for n in 1..=nmax {
        for m in 0..=n {
            let (c, sv) = cs.iter().find(|x| x.0 == n && x.1 == m).map(|x| (x.2, x.3)).unwrap_or((0.0, 0.0));
            txt += &format!("{n:5}, {m:5}, {c:.16e}, {sv:.16e}, 0.0, 0.0\n");
        }
    }
    std::fs::write(&p, txt).unwrap();
    p
}

/// The value and its position partials against (a) an expected acceleration and (b) differences of the model's own value.
fn check_accel(
    t: &mut Tally,
    m: &dyn AccelModel,
    o: Orbit,
    want: Vector3<f64>,
    rel: f64,
    h: f64,
    floor: f64,
) -> Result<(), String> {
    let alm = almanac();
    let a = m.eom(&o, &alm).map_err(|e| format!("eom: {e}"))?;
    let (b, g) = m.gradient(&o, &alm).map_err(|e| format!("gradient: {e}"))?;
    t.steps(2);
    t.see_f(&[a.x * 1e9, a.y * 1e9, a.z * 1e9]);
    let tol = rel * want.norm() + floor;
    for i in 0..3 {
        t.close(&format!("acceleration[{i}]"), a[i], want[i], tol)?;
        t.close(&format!("gradient value[{i}]"), b[i], a[i], 1e-11 * a.norm() + floor)?;
    }
    let mut num = Matrix3::zeros();
    for j in 0..3 {
        let d = fd8(
            |r| {
                let a = m.eom(&at(o, r), &alm).unwrap();
                [a.x, a.y, a.z]
            },
            o.radius_km,
            j,
            h,
        );
        t.steps(8);
        for i in 0..3 {
            num[(i, j)] = d[i];
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            t.close(&format!("partial[{i},{j}]"), g[(i, j)], num[(i, j)], 2e-7 * num.norm() + floor / h)?;
        }
    }
    Ok(())
}

pub fn sc_of(o: Orbit) -> Spacecraft {
    crate::prop::sc_full(o)
}

/// The same state in another inertial frame of the same centre, by rotation only.
fn in_frame(o: Orbit, f: Frame) -> Orbit {
    let alm = almanac();
    let d = alm.rotate(o.frame, f, o.epoch).unwrap();
    let (r, v) = (d.rot_mat * o.radius_km, d.rot_mat * o.velocity_km_s);
    Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, o.epoch, f)
}

pub fn c06(tier: Tier) -> Space {
    let mut sp = Space::new(
        "acceleration models: every spherical-harmonic coefficient (degree, order, C or S) up to the bound, sums of them, truncations; every subset of third bodies; solid tides from every subset of perturbers; each over positions x epochs x integration frames, value against the gradient of the explicit potential, partials against differences",
    );
    let alm = almanac();
    let nmax = tier.pick(5, 12);
    let days: Vec<f64> = tier.pick(vec![0.0], vec![0.0, 0.61, 5.3]);
    let iau = alm.frame_info(IAU_EARTH_FRAME).unwrap();
    // Single coefficients.
    for n in 1..=nmax {
        for m in 0..=n {
            for cs in [0, 1] {
                if m == 0 && cs == 1 {
                    continue;
                }
                for (fname, f) in int_frames() {
                    for p in 0..POS.len() {
                        for &d in &days {
                            sp.push(format!("grav/{n}x{m}{}/{fname}/{}/d{d}", ["C", "S"][cs], POS[p].0), move |t| {
                                let alm = almanac();
                                let c: Cs = vec![(n, m, if cs == 0 { 1e-3 } else { 0.0 }, if cs == 1 { 1e-3 } else { 0.0 })];
                                let file = shadr(&c, &format!("g{n}-{m}-{cs}-{fname}-{p}-{d}.tab"));
                                let data = GravityFieldData::from_shadr(&file, n, n, false, iau).map_err(|e| e.to_string())?;
                                let _ = std::fs::remove_file(&file);
                                t.ensure(data.max_degree_n() == n, || "degree".into())?;
                                let g = GravityField::new(data);
                                let o = orbit(p, f, d);
                                let dcm = alm.rotate(f, iau, o.epoch).unwrap().rot_mat;
                                let rb = dcm * o.radius_km;
                                let mut ab = Vector3::zeros();
                                for j in 0..3 {
                                    ab[j] = fd8(|r| [potential(r, &c)], rb, j, 2e-3 * rb.norm())[0];
                                }
                                check_accel(t, &*g, o, dcm.transpose() * ab, 2e-9, 2e-3 * rb.norm(), 1e-12 * 1e-3 * MU / rb.norm_squared() * (RE / rb.norm()).powi(n as i32))
                            });
                        }
                    }
                }
            }
        }
    }
    // A full field, and every truncation of it: the truncated field is the sum of the coefficients kept.
    let full: Cs = (1..=6usize)
        .flat_map(|n| (0..=n).map(move |m| (n, m, 1e-4 * ((n * 7 + m * 3) as f64).cos(), if m == 0 { 0.0 } else { 1e-4 * ((n * 5 + m) as f64).sin() })))
        .collect();
    for deg in 1..=6usize {
        for ord in 0..=deg {
            for p in 0..tier.pick(2, POS.len()) {
                let full = full.clone();
                sp.push(format!("trunc/{deg}x{ord}/{}", POS[p].0), move |t| {
                    let alm = almanac();
                    let file = shadr(&full, &format!("t{deg}-{ord}-{p}.tab"));
                    let data = GravityFieldData::from_shadr(&file, deg, ord, false, iau).map_err(|e| e.to_string())?;
                    let _ = std::fs::remove_file(&file);
                    let kept: Cs = full.iter().copied().filter(|c| c.0 <= deg && c.1 <= ord).collect();
                    let g = GravityField::new(data);
                    let o = orbit(p, int_frames()[0].1, 0.2);
                    let dcm = alm.rotate(o.frame, iau, o.epoch).unwrap().rot_mat;
                    let rb = dcm * o.radius_km;
                    let mut ab = Vector3::zeros();
                    for j in 0..3 {
                        ab[j] = fd8(|r| [potential(r, &kept)], rb, j, 2e-3 * rb.norm())[0];
                    }
                    check_accel(t, &*g, o, dcm.transpose() * ab, 2e-9, 2e-3 * rb.norm(), 1e-12 * 1e-4 * MU / rb.norm_squared())
                });
            }
        }
    }
    // J2 shortcut.
    for p in 0..POS.len() {
        sp.push(format!("j2/{}", POS[p].0), move |t| {
            let alm = almanac();
            let c: Cs = vec![(2, 0, -4.84e-4, 0.0)];
            let g = GravityField::new(GravityFieldData::from_j2(-4.84e-4, iau));
            let o = orbit(p, int_frames()[0].1, 0.2);
            let dcm = alm.rotate(o.frame, iau, o.epoch).unwrap().rot_mat;
            let rb = dcm * o.radius_km;
            let mut ab = Vector3::zeros();
            for j in 0..3 {
                ab[j] = fd8(|r| [potential(r, &c)], rb, j, 2e-3 * rb.norm())[0];
            }
            check_accel(t, &*g, o, dcm.transpose() * ab, 2e-9, 2e-3 * rb.norm(), 1e-12 * 1e-4 * MU / rb.norm_squared())
        });
    }
    // Third bodies.
    for mask in 0..8u32 {
        for (fname, f) in int_frames() {
            for p in 0..POS.len() {
                for d in [0.0, 3.7, 11.2] {
                  for perm in permutations(mask.count_ones() as usize) {
                    let bodies: Vec<i32> = [10, 301, 399].iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, b)| *b).collect();
                    let bodies: Vec<i32> = perm.iter().map(|i| bodies[*i]).collect();
                    sp.push(format!("bodies/{bodies:?}/{fname}/{}/d{d}", POS[p].0), move |t| {
                        let alm = almanac();
                        let o = orbit(p, f, d);
                        let dcm = alm.rotate(f, EARTH_J2000, o.epoch).unwrap().rot_mat;
                        let r = dcm * o.radius_km;
                        let mut want = Vector3::zeros();
                        for b in &bodies {
                            let (mu, rb) = match b {
                                10 => (MU_SUN, sun_pos_vel(o.epoch).0),
                                301 => (MU_MOON, moon_pos_vel(o.epoch).0),
                                _ => continue, // the central body belongs to the orbital dynamics
                            };
                            want += mu * ((rb - r) / (rb - r).norm().powi(3) - rb / rb.norm().powi(3));
                        }
                        let want = dcm.transpose() * want;
                        let m = PointMasses::new(bodies.clone());
                        if bodies.iter().all(|b| *b == 399) {
                            let a = m.eom(&o, &alm).unwrap();
                            let (b, g) = m.gradient(&o, &alm).unwrap();
                            return t.ensure(a.norm() == 0.0 && b.norm() == 0.0 && g.norm() == 0.0, || "no third body must mean no pull".into());
                        }
                        // The Sun's pull is a small difference of large terms: absolute floor from the ephemeris rounding.
                        let a = m.eom(&o, &alm).map_err(|e| e.to_string())?;
                        for i in 0..3 {
                            t.close("third body", a[i], want[i], 1e-6 * want.norm() + 1e-16)?;
                        }
                        check_accel(t, &m, o, a, 1e-9, 50.0, 1e-24)
                    });
                  }
                }
            }
        }
    }
    // Solid tides: by the addition theorem, the tidal potential depends only on the angle between field point and perturber.
    for mask in 1..16usize {
        for (fname, f) in int_frames() {
            for p in 0..POS.len() {
                for &d in &days {
                    sp.push(format!("tides/{mask:04b}/{fname}/{}/d{d}", POS[p].0), move |t| {
                        let alm = almanac();
                        let o = orbit(p, f, d);
                        let (k2, k3) = (0.3019, 0.093);
                        let moon = alm.frame_info(MOON_J2000).unwrap();
                        let sun = alm.frame_info(SUN_J2000).unwrap();
                        let mut perturbers = vec![];
                        let mut list = vec![];
                        for (i, (fr, mu, rb, d3)) in [
                            (moon, MU_MOON, moon_pos_vel(o.epoch).0, true),
                            (sun, MU_SUN, sun_pos_vel(o.epoch).0, false),
                            (moon, MU_MOON, moon_pos_vel(o.epoch).0, false),
                            (sun, MU_SUN, sun_pos_vel(o.epoch).0, true),
                        ]
                        .into_iter()
                        .enumerate()
                        {
                            if mask >> i & 1 == 1 {
                                perturbers.push(TidalPerturber { frame: fr, compute_degree_3: d3 });
                                list.push((mu, rb, d3));
                            }
                        }
                        let m = SolidTides { frame: iau, k2, k3, perturbers };
                        let dcm = alm.rotate(f, EARTH_J2000, o.epoch).unwrap().rot_mat;
                        let r = dcm * o.radius_km;
                        let pot = |r: Vector3<f64>| {
                            let rn = r.norm();
                            let mut u = 0.0;
                            for (mu, rb, d3) in &list {
                                let c = r.dot(rb) / rn / rb.norm();
                                u += k2 * mu * RE.powi(5) / (rn * rb.norm()).powi(3) * (1.5 * c * c - 0.5);
                                if *d3 {
                                    u += k3 * mu * RE.powi(7) / (rn * rb.norm()).powi(4) * (2.5 * c.powi(3) - 1.5 * c);
                                }
                            }
                            u
                        };
                        let mut a = Vector3::zeros();
                        for j in 0..3 {
                            a[j] = fd8(|r| [pot(r)], r, j, 2e-3 * r.norm())[0];
                        }
                        check_accel(t, &m, o, dcm.transpose() * a, 1e-6, 2e-3 * r.norm(), 1e-24)
                    });
                }
            }
        }
    }
    sp.push("tides/default", move |t| {
        let alm = almanac();
        let m = SolidTides::earth_moon_system(IAU_EARTH_FRAME, MOON_J2000, &alm).map_err(|e| e.to_string())?;
        let mut deg3: Vec<(i32, bool)> = m.perturbers.iter().map(|p| (p.frame.ephemeris_id, p.compute_degree_3)).collect();
        deg3.sort();
        t.ensure(deg3 == vec![(10, false), (301, true)] && m.k2 == 0.3019 && m.k3 == 0.093, || format!("documented defaults, got {m:?}"))
    });
    // Orbital dynamics: the central term, plus the sum of the models, in any order.
    for perm in permutations(3) {
        for p in 0..POS.len() {
            let perm = perm.clone();
            sp.push(format!("sum/{perm:?}/{}", POS[p].0), move |t| {
                let alm = almanac();
                let o = orbit(p, int_frames()[0].1, 0.4);
                let models: Vec<Arc<dyn AccelModel + Sync>> = vec![
                    Arc::new(PointMasses::new(vec![10, 301])),
                    GravityField::new(GravityFieldData::from_j2(-4.84e-4, iau)),
                    Arc::new(SolidTides::earth_moon_system(iau, MOON_J2000, &alm).unwrap()),
                ];
                let mut want = -MU * o.radius_km / o.rmag_km().powi(3);
                for m in &models {
                    want += m.eom(&o, &alm).unwrap();
                }
                let dynam = OrbitalDynamics::new(perm.iter().map(|i| models[*i].clone()).collect());
                let sd = SpacecraftDynamics::new(dynam);
                let sc0 = sc_of(o);
                for stm in [false, true] {
                    let scs = if stm { sc0.with_stm() } else { sc0 };
                    let d = sd.eom(0.0, &scs.to_vector(), &scs, &alm).map_err(|e| e.to_string())?;
                    t.step();
                    for i in 0..3 {
                        t.close("velocity", d[i], o.velocity_km_s[i], 1e-15)?;
                        t.close("sum of accelerations", d[i + 3], want[i], 1e-12 * want.norm())?;
                    }
                    t.ensure(d[6] == 0.0 && d[7] == 0.0 && d[8] == 0.0, || "Cr, Cd and propellant mass must not change".into())?;
                }
                Ok(())
            });
        }
    }
    sp
}

/// Cylindrical-free geometric truth on whether a point is in full umbra, fully lit, or in between (None).
fn lit(r: Vector3<f64>, body: Vector3<f64>, rad: f64, sun: Vector3<f64>) -> Option<bool> {
    let to_sun = (sun - r).normalize();
    let to_body = body - r;
    let sep = to_sun.dot(&to_body.normalize()).clamp(-1.0, 1.0).acos();
    let a_sun = (695_700.0 / (sun - r).norm()).asin();
    let a_body = (rad / to_body.norm()).min(1.0).asin();
    if sep > a_sun + a_body + 1e-4 {
        Some(true)
    } else if sep < a_body - a_sun - 1e-4 {
        Some(false)
    } else {
        None
    }
}

pub fn c07(tier: Tier) -> Space {
    let mut sp = Space::new(
        "surface forces: positions (lit, umbra, penumbra, behind each body) x epochs x integration frames x areas, coefficients and masses, against the radiation-pressure and drag laws; partials against differences; composition in the spacecraft dynamics over every subset and order of the models",
    );
    let alm = almanac();
    let iau = alm.frame_info(IAU_EARTH_FRAME).unwrap();
    let days: Vec<f64> = tier.pick(vec![0.0, 4.3], vec![0.0, 0.61, 4.3, 11.7]);
    // SRP: shadow by none, Earth, Moon, both; positions around the Earth-Sun and Moon-Sun lines.
    let shadows: Vec<(&str, Vec<Frame>)> = vec![
        ("none", vec![]),
        ("earth", vec![EARTH_J2000]),
        ("moon", vec![MOON_J2000]),
        ("earth+moon", vec![EARTH_J2000, MOON_J2000]),
        ("moon+earth", vec![MOON_J2000, EARTH_J2000]),
    ];
    let spots = ["lit", "side", "umbra", "deep", "lunar-umbra", "lunar-lit", "penumbra"];
    for (sname, bodies) in &shadows {
        for spot in spots {
            for &d in &days {
                for (fname, f) in int_frames() {
                    for cfg in product(&[3, 2, 2]) {
                        let bodies = bodies.clone();
                        let sname = sname.to_string();
                        sp.push(format!("srp/{sname}/{spot}/d{d}/{fname}/{cfg:?}"), move |t| {
                            let alm = almanac();
                            let ep = t0() + s(d * 86400.0);
                            let sun = sun_pos_vel(ep).0;
                            let moon = moon_pos_vel(ep).0;
                            let us = sun.normalize();
                            let perp = us.cross(&Vector3::new(0.1, 0.3, 0.9)).normalize();
                            let um = (sun - moon).normalize();
                            let r = match spot {
                                "lit" => us * 9000.0 + perp * 500.0,
                                "side" => perp * 12_000.0 - us * 10.0,
                                "umbra" => -us * 8000.0 + perp * 1500.0,
                                "deep" => -us * 42_000.0 + perp * 3000.0,
                                "lunar-umbra" => moon - um * 3000.0 + perp * 300.0,
                                "lunar-lit" => moon + um * 3000.0 + perp * 300.0,
                                _ => -us * 40_000.0 + perp * 6378.0,
                            };
                            let o = in_frame(Orbit::new(r.x, r.y, r.z, 1.0, 2.0, 0.5, ep, int_frames()[0].1), f);
                            let mut scr = sc_of(o);
                            scr.srp.coeff_reflectivity = [1.8, 0.4, 0.0][cfg[0]];
                            scr.srp.area_m2 = [2.0, 31.0][cfg[1]];
                            let phi = [1367.0, 1000.0][cfg[2]];
                            let m = if cfg[2] == 0 {
                                SolarPressure::new(bodies.clone(), &alm).unwrap()
                            } else {
                                SolarPressure::with_flux(phi, bodies.clone(), &alm).unwrap()
                            };
                            let frc = m.eom(&scr, &alm).map_err(|e| e.to_string())?;
                            let (fv, g) = m.gradient(&scr, &alm).map_err(|e| e.to_string())?;
                            t.steps(2);
                            t.see_f(&[frc.x * 1e9, frc.y * 1e9]);
                            // Illumination.
                            let mut all_lit = true;
                            let mut dark = false;
                            for b in &bodies {
                                let (c, rad) = if b.ephemeris_id == 399 { (Vector3::zeros(), RE) } else { (moon, 1737.4) };
                                match lit(r, c, rad, sun) {
                                    Some(true) => (),
                                    Some(false) => {
                                        dark = true;
                                        all_lit = false;
                                    }
                                    None => all_lit = false,
                                }
                            }
                            let dist = (sun - r).norm();
                            let cr = scr.srp.coeff_reflectivity;
                            let full = scr.srp.area_m2 * phi / 299_792_458.0 * (AU / dist).powi(2) * 1e-3;
                            let dcm = alm.rotate(EARTH_J2000, f, ep).unwrap().rot_mat;
                            let away = dcm * ((r - sun) / dist);
                            let k = if cr == 0.0 { 0.5 } else { frc.dot(&away) / full / cr };
                            t.ensure(all_lit || dark || (k > 0.0 && k < 1.0), || format!("penumbra must dim the Sun, illumination {k}"))?;
                            let k_want = if dark { 0.0 } else if all_lit { 1.0 } else { k };
                            for i in 0..3 {
                                t.close("force", frc[i], cr * full * k_want * away[i], 1e-7 * full)?;
                                t.close("gradient value", fv[i], frc[i], 1e-12 * full)?;
                                // d(force)/d(Cr)
                                if cr != 0.0 || all_lit || dark {
                                    t.close("partial wrt Cr", g[(3, i)], full * k_want * away[i], 1e-7 * full)?;
                                } else {
                                    t.ensure(g[(3, i)].is_finite(), || "partial wrt Cr".into())?;
                                }
                            }
                            if all_lit || dark {
                                for j in 0..3 {
                                    let num = fd8(
                                        |rr| {
                                            let mut x = scr;
                                            x.orbit = at(o, rr);
                                            let a = m.eom(&x, &alm).unwrap();
                                            [a.x, a.y, a.z]
                                        },
                                        o.radius_km,
                                        j,
                                        if spot == "lunar-umbra" { 30.0 } else { 120.0 },
                                    );
                                    for i in 0..3 {
                                        t.close("partial", g[(i, j)], num[i], 1e-3 * full / dist)?;
                                    }
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // Drag.
    let atm: Vec<(&str, AtmDensity)> = vec![
        ("const", AtmDensity::Constant(2e-12)),
        ("exp", AtmDensity::Exponential { rho0: 3.614e-13, r0: 700_000.0, ref_alt_m: 88_667.0 }),
        ("std", AtmDensity::StdAtm { max_alt_m: 1_000_000.0 }),
        ("std500", AtmDensity::StdAtm { max_alt_m: 500_000.0 }),
    ];
    for (aname, a) in atm {
        for p in 0..4 {
            for alt in [250.0, 480.0, 760.0, 1300.0] {
                for (fname, f) in int_frames() {
                    for (dname, df) in [("iau", iau), ("eme", int_frames()[0].1)] {
                        for cfg in product(&[2, 2]) {
                            sp.push(format!("drag/{aname}/{}@{alt}/{fname}/{dname}/{cfg:?}", POS[p].0), move |t| {
                                let alm = almanac();
                                let o0 = orbit(p, int_frames()[0].1, 0.3);
                                let r = o0.radius_km.normalize() * (RE + alt);
                                let o0 = at(o0, r);
                                let o = in_frame(o0, f);
                                let mut scr = sc_of(o);
                                scr.drag.coeff_drag = [2.2, 0.9][cfg[0]];
                                scr.drag.area_m2 = [1.5, 20.0][cfg[1]];
                                let m = Drag { density: a, frame: df, estimate: false };
                                let frc = m.eom(&scr, &alm).map_err(|e| e.to_string())?;
                                t.step();
                                t.see_f(&[frc.x * 1e9, frc.y * 1e9]);
                                let rho = match a {
                                    AtmDensity::Constant(x) => x,
                                    AtmDensity::Exponential { rho0, r0, ref_alt_m } => rho0 * (-(alt * 1e3 - r0) / ref_alt_m).exp(),
                                    AtmDensity::StdAtm { max_alt_m } => {
                                        if alt * 1e3 > max_alt_m {
                                            10f64.powf(-7e-5 * alt - 14.464)
                                        } else {
                                            // Log-density fit of the 1976 standard atmosphere, evaluated by Horner's rule.
                                            let x = (alt - 526.8) / 292.8563;
                                            10f64.powf([0.34047, -0.5889, -0.5269, 1.0036, 0.60713, -2.3024, -12.575].iter().fold(0.0, |acc, c| acc * x + c))
                                        }
                                    }
                                };
                                // Atmosphere at rest in the drag frame.
                                let w = if dname == "iau" { 360.985_623_5f64.to_radians() / 86_400.0 } else { 0.0 };
                                let vrel = o0.velocity_km_s - Vector3::new(0.0, 0.0, w).cross(&r);
                                let dcm = alm.rotate(EARTH_J2000, f, o.epoch).unwrap().rot_mat;
                                let want = dcm * (-0.5 * rho * scr.drag.coeff_drag * scr.drag.area_m2 * 1e3 * vrel.norm() * vrel);
                                for i in 0..3 {
                                    t.close("drag force", frc[i], want[i], 1e-6 * want.norm())?;
                                }
                                if let AtmDensity::Constant(rho) = a {
                                    let c = ConstantDrag { rho, frame: df, estimate: false };
                                    let f2 = c.eom(&scr, &alm).map_err(|e| e.to_string())?;
                                    for i in 0..3 {
                                        t.close("constant drag", f2[i], want[i], 1e-6 * want.norm())?;
                                    }
                                }
                                t.ensure(m.gradient(&scr, &alm).is_err(), || "drag has no partials and must say so".into())
                            });
                        }
                    }
                }
            }
        }
    }
    // Composition: acceleration = sum of forces / total mass, whatever the subset and the order.
    for mask in 0..8usize {
        for perm in permutations((mask as u32).count_ones() as usize) {
            for mass in [(100.0, 0.0, 0.0), (300.0, 250.0, 45.0), (0.0, 10.0, 0.0), (0.0, 0.0, 25.0), (0.0, 0.0, 0.0)] {
                for stm in [false, true] {
                    let perm = perm.clone();
                    sp.push(format!("sum/{mask:03b}/{perm:?}/{mass:?}/{}", if stm { "stm" } else { "plain" }), move |t| {
                        let alm = almanac();
                        let all: Vec<Arc<dyn ForceModel>> = vec![
                            SolarPressure::default_flux(EARTH_J2000, &alm).unwrap(),
                            SolarPressure::default_no_estimation(vec![MOON_J2000], &alm).unwrap(),
                            Drag::earth_exp(&alm).unwrap(),
                        ];
                        let sub: Vec<Arc<dyn ForceModel>> = (0..3).filter(|i| mask >> i & 1 == 1).map(|i| all[i].clone()).collect();
                        let ordered: Vec<Arc<dyn ForceModel>> = perm.iter().map(|i| sub[*i].clone()).collect();
                        let mut o = orbit(2, int_frames()[0].1, 0.1);
                        o.radius_km = sun_pos_vel(o.epoch).0.normalize() * 7100.0;
                        let mut scr = sc_of(o);
                        scr.mass.dry_mass_kg = mass.0;
                        scr.mass.prop_mass_kg = mass.1;
                        scr.mass.extra_mass_kg = mass.2;
                        if stm {
                            scr = scr.with_stm();
                        }
                        let sd = SpacecraftDynamics::from_models(OrbitalDynamics::two_body(), ordered);
                        let got = sd.eom(0.0, &scr.to_vector(), &scr, &alm);
                        t.step();
                        if mass.0 + mass.1 + mass.2 == 0.0 && mask != 0 {
                            return t.ensure(got.is_err(), || "forces on a massless spacecraft must be an error".into());
                        }
                        if stm && mask >> 2 & 1 == 1 {
                            return t.ensure(got.is_err(), || "no partials for drag: must be an error".into());
                        }
                        let got = got.map_err(|e| e.to_string())?;
                        let mut want = -MU * o.radius_km / o.rmag_km().powi(3);
                        for m in &sub {
                            want += m.eom(&scr, &alm).unwrap() / (mass.0 + mass.1 + mass.2);
                        }
                        for i in 0..3 {
                            t.close("sum", got[i + 3], want[i], 1e-14)?;
                        }
                        if stm {
                            // dΦ/dt = A Φ with Φ = 1: the Cr column is the estimated model's partial, and only that one.
                            let n = 9;
                            let a = |i: usize, j: usize| got[n + j * n + i];
                            let dcr = if mask & 1 == 1 { all[0].eom(&scr, &alm).unwrap() / scr.srp.coeff_reflectivity / (mass.0 + mass.1 + mass.2) } else { Vector3::zeros() };
                            for i in 0..3 {
                                t.close("Cr column", a(i + 3, 6), dcr[i], 1e-18 + 1e-9 * dcr.norm())?;
                                for j in 0..3 {
                                    t.close("velocity rows", a(i, j + 3), if i == j { 1.0 } else { 0.0 }, 0.0)?;
                                    t.close("no velocity partials", a(i + 3, j + 3), 0.0, 1e-18)?;
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // Which coefficient each model estimates: Cr for SRP (unless told not to), Cd for drag (only if told to).
    for ctor in ["default_flux", "new", "with_flux", "raw", "no_estimation", "drag-exp", "drag-76", "drag-est", "const-drag", "const-drag-est"] {
        sp.push(format!("estimated/{ctor}"), move |t| {
            let alm = almanac();
            let iau = alm.frame_info(IAU_EARTH_FRAME).unwrap();
            let m: Arc<dyn ForceModel> = match ctor {
                "default_flux" => SolarPressure::default_flux(EARTH_J2000, &alm).unwrap(),
                "new" => SolarPressure::new(vec![EARTH_J2000], &alm).unwrap(),
                "with_flux" => SolarPressure::with_flux(1200.0, vec![EARTH_J2000], &alm).unwrap(),
                "raw" => Arc::new(SolarPressure::default_flux_raw(vec![EARTH_J2000], &alm).unwrap()),
                "no_estimation" => SolarPressure::default_no_estimation(vec![EARTH_J2000], &alm).unwrap(),
                "drag-exp" => Drag::earth_exp(&alm).unwrap(),
                "drag-76" => Drag::std_atm1976(&alm).unwrap(),
                "drag-est" => {
                    let mut d = *Drag::earth_exp(&alm).unwrap();
                    d.estimate = true;
                    Arc::new(d)
                }
                _ => Arc::new(ConstantDrag { rho: 1e-12, frame: iau, estimate: ctor.ends_with("est") }),
            };
            t.step();
            let want = if ctor.starts_with("drag") || ctor.starts_with("const") {
                ctor.ends_with("est").then_some(7usize)
            } else {
                (ctor != "no_estimation").then_some(6)
            };
            t.ensure(m.estimation_index() == want, || format!("estimated coefficient {:?}, not {want:?}", m.estimation_index()))?;
            if want == Some(6) || ctor == "no_estimation" {
                // and the column of the gradient of the spacecraft dynamics follows
                let mut o = orbit(2, int_frames()[0].1, 0.1);
                o.radius_km = sun_pos_vel(o.epoch).0.normalize() * 7100.0;
                let scr = sc_of(o).with_stm();
                let sd = SpacecraftDynamics::from_model(OrbitalDynamics::two_body(), m.clone());
                let got = sd.eom(0.0, &scr.to_vector(), &scr, &alm).map_err(|e| e.to_string())?;
                let frc = m.eom(&scr, &alm).unwrap() / scr.srp.coeff_reflectivity / scr.mass_kg();
                for i in 0..3 {
                    let w = if want.is_some() { frc[i] } else { 0.0 };
                    t.close("Cr column", got[9 + 6 * 9 + i + 3], w, 1e-9 * frc.norm())?;
                }
            }
            Ok(())
        });
    }
    // Eclipse model: the most occulting body wins, whatever the order of the bodies; the light source is the one configured.
    for spot in 0..6 {
        for &d in &days {
            sp.push(format!("shadow/{spot}/d{d}"), move |t| {
                let alm = almanac();
                let ep = t0() + s(d * 86400.0);
                let sun = sun_pos_vel(ep).0;
                let moon = moon_pos_vel(ep).0;
                let (us, um) = (sun.normalize(), (sun - moon).normalize());
                let perp = us.cross(&Vector3::new(0.1, 0.3, 0.9)).normalize();
                let r = match spot {
                    0 => us * 8000.0 + perp * 20.0,
                    1 => -us * 8000.0 + perp * 20.0,
                    2 => -us * 40_000.0 + perp * 6378.0,
                    3 => moon - um * 2500.0 + perp * 20.0,
                    4 => moon + um * 2500.0 + perp * 20.0,
                    _ => perp * 8000.0 + us * 7.0,
                };
                let o = Orbit::new(r.x, r.y, r.z, 1.0, 2.0, 0.5, ep, int_frames()[0].1);
                let e = alm.frame_info(EARTH_J2000).unwrap();
                let m = alm.frame_info(MOON_J2000).unwrap();
                let su = alm.frame_info(SUN_J2000).unwrap();
                let one = |b: Vec<Frame>, ls: Frame| ShadowModel { light_source: ls, shadow_bodies: b }.compute(o, &alm).map(|x| x.percentage).map_err(|e| e.to_string());
                let (pe, pm) = (one(vec![e], su)?, one(vec![m], su)?);
                t.steps(5);
                t.see_f(&[pe, pm]);
                t.close("both", one(vec![e, m], su)?, pe.max(pm), 0.0)?;
                t.close("both, other order", one(vec![m, e], su)?, pe.max(pm), 0.0)?;
                t.close("none", one(vec![], su)?, 0.0, 0.0)?;
                let cis = ShadowModel::cislunar(&alm).compute(o, &alm).map_err(|e| e.to_string())?;
                t.close("cislunar", cis.percentage, pe.max(pm), 0.0)?;
                match lit(r, Vector3::zeros(), RE, sun) {
                    Some(l) => t.close("Earth's shadow", pe, if l { 0.0 } else { 100.0 }, 1e-9)?,
                    None => t.ensure(pe > 0.0 && pe < 100.0, || format!("penumbra, got {pe}"))?,
                }
                match lit(r, moon, 1737.4, sun) {
                    Some(l) => t.close("Moon's shadow", pm, if l { 0.0 } else { 100.0 }, 1e-9)?,
                    None => t.ensure(pm > 0.0 && pm < 100.0, || format!("penumbra, got {pm}"))?,
                }
                // The events of the same shadow: positive while it holds.
                let model = ShadowModel { light_source: su, shadow_bodies: vec![m, e] };
                let (umb, pen) = (model.to_umbra_events(), model.to_penumbra_events());
                t.ensure(umb.len() == 2 && pen.len() == 2, || format!("{} and {} events", umb.len(), pen.len()))?;
                for (k, p) in [pm, pe].into_iter().enumerate() {
                    let u = umb[k].eval(o, &alm).map_err(|e| e.to_string())?;
                    let v = pen[k].eval(o, &alm).map_err(|e| e.to_string())?;
                    t.steps(2);
                    if (p - 99.0).abs() > 0.01 && (p - 1.0).abs() > 0.01 {
                        t.ensure((u > 0.0) == (p > 99.0) && (v > 0.0) == (p > 1.0), || format!("occulted at {p}%, umbra {u}, penumbra {v}"))?;
                    }
                }
                // Moonlight, shadowed by the Earth.
                let sep = (moon - r).normalize().dot(&(-r).normalize()).acos();
                let (am, ae) = ((1737.4 / (moon - r).norm()).asin(), (RE / r.norm()).asin());
                if spot < 3 || spot == 5 {
                    let want = if sep > am + ae + 1e-4 { 0.0 } else if sep < ae - am - 1e-4 { 100.0 } else { return Ok(()) };
                    t.close("moonlight", one(vec![e], m)?, want, 1e-9)?;
                }
                Ok(())
            });
        }
    }
    sp
}

/// Formats one coefficient the way COF files do: %21.14e in a fixed column, so that a negative S runs into C.
fn cof_num(x: f64) -> String {
    let m = format!("{x:.14e}");
    let (mant, exp) = m.split_once('e').unwrap();
    let e: i32 = exp.parse().unwrap();
    format!("{mant}e{}{:02}", if e < 0 { '-' } else { '+' }, e.abs())
}

pub fn c08(tier: Tier) -> Space {
    let mut sp = Space::new(
        "gravity field files: format (COF, SHADR with commas, spaces or D exponents) x compression x loader (direct, configuration) x requested degree x requested order x every sign pattern of the coefficients of a row, and damaged files",
    );
    let nfile = 4usize;
    for fmt in ["cof", "comma", "space", "dexp"] {
        for gz in [false, true] {
            for loader in ["direct", "config"] {
                for deg in 2..=tier.pick(5usize, 7) {
                    for ord in 0..=deg {
                        for pat in 0..9usize {
                            sp.push(format!("load/{fmt}/{}/{loader}/{deg}x{ord}/p{pat}", if gz { "gz" } else { "raw" }), move |t| {
                                let alm = almanac();
                                let iau = alm.frame_info(IAU_EARTH_FRAME).unwrap();
                                // Row (n, m) takes sign pattern pat + n + m of {+,-,0} x {+,-,0}.
                                let cs = |n: usize, m: usize| -> (f64, f64) {
                                    let k = (pat + 2 * n + m) % 9;
                                    let sg = |i: usize| [1.0, -1.0, 0.0][i];
                                    let mut c = sg(k % 3) * (1.0 + n as f64 + 0.1 * m as f64) * 10f64.powi(-3 - n as i32);
                                    let sv = if m == 0 { 0.0 } else { sg(k / 3) * (2.0 + m as f64 + 0.01 * n as f64) * 10f64.powi(-4 - m as i32) };
                                    if fmt == "cof" && c == 0.0 && sv < 0.0 {
                                        c = 3e-7; // the run-together form needs a negative exponent
                                    }
                                    (c, sv)
                                };
                                let mut txt = String::new();
                                if fmt == "cof" {
                                    txt += "COMMENT   1\nCCC a comment CCC\nPOTFIELD  4  4  1 3.98600441500000e+14 6.37813630000000e+06 1.00000000000000e+00\n";
                                } else {
                                    txt += "  6.378137e3, 3.986e5, 0.0, 4, 4, 1, 0.0, 0.0\n";
                                }
                                for n in 2..=nfile {
                                    for m in 0..=n {
                                        let (c, sv) = cs(n, m);
                                        txt += &match fmt {
                                            "cof" if m == 0 => format!("RECOEF  {n:3}{m:3}{:>23}\n", cof_num(c)),
                                            "cof" => format!("RECOEF  {n:3}{m:3}{:>23}{:>21}\n", cof_num(c), cof_num(sv)),
                                            "comma" => format!("{n:5},{m:5},{c:.15e},{sv:.15e},1.0e-12,1.0e-12\n"),
                                            "space" => format!("{n:5} {m:5} {c:.15e} {sv:.15e} 1.0e-12 1.0e-12\n"),
                                            _ => format!("{n:5} {m:5} {c:.15E} {sv:.15E} 1.0D-12 1.0D-12\n").replace('E', "D"),
                                        };
                                    }
                                }
                                if fmt == "cof" {
                                    txt += "END\n";
                                }
                                let ext = if fmt == "cof" { "cof" } else { "tab" };
                                let path = scratch(&format!("f-{fmt}-{gz}-{loader}-{deg}-{ord}-{pat}.{ext}{}", if gz { ".gz" } else { "" }));
                                if gz {
                                    use std::io::Write;
                                    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
                                    e.write_all(txt.as_bytes()).unwrap();
                                    std::fs::write(&path, e.finish().unwrap()).unwrap();
                                } else {
                                    std::fs::write(&path, &txt).unwrap();
                                }
                                let r = match (loader, fmt) {
                                    ("config", _) => GravityFieldData::from_config(
                                        nyx_space::io::gravity::GravityFieldConfig {
                                            degree: deg,
                                            order: ord,
                                            filepath: path.clone(),
                                            gunzipped: gz,
                                            frame: IAU_EARTH_FRAME.into(),
                                        },
                                        &alm,
                                    ),
                                    (_, "cof") => GravityFieldData::from_cof(&path, deg, ord, gz, iau),
                                    _ => GravityFieldData::from_shadr(&path, deg, ord, gz, iau),
                                };
                                let _ = std::fs::remove_file(&path);
                                t.step();
                                let g = r.map_err(|e| format!("a valid file must load: {e}"))?;
                                t.ensure(g.frame.ephemeris_id == 399 && g.frame.mu_km3_s2().is_ok(), || "frame".into())?;
                                t.ensure(g.max_degree_n() == deg.min(nfile), || format!("degree {} of requested {deg}, file {nfile}", g.max_degree_n()))?;
                                for n in 0..=deg.min(nfile) {
                                    for m in 0..=n {
                                        let want = if n < 2 || m > ord { (0.0, 0.0) } else { cs(n, m) };
                                        let got = g.cs_nm(n, m);
                                        t.see_f(&[got.0 * 1e6, got.1 * 1e6]);
                                        t.close(&format!("C{n}{m}"), got.0, want.0, 1e-13 * want.0.abs())?;
                                        t.close(&format!("S{n}{m}"), got.1, want.1, 1e-13 * want.1.abs())?;
                                    }
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    }
    // Damaged files are errors, never silently wrong.
    for (name, body) in [
        ("bad-degree", "RECOEF    x  0   -4.84165374886470e-04\n"),
        ("bad-order", "RECOEF    2  y   -4.84165374886470e-04\n"),
        ("bad-c", "RECOEF    2  0   -4.841653748q6470e-04\n"),
        ("bad-s", "RECOEF    2  1    2.43926074865630e-06-1.4002663975x800e-06\n"),
        ("bad-s2", "RECOEF    2  1    2.43926074865630e-06 1.4002663975x800e-06\n"),
        ("bad-c2", "RECOEF    2  1   -2.439260748z5630e-06-1.40026639751800e-06\n"),
    ] {
        sp.push(format!("damaged/{name}"), move |t| {
            let p = scratch(&format!("bad-{name}.cof"));
            std::fs::write(&p, body).unwrap();
            t.step();
            t.ensure(GravityFieldData::from_cof(&p, 2, 2, false, IAU_EARTH_FRAME).is_err(), || "must be an error".into())?;
            let s2: String = format!("header\n{}", body.trim_start_matches("RECOEF").replace("-1.4", " -1.4"));
            std::fs::write(&p, s2).unwrap();
            t.ensure(GravityFieldData::from_shadr(&p, 2, 2, false, IAU_EARTH_FRAME).is_err(), || "must be an error (SHADR)".into())?;
            t.ensure(GravityFieldData::from_shadr(&p, 2, 2, true, IAU_EARTH_FRAME).is_err(), || "not compressed: must be an error".into())?;
            t.ensure(GravityFieldData::from_cof(&p, 2, 2, true, IAU_EARTH_FRAME).is_err(), || "not compressed: must be an error".into())?;
            let _ = std::fs::remove_file(&p);
            t.ensure(GravityFieldData::from_cof(&p, 2, 2, false, IAU_EARTH_FRAME).is_err(), || "missing file".into())
        });
    }
    // The shipped field, read independently.
    sp.push("shipped/JGM3", move |t| {
        use std::io::Read;
        let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/data/01_planetary/JGM3.cof.gz");
        let mut txt = String::new();
        flate2::read::GzDecoder::new(std::fs::File::open(path).map_err(|e| e.to_string())?).read_to_string(&mut txt).map_err(|e| e.to_string())?;
        let g = GravityFieldData::from_cof(path, 70, 70, true, IAU_EARTH_FRAME).map_err(|e| e.to_string())?;
        for l in txt.lines().filter(|l| l.starts_with("RECOEF")) {
            // Fixed columns.
            let n: usize = l[8..11].trim().parse().unwrap();
            let m: usize = l[11..14].trim().parse().unwrap();
            let c: f64 = l[14..38].trim().parse().unwrap();
            let sv: f64 = l.get(38..59).map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).unwrap_or(0.0);
            let got = g.cs_nm(n, m);
            t.step();
            t.close("C", got.0, c, 0.0)?;
            t.close("S", got.1, sv, 0.0)?;
        }
        t.ensure(g.max_degree_n() == 70 && g.max_order_m() == 70, || "70x70".into())
    });
    sp
}
