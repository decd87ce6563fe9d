//! The closed world every check runs in: a synthetic Almanac (no kernels needed), and reference numerics that share no code
//! with nyx: universal-variable Kepler propagation and a Gragg-Bulirsch-Stoer extrapolation integrator.
use anise::almanac::Almanac;
use anise::constants::frames::*;
use anise::ephemerides::ephemeris::Ephemeris;
use anise::prelude::{Frame, Orbit};
use anise::structure::PlanetaryDataSet;
use anise::structure::planetocentric::PlanetaryData;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use anise::structure::planetocentric::phaseangle::PhaseAngle;
use hifitime::{Duration, Epoch, Unit};
use nalgebra::Vector3;
use nyx_space::Spacecraft;
use std::sync::{Arc, OnceLock};

pub const MU: f64 = 398_600.435_436;
pub const MU_SUN: f64 = 132_712_440_041.279_4;
pub const MU_MOON: f64 = 4_902.800_118;
pub const RE: f64 = 6_378.136_6;
pub const RP: f64 = 6_356.751_9;

thread_local! {
    static TT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Runs the closure with its epochs in TT instead of UTC: the same instants, which must lead to the same behaviour.
pub fn in_tt<T>(f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            TT.with(|x| x.set(false));
        }
    }
    let _back = Back;
    TT.with(|x| x.set(true));
    f()
}
pub fn t0() -> Epoch {
    let e = Epoch::from_gregorian_utc_hms(2024, 3, 1, 6, 30, 0);
    if TT.with(|x| x.get()) { e.to_time_scale(hifitime::TimeScale::TT) } else { e }
}
pub fn s(x: f64) -> Duration {
    x * Unit::Second
}
/// Exact duration in nanoseconds (no float rounding).
pub fn ns(x: i64) -> Duration {
    Duration::from_truncated_nanoseconds(x)
}
/// Two-body Earth frame, with its gravitational parameter.
pub fn earth() -> Frame {
    EARTH_J2000.with_mu_km3_s2(MU)
}

fn pd(id: i32, mu: f64, re: f64, rp: f64, ra: f64, dec: f64, w: (f64, f64)) -> PlanetaryData {
    PlanetaryData {
        object_id: id,
        parent_id: 1,
        mu_km3_s2: mu,
        shape: Some(Ellipsoid::from_spheroid(re, rp)),
        pole_right_ascension: PhaseAngle::maybe_new(&[ra, 0.0, 0.0]),
        pole_declination: PhaseAngle::maybe_new(&[dec, 0.0, 0.0]),
        prime_meridian: PhaseAngle::maybe_new(&[w.0, w.1, 0.0]),
        ..Default::default()
    }
}

pub const MOON_DIST: f64 = 384_400.0;
pub const AU: f64 = 149_597_870.7;

/// Analytic synthetic Sun position as seen from Earth (circular, inclined).
pub fn sun_pos_vel(t: Epoch) -> (Vector3<f64>, Vector3<f64>) {
    let n = (MU_SUN / AU.powi(3)).sqrt();
    let th = n * (t - t0()).to_seconds() + 0.4;
    let (ci, si) = (0.4f64.cos(), 0.4f64.sin());
    let r = Vector3::new(AU * th.cos(), AU * th.sin() * ci, AU * th.sin() * si);
    let v = Vector3::new(-AU * n * th.sin(), AU * n * th.cos() * ci, AU * n * th.cos() * si);
    (r, v)
}
/// Earth as seen from the Solar System barycenter (the synthetic Sun sits there).
pub fn earth_ssb(t: Epoch) -> (Vector3<f64>, Vector3<f64>) {
    let (r, v) = sun_pos_vel(t);
    (-r, -v)
}
pub fn moon_pos_vel(t: Epoch) -> (Vector3<f64>, Vector3<f64>) {
    let n = (MU / MOON_DIST.powi(3)).sqrt();
    let th = n * (t - t0()).to_seconds() + 1.9;
    let (ci, si) = (0.3f64.cos(), 0.3f64.sin());
    let d = MOON_DIST;
    let r = Vector3::new(d * th.cos(), d * th.sin() * ci, d * th.sin() * si);
    let v = Vector3::new(-d * n * th.sin(), d * n * th.cos() * ci, d * n * th.cos() * si);
    (r, v)
}

/// The synthetic Almanac: Earth, Moon, Sun constants; rotating IAU Earth and Moon; circular Sun and Moon ephemerides spanning
/// t0 - 20 d to t0 + 60 d.
pub fn almanac() -> Arc<Almanac> {
    static A: OnceLock<Arc<Almanac>> = OnceLock::new();
    A.get_or_init(|| {
        let mut ds = PlanetaryDataSet::default();
        for (p, name) in [
            (pd(399, MU, RE, RP, 0.0, 90.0, (190.147, 360.985_623_5)), "Earth"),
            (pd(301, MU_MOON, 1737.4, 1737.4, 269.9949, 66.5392, (38.3213, 13.176_358)), "Moon"),
            (pd(10, MU_SUN, 695_700.0, 695_700.0, 286.13, 63.87, (84.176, 14.1844)), "Sun"),
            // A constant inertial orientation other than J2000, under the ecliptic's identifier.
            (pd(17, MU, RE, RP, -90.0, 66.560_708_7, (90.0, 0.0)), "EclipJ2000"),
        ] {
            ds.push(p, Some(p.object_id), Some(name)).unwrap();
        }
        let mut alm = Almanac::default().with_planetary_data(ds);
        for (name, id, f) in [
            ("sun", 10, sun_pos_vel as fn(Epoch) -> (Vector3<f64>, Vector3<f64>)),
            ("moon", 301, moon_pos_vel),
            ("earth", 399, earth_ssb),
        ] {
            let mut e = Ephemeris::new(name.to_string());
            let start = t0() - Unit::Day * 20;
            for k in 0..(80 * 8) {
                let t = start + Unit::Hour * (3 * k);
                let (r, v) = f(t);
                e.insert_orbit(Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, t, if id == 399 { SSB_J2000 } else { EARTH_J2000 }));
            }
            alm = alm.with_spk(e.to_spice_bsp(id, None).unwrap());
        }
        Arc::new(alm)
    })
    .clone()
}

pub fn orbit_kep(sma: f64, ecc: f64, inc: f64, raan: f64, aop: f64, ta: f64) -> Orbit {
    Orbit::keplerian(sma, ecc, inc, raan, aop, ta, t0(), earth())
}
pub fn sc(orbit: Orbit) -> Spacecraft {
    Spacecraft::builder().orbit(orbit).build()
}

/// A small zoo of orbits: (name, sma, ecc, inc, raan, aop, ta).
pub const ORBITS: &[(&str, f64, f64, f64, f64, f64, f64)] = &[
    ("leo", 6978.0, 0.0012, 51.6, 30.0, 80.0, 15.0),
    ("meo-ecc", 16000.0, 0.45, 28.5, 200.0, 270.0, 300.0),
    ("geo", 42164.0, 0.0002, 0.05, 10.0, 20.0, 200.0),
    ("polar-retro", 8200.0, 0.08, 98.7, 310.0, 140.0, 95.0),
    ("gto-peri", 24400.0, 0.72, 7.0, 120.0, 178.0, 2.0),
];
pub fn zoo(i: usize) -> Orbit {
    let o = ORBITS[i];
    orbit_kep(o.1, o.2, o.3, o.4, o.5, o.6)
}
/// A hyperbolic departure.
pub fn hyperbola() -> Orbit {
    let rp: f64 = 7000.0;
    let v = (2.0 * MU / rp + 9.0).sqrt();
    let (ci, si) = (0.6f64.cos(), 0.6f64.sin());
    Orbit::new(rp, 0.0, 0.0, 0.0, v * ci, v * si, t0(), earth())
}

// ---- reference two-body ---------------------------------------------------------------------------------------------

fn stumpff(z: f64) -> (f64, f64) {
    if z.abs() < 1e-2 {
        // Series
        let mut c = 0.0;
        let mut ss = 0.0;
        let mut tc = 0.5;
        let mut ts = 1.0 / 6.0;
        for k in 0..12 {
            c += tc;
            ss += ts;
            let k = k as f64;
            tc *= -z / ((2.0 * k + 3.0) * (2.0 * k + 4.0));
            ts *= -z / ((2.0 * k + 4.0) * (2.0 * k + 5.0));
        }
        (c, ss)
    } else if z > 0.0 {
        let q = z.sqrt();
        ((1.0 - q.cos()) / z, (q - q.sin()) / (q * z))
    } else {
        let q = (-z).sqrt();
        ((1.0 - q.cosh()) / z, (q.sinh() - q) / (q * -z))
    }
}

/// Universal-variable Kepler propagation.
pub fn kepler(mu: f64, r0: Vector3<f64>, v0: Vector3<f64>, dt: f64) -> (Vector3<f64>, Vector3<f64>) {
    let r0n = r0.norm();
    let alpha = 2.0 / r0n - v0.norm_squared() / mu;
    // Bring the time within one period for elliptic orbits.
    let dt = if alpha > 0.0 {
        let period = std::f64::consts::TAU / (mu * alpha.powi(3)).sqrt();
        dt - period * (dt / period).trunc()
    } else {
        dt
    };
    let sig0 = r0.dot(&v0) / mu.sqrt();
    let eq = |x: f64| -> (f64, f64) {
        let z = alpha * x * x;
        let (c, ss) = stumpff(z);
        let f = sig0 * x * x * c + (1.0 - alpha * r0n) * x * x * x * ss + r0n * x - mu.sqrt() * dt;
        let r = sig0 * x * (1.0 - z * ss) + (1.0 - alpha * r0n) * x * x * c + r0n;
        (f, r)
    };
    // Bracket, then safeguarded Newton (f is increasing: f' = r > 0).
    let (mut lo, mut hi) = (-1.0f64, 1.0f64);
    while eq(lo).0 > 0.0 {
        lo *= 2.0;
    }
    while eq(hi).0 < 0.0 {
        hi *= 2.0;
    }
    let mut x = 0.5 * (lo + hi);
    for _ in 0..200 {
        let (f, d) = eq(x);
        if f > 0.0 { hi = x } else { lo = x }
        let mut n = x - f / d;
        if !(n > lo && n < hi) {
            n = 0.5 * (lo + hi);
        }
        if (n - x).abs() <= 1e-15 * x.abs().max(1e-3) {
            x = n;
            break;
        }
        x = n;
    }
    let z = alpha * x * x;
    let (c, ss) = stumpff(z);
    let f = 1.0 - x * x / r0n * c;
    let g = dt - x * x * x / mu.sqrt() * ss;
    let r = r0 * f + v0 * g;
    let rn = r.norm();
    let fd = mu.sqrt() / (rn * r0n) * x * (z * ss - 1.0);
    let gd = 1.0 - x * x / rn * c;
    (r, r0 * fd + v0 * gd)
}

/// Gragg-Bulirsch-Stoer: integrates y' = f(t, y) from t0 to t1 in `n` macro steps, extrapolated to order 16.
pub fn gbs<F: Fn(f64, &[f64]) -> Vec<f64>>(f: F, y0: &[f64], ta: f64, tb: f64, n: usize) -> Vec<f64> {
    const SEQ: [usize; 8] = [2, 4, 6, 8, 10, 12, 14, 16];
    let hh = (tb - ta) / n as f64;
    let mut y = y0.to_vec();
    for m in 0..n {
        let t = ta + m as f64 * hh;
        let mut table: Vec<Vec<f64>> = vec![];
        for (k, &sub) in SEQ.iter().enumerate() {
            let h = hh / sub as f64;
            let f0 = f(t, &y);
            let mut z0 = y.clone();
            let mut z1: Vec<f64> = y.iter().zip(&f0).map(|(a, b)| a + h * b).collect();
            for i in 1..sub {
                let fi = f(t + i as f64 * h, &z1);
                let z2: Vec<f64> = z0.iter().zip(&fi).map(|(a, b)| a + 2.0 * h * b).collect();
                z0 = z1;
                z1 = z2;
            }
            let fe = f(t + hh, &z1);
            let base: Vec<f64> = (0..y.len()).map(|i| 0.5 * (z0[i] + z1[i] + h * fe[i])).collect();
            let mut row = vec![base];
            for j in 1..=k {
                let ratio = (SEQ[k] as f64 / SEQ[k - j] as f64).powi(2) - 1.0;
                let prev = &row[j - 1];
                let old = &table_row(&table, k - 1, j - 1);
                let nv: Vec<f64> = prev.iter().zip(old.iter()).map(|(a, b)| a + (a - b) / ratio).collect();
                row.push(nv);
            }
            table.push(row.concat());
        }
        let last = table.last().unwrap();
        y = last[last.len() - y.len()..].to_vec();
        fn table_row(t: &[Vec<f64>], k: usize, j: usize) -> Vec<f64> {
            let dim = t[k].len() / (k + 1);
            t[k][j * dim..(j + 1) * dim].to_vec()
        }
    }
    y
}

pub fn v3(a: &[f64]) -> Vector3<f64> {
    Vector3::new(a[0], a[1], a[2])
}

// ---- scratch files --------------------------------------------------------------------------------------------------

pub fn scratch_root() -> std::path::PathBuf {
    std::path::PathBuf::from(format!("{}/target/scratch-{}", std::env::var("NYXMC_ROOT").unwrap_or_else(|_| "/verif".into()), std::process::id()))
}
/// A path in this process's scratch directory (removed when the check ends).
pub fn scratch(name: &str) -> std::path::PathBuf {
    let d = scratch_root().join(if TT.with(|x| x.get()) { "tt" } else { "utc" });
    std::fs::create_dir_all(&d).unwrap();
    d.join(name)
}

/// A fresh directory in the scratch directory.
pub fn scratch_dir(name: &str) -> std::path::PathBuf {
    let d = scratch(name);
    std::fs::create_dir_all(&d).unwrap();
    d
}

// ---- finite differences ---------------------------------------------------------------------------------------------

/// Eighth-order central difference of a vector function of position along axis j.
pub fn fd8<const N: usize>(f: impl Fn(Vector3<f64>) -> [f64; N], r: Vector3<f64>, j: usize, h: f64) -> [f64; N] {
    const W: [f64; 4] = [4.0 / 5.0, -1.0 / 5.0, 4.0 / 105.0, -1.0 / 280.0];
    let mut out = [0.0; N];
    for (k, w) in W.iter().enumerate() {
        let mut d = Vector3::zeros();
        d[j] = h * (k as f64 + 1.0);
        let (a, b) = (f(r + d), f(r - d));
        for i in 0..N {
            out[i] += w * (a[i] - b[i]) / h;
        }
    }
    out
}
