//! C23: configurations survive their encodings (ASN.1 DER, YAML, Dhall).
use crate::core::*;
use crate::world::*;
use anise::astro::Location;
use anise::constants::frames::{EARTH_ITRF93, EARTH_J2000, IAU_EARTH_FRAME, IAU_MOON_FRAME, MOON_J2000};
use anise::structure::spacecraft::{DragData, Mass, SRPData};
use anise::astro::TerrainMask;
use der::{Decode, Encode};
use hifitime::{Duration, Epoch, TimeScale};
use indexmap::{IndexMap, IndexSet};
use nyx_space::Spacecraft;
use nyx_space::cosmic::{GuidanceMode, ThrustDirection};
use nyx_space::dynamics::guidance::Thruster;
use nyx_space::io::ConfigRepr;
use nyx_space::od::GroundStation;
use nyx_space::od::msr::MeasurementType as M;
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, WhiteNoise};
use nyx_space::od::position::PositionDevice;
use nyx_space::od::process::SigmaRejection;
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrkConfig};
use serde::Serialize;
use serde::de::DeserializeOwned;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::str::FromStr;

fn same<T: Debug + PartialEq>(t: &mut Tally, how: &str, got: &T, want: &T) -> Result<(), String> {
    t.step();
    t.ensure(got == want, || format!("{how}: not equal: {got:?} instead of {want:?}"))?;
    t.ensure(format!("{got:?}") == format!("{want:?}"), || format!("{how}: {got:?} instead of {want:?}"))
}

/// Encodes, decodes, and cuts: a strict prefix or anything appended is never accepted (nor a panic).
fn der_ok<T: Encode + for<'a> Decode<'a> + Debug + PartialEq>(t: &mut Tally, x: &T) -> Result<(), String> {
    let mut b = Vec::new();
    x.encode_to_vec(&mut b).map_err(|e| format!("DER encoding of {x:?}: {e}"))?;
    let n: usize = x.encoded_len().map_err(|e| e.to_string())?.try_into().map_err(|e: der::Error| e.to_string())?;
    t.ensure(n == b.len(), || format!("announced DER length {n} instead of {} for {x:?}", b.len()))?;
    let y = T::from_der(&b).map_err(|e| format!("DER decoding of {x:?}: {e}"))?;
    same(t, "DER", &y, x)?;
    t.see(&b);
    for k in 0..b.len() {
        t.step();
        t.ensure(T::from_der(&b[..k]).is_err(), || format!("the first {k} of {} bytes of {x:?} were accepted", b.len()))?;
    }
    for extra in [0u8, 1, 5, 0xff] {
        let mut c = b.clone();
        c.push(extra);
        t.ensure(T::from_der(&c).is_err(), || format!("trailing byte accepted after {x:?}"))?;
    }
    Ok(())
}
/// Any single corrupted byte is an error or another value, never a panic (types without reals: the der crate itself panics on invalid reals).
fn der_corrupt<T: Encode + for<'a> Decode<'a> + Debug>(t: &mut Tally, x: &T) -> Result<(), String> {
    let mut b = Vec::new();
    x.encode_to_vec(&mut b).map_err(|e| e.to_string())?;
    for k in 0..b.len() {
        for v in [0u8, 1, 2, 0x7f, 0x80, 0xff, b[k] ^ 1, b[k].wrapping_add(1), b[k].wrapping_sub(1)] {
            let mut c = b.clone();
            c[k] = v;
            t.step();
            let _ = T::from_der(&c);
        }
    }
    Ok(())
}
fn yaml_ok<T: Serialize + DeserializeOwned + Debug + PartialEq>(t: &mut Tally, x: &T) -> Result<(), String> {
    let y = serde_yml::to_string(x).map_err(|e| format!("YAML encoding of {x:?}: {e}"))?;
    let z: T = serde_yml::from_str(&y).map_err(|e| format!("YAML decoding of\n{y}: {e}"))?;
    same(t, "YAML", &z, x)
}
/// The three ways of loading configurations, from strings and files.
fn repr_ok<T: ConfigRepr + Clone + PartialEq>(t: &mut Tally, name: &str, xs: &[T]) -> Result<(), String> {
    let e = |e: nyx_space::io::ConfigError| e.to_string();
    let p = scratch(&format!("c23-{name}.yaml"));
    let put = |s: &str| std::fs::write(&p, s).map_err(|e| e.to_string());
    for x in xs {
        put(&serde_yml::to_string(x).map_err(|e| e.to_string())?)?;
        same(t, "load", &T::load(&p).map_err(e)?, x)?;
    }
    let many = serde_yml::to_string(&xs.to_vec()).map_err(|e| e.to_string())?;
    put(&many)?;
    same(t, "load_many", &T::load_many(&p).map_err(e)?, &xs.to_vec())?;
    same(t, "loads_many", &T::loads_many(&many).map_err(e)?, &xs.to_vec())?;
    let named: BTreeMap<String, T> = xs.iter().enumerate().map(|(i, x)| (format!("dev {i}: é"), x.clone())).collect();
    let text = serde_yml::to_string(&named).map_err(|e| e.to_string())?;
    put(&text)?;
    same(t, "load_named", &T::load_named(&p).map_err(e)?, &named)?;
    same(t, "loads_named", &T::loads_named(&text).map_err(e)?, &named)?;
    // Torn files: a missing one, or a truncated one, is an error or a value, never a panic.
    let _ = std::fs::remove_file(&p);
    t.ensure(T::load(&p).is_err() && T::load_many(&p).is_err() && T::load_named(&p).is_err(), || "missing file accepted".into())?;
    let many = serde_yml::to_string(&xs[..xs.len().min(2)].to_vec()).map_err(|e| e.to_string())?;
    for k in (0..many.len()).filter(|k| many.is_char_boundary(*k)) {
        t.step();
        let _ = T::loads_many(&many[..k]);
        let _ = T::loads_named(&many[..k]);
    }
    for bad in ["[", "{a: ", "12", "- 1", "a: b", "\t"] {
        t.ensure(T::loads_many(bad).is_err() || bad.trim().is_empty(), || format!("`{bad}` accepted"))?;
    }
    Ok(())
}

fn durations(tier: Tier) -> Vec<Duration> {
    let mut v: Vec<Duration> = [1i64, 999, 1_000, 1_000_000_000, 60_000_000_000, 61_001_002_003, 3_600_000_000_001, 86_400_000_000_000, 90_061_001_001_001]
        .iter().map(|x| ns(*x)).collect();
    v.push(Duration::ZERO);
    v.push(s(36525.5 * 86400.0));
    if tier.thorough() {
        for a in [0i64, 1, 59] {
            for b in [0i64, 1, 23] {
                for c in [0i64, 500_000_000, 1_000, 7] {
                    v.push(ns(a * 1_000_000_000 + b * 3_600_000_000_000 + c));
                }
            }
        }
        v.sort();
        v.dedup();
    }
    v
}
const SCALES: [TimeScale; 8] = [TimeScale::TAI, TimeScale::TT, TimeScale::ET, TimeScale::TDB, TimeScale::UTC, TimeScale::GPST, TimeScale::GST, TimeScale::BDT];
fn epochs(ts: TimeScale) -> Vec<Epoch> {
    ["2000-01-01T12:00:00 UTC", "2016-12-31T23:59:59.5 UTC", "2024-02-29T00:00:00.000000001 UTC", "2037-12-31T23:59:59.999999999 TAI", "1972-07-01T00:00:01 TAI"]
        .iter().map(|x| Epoch::from_str(x).unwrap().to_time_scale(ts)).collect()
}
const FLOATS: [f64; 12] = [0.0, -0.0, 1.0, -1.0, 0.1, -2.5e-7, 1e-300, 3.0e38, 123456789.987654321, f64::MIN_POSITIVE, f64::MAX, 1.0 / 3.0];
fn noises() -> Vec<StochasticNoise> {
    let w = [None, Some(WhiteNoise { mean: 0.0, sigma: 1e-3 }), Some(WhiteNoise { mean: -0.25, sigma: 0.0 })];
    let b: Vec<Option<GaussMarkov>> = vec![None, Some(GaussMarkov::new(s(86400.0), 5e-5).unwrap()), Some(GaussMarkov { constant: Some(-0.3), ..GaussMarkov::new(s(60.0) + ns(3), 0.0).unwrap() }), Some(GaussMarkov { constant: Some(0.0), ..GaussMarkov::new(s(1.0), 0.2).unwrap() })];
    w.iter().flat_map(|w| b.iter().map(|b| StochasticNoise { white_noise: *w, bias: *b })).collect()
}
fn schedulers() -> Vec<Scheduler> {
    let mut v = vec![];
    for handoff in [Handoff::Eager, Handoff::Greedy, Handoff::Overlap] {
        for cadence in [Cadence::Continuous, Cadence::Intermittent { on: s(60.0), off: s(3600.5) }, Cadence::Intermittent { on: ns(1), off: Duration::ZERO }] {
            for min_samples in [0u32, 1, 10, 255, 256, u32::MAX] {
                for sample_alignment in [None, Some(s(1.0)), Some(s(0.25)), Some(ns(1)), Some(s(-1.0))] {
                    v.push(Scheduler { handoff, cadence, min_samples, sample_alignment });
                }
            }
        }
    }
    v
}
fn locations() -> Vec<Location> {
    let mut v = vec![];
    for (lat, lon, h) in [(0.0, 0.0, 0.0), (-35.398333, 148.981944, 0.691750), (90.0, 359.9, -0.4)] {
        for frame in [IAU_EARTH_FRAME, EARTH_ITRF93, IAU_MOON_FRAME] {
            for (terrain_mask, terrain_mask_ignored) in [
                (vec![], true),
                (TerrainMask::from_flat_terrain(5.0), false),
                (vec![TerrainMask { azimuth_deg: 0.0, elevation_mask_deg: 5.0 }, TerrainMask { azimuth_deg: 130.0, elevation_mask_deg: -1.25 }], false),
            ] {
                v.push(Location { latitude_deg: lat, longitude_deg: lon, height_km: h, frame: frame.into(), terrain_mask, terrain_mask_ignored });
            }
        }
    }
    v
}
const TYPES: [M; 10] = [M::Range, M::Doppler, M::Azimuth, M::Elevation, M::ReceiveFrequency, M::TransmitFrequency, M::TransmitFrequencyRate, M::X, M::Y, M::Z];
fn type_sets(tier: Tier) -> Vec<Vec<M>> {
    let mut v = vec![vec![]];
    for sq in sequences(TYPES.len(), 1, tier.pick(2, 3)) {
        let mut u = sq.clone();
        u.sort();
        u.dedup();
        if u.len() == sq.len() {
            v.push(sq.iter().map(|i| TYPES[*i]).collect());
        }
    }
    v
}
fn crafts() -> Vec<Spacecraft> {
    let mut v = vec![];
    for (oi, frame) in [earth(), EARTH_J2000, MOON_J2000].into_iter().enumerate() {
        for thruster in [None, Some(Thruster { thrust_N: 0.5, isp_s: 3000.0 }), Some(Thruster { thrust_N: 0.0, isp_s: -0.0 })] {
            for mode in [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit] {
                let mut o = zoo(oi);
                o.frame = frame;
                o.epoch = epochs(SCALES[oi * 2])[oi];
                v.push(
                    Spacecraft { orbit: o, mass: Mass { dry_mass_kg: 100.5, prop_mass_kg: 0.0, extra_mass_kg: 1e-3 }, srp: SRPData { area_m2: 2.0, coeff_reflectivity: 1.8 }, drag: DragData { area_m2: 0.5, coeff_drag: 2.2 }, thruster, mode, thrust_direction: None, stm: None },
                );
            }
        }
    }
    v
}

pub fn c23(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every combination of optional fields and edge values of each configuration type is encoded to DER and YAML, decoded back (exact value and order), cut at every byte, and extended; DER bytes are corrupted one by one",
    );
    sp.assumptions.push("DER of a spacecraft does not carry its thrust direction nor its STM (documented in the code).".into());
    for ts in SCALES {
        sp.push(format!("strand/{ts:?}"), move |t| {
            let es = epochs(ts);
            for a in &es {
                for b in &es {
                    let x = Strand { start: *a, end: b.to_time_scale(TimeScale::UTC) };
                    der_ok(t, &x)?;
                    let x = Strand { start: *a, end: *b };
                    der_ok(t, &x)?;
                    t.ensure(Strand::from_der(&x.to_der().unwrap()).unwrap().start.time_scale == ts, || "time scale lost".into())?;
                    // The YAML form is Gregorian text, exact except in the dynamical time scales, where it is rounded.
                    let tol = if matches!(ts, TimeScale::ET | TimeScale::TDB) { 100.0 } else { 0.0 };
                    let y: Strand = serde_yml::from_str(&serde_yml::to_string(&x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                    t.close("start", (y.start - x.start).to_unit(hifitime::Unit::Nanosecond), 0.0, tol)?;
                    t.close("end", (y.end - x.end).to_unit(hifitime::Unit::Nanosecond), 0.0, tol)?;
                    t.ensure(y.start.time_scale == ts && y.end.time_scale == ts, || format!("time scale {ts:?} lost in YAML: {y}"))?;
                }
            }
            der_corrupt(t, &Strand { start: es[0], end: es[1] })
        });
    }
    for (n, c) in [("continuous", 0usize), ("intermittent", 1)] {
        sp.push(format!("cadence/{n}"), move |t| {
            let ds = durations(tier);
            for on in &ds {
                for off in &ds {
                    let x = if c == 0 { Cadence::Continuous } else { Cadence::Intermittent { on: *on, off: *off } };
                    der_ok(t, &x)?;
                    yaml_ok(t, &x)?;
                }
            }
            der_corrupt(t, &Cadence::Intermittent { on: ds[0], off: ds[5] })
        });
    }
    sp.push("cadence/negative", move |t| {
        for d in [ns(-1), s(-1.0), s(-90061.5)] {
            der_ok(t, &Cadence::Intermittent { on: d, off: -d })?;
            yaml_ok(t, &Cadence::Intermittent { on: d, off: -d })?;
        }
        Ok(())
    });
    for (i, chunk) in schedulers().chunks(54).map(|c| c.to_vec()).enumerate() {
        sp.push(format!("scheduler/{i}"), move |t| {
            for x in &chunk {
                der_ok(t, x)?;
                yaml_ok(t, x)?;
            }
            der_corrupt(t, &chunk[7])
        });
    }
    for (i, sc) in [None, Some(0usize), Some(23), Some(120), Some(269)].into_iter().enumerate() {
        for (j, n) in [None, Some(0usize), Some(1), Some(3)].into_iter().enumerate() {
            sp.push(format!("trkconfig/{i}/{j}"), move |t| {
                let es = epochs(TimeScale::UTC);
                for d in durations(tier) {
                    let x = TrkConfig {
                        scheduler: sc.map(|k| schedulers()[k]),
                        sampling: d,
                        strands: n.map(|n| (0..n).map(|k| Strand { start: es[k], end: es[k + 1] }).collect()),
                    };
                    der_ok(t, &x)?;
                    yaml_ok(t, &x)?;
                    let y = TrkConfig::from_str(&serde_yml::to_string(&x).unwrap()).map_err(|e| e.to_string())?;
                    same(t, "from_str", &y, &x)?;
                    repr_ok(t, &format!("trk{i}{j}"), &[x.clone()])?;
                    der_corrupt(t, &x)?;
                }
                // A strand or a sampling that cannot be read is an error, not a default.
                for bad in ["sampling: 3 parsecs\n", "sampling: 1 min\nstrands:\n- start: yesterday\n  end: 2020-01-01 UTC\n", "strands: []\n", "sampling: 1 min\nscheduler:\n  handoff: Lazy\n  cadence: Continuous\n  min_samples: 1\n  sample_alignment: null\n", "sampling: 1 min\nscheduler:\n  handoff: Eager\n  cadence: Continuous\n  min_samples: 1\n  sample_alignment: 1 sec min\n"] {
                    t.ensure(TrkConfig::from_str(bad).is_err(), || format!("accepted:\n{bad}as {:?}", TrkConfig::from_str(bad).unwrap()))?;
                }
                Ok(())
            });
        }
    }
    sp.push("noise/values", move |t| {
        for a in FLOATS {
            for b in FLOATS {
                let w = WhiteNoise { mean: a, sigma: b };
                der_ok(t, &w)?;
                yaml_ok(t, &w)?;
                for d in durations(Tier::Quick) {
                    for c in [None, Some(a)] {
                        let g = GaussMarkov { tau: d, process_noise: b, constant: c, prev_epoch: None, init_sample: None };
                        der_ok(t, &g)?;
                        yaml_ok(t, &g)?;
                    }
                }
            }
        }
        Ok(())
    });
    sp.push("noise/combinations", move |t| {
        for x in noises() {
            der_ok(t, &x)?;
            yaml_ok(t, &x)?;
        }
        repr_ok(t, "gm", &noises().iter().filter_map(|n| n.bias).collect::<Vec<_>>())?;
        // The state of a realization is not part of the configuration.
        let g = GaussMarkov { prev_epoch: Some(t0()), init_sample: Some(3.0), ..GaussMarkov::new(s(60.0), 0.1).unwrap() };
        let y: GaussMarkov = serde_yml::from_str(&serde_yml::to_string(&g).unwrap()).map_err(|e| e.to_string())?;
        t.ensure(y.prev_epoch.is_none() && y.init_sample.is_none() && y.tau == g.tau, || format!("{y:?}"))
    });
    for (i, chunk) in locations().chunks(3).map(|c| c.to_vec()).enumerate() {
        for flags in 0..8usize {
            let chunk = chunk.clone();
            sp.push(format!("station/{i}/{flags}"), move |t| {
                let ns_ = noises();
                let mut all = vec![];
                for (k, loc) in chunk.iter().enumerate() {
                    for (j, set) in type_sets(tier).into_iter().enumerate() {
                        if i > 0 && j % 17 != i % 17 {
                            continue;
                        }
                        let order: IndexSet<M> = set.iter().copied().collect();
                        let st: IndexMap<M, StochasticNoise> = set.iter().rev().enumerate().map(|(q, m)| (*m, ns_[(q + j) % ns_.len()])).collect();
                        let x = GroundStation {
                            name: ["DSS-65 Madrid", "", "Kourou \"é\": - x", "123"][(j + k) % 4].into(),
                            location: loc.clone(),
                            measurement_types: order,
                            integration_time: (flags & 1 > 0).then(|| durations(Tier::Quick)[j % 11]),
                            light_time_correction: j % 2 == 1,
                            timestamp_noise_s: (flags & 2 > 0).then(|| ns_[j % ns_.len()]),
                            stochastic_noises: (flags & 4 > 0).then_some(st),
                        };
                        der_ok(t, &x)?;
                        yaml_ok(t, &x)?;
                        if j % 17 == i % 17 {
                            all.push(x);
                        }
                    }
                }
                repr_ok(t, &format!("gs{i}{flags}"), &all)
            });
        }
    }
    for flags in 0..2usize {
        sp.push(format!("position/{flags}"), move |t| {
            let mut all = vec![];
            for (j, set) in type_sets(tier).into_iter().enumerate() {
                let mut x = PositionDevice::new(format!("p{j}"));
                x.measurement_types = set.iter().copied().collect();
                x.stochastic_noises = (flags == 1).then(|| set.iter().map(|m| (*m, noises()[j % 12])).collect());
                let y: PositionDevice = serde_yml::from_str(&serde_yml::to_string(&x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                t.step();
                t.ensure(format!("{x:?}") == format!("{y:?}"), || format!("{y:?} instead of {x:?}"))?;
                all.push(x);
            }
            Ok(())
        });
    }
    sp.push("rejection", move |t| {
        let v: Vec<SigmaRejection> = FLOATS.iter().map(|f| SigmaRejection { num_sigmas: *f }).collect();
        for x in &v {
            let y: SigmaRejection = serde_yml::from_str(&serde_yml::to_string(x).unwrap()).map_err(|e| e.to_string())?;
            t.step();
            t.ensure(y.num_sigmas.to_bits() == x.num_sigmas.to_bits(), || format!("{y:?} instead of {x:?}"))?;
        }
        Ok(())
    });
    for (i, chunk) in crafts().chunks(9).map(|c| c.to_vec()).enumerate() {
        sp.push(format!("spacecraft/{i}"), move |t| {
            for x in &chunk {
                der_ok(t, x)?;
                yaml_ok(t, x)?;
                let y = Spacecraft { thrust_direction: Some(ThrustDirection { x: 0.6, y: -0.8, z: 0.0 }), ..*x };
                yaml_ok(t, &y)?;
            }
            repr_ok(t, &format!("sc{i}"), &chunk)
        });
    }
    sp.push("thruster", move |t| {
        for a in FLOATS {
            for b in FLOATS {
                let x = Thruster { thrust_N: a, isp_s: b };
                der_ok(t, &x)?;
                yaml_ok(t, &x)?;
            }
        }
        Ok(())
    });
    // Mission sequences and their dynamics.
    fn dhall_ok<T: Serialize + DeserializeOwned + Debug + serde_dhall::StaticType>(t: &mut Tally, x: &T) -> Result<(), String> {
        t.step();
        let d = serde_dhall::serialize(x).static_type_annotation().to_string().map_err(|e| format!("to Dhall: {e} of {x:?}"))?;
        let y: T = serde_dhall::from_str(&d).static_type_annotation().parse().map_err(|e| format!("from Dhall: {e} in {d}"))?;
        t.ensure(format!("{y:?}") == format!("{x:?}"), || format!("Dhall: {y:?} instead of {x:?}"))?;
        let d = serde_dhall::serialize(x).static_type_annotation().to_string().map_err(|e| e.to_string())?;
        let y: T = serde_dhall::from_str(&d).parse().map_err(|e| format!("from untyped Dhall: {e} in {d}"))?;
        t.ensure(format!("{y:?}") == format!("{x:?}"), || format!("untyped Dhall: {y:?} instead of {x:?}"))
    }
    fn yaml_dbg<T: Serialize + DeserializeOwned + Debug>(t: &mut Tally, x: &T) -> Result<(), String> {
        t.step();
        let d = serde_yml::to_string(x).map_err(|e| format!("to YAML: {e}"))?;
        let y: T = serde_yml::from_str(&d).map_err(|e| format!("from YAML: {e} in {d}"))?;
        t.ensure(format!("{y:?}") == format!("{x:?}"), || format!("YAML: {y:?} instead of {x:?}"))
    }
    macro_rules! both {
        ($k:expr, $x:expr) => {
            sp.push(format!("dhall/{}", $k), move |t| dhall_ok(t, &$x));
            sp.push(format!("yaml/{}", $k), move |t| yaml_dbg(t, &$x));
        };
    }
    use nyx_space::dynamics::guidance::*;
    use nyx_space::dynamics::sequence::*;
    use nyx_space::dynamics::*;
    use nyx_space::io::gravity::GravityFieldConfig;
    use nyx_space::md::{StateParameter, objective::Objective};
    use nyx_space::propagators::*;
    both!("point-masses", PointMasses::new(vec![301, 10, -5]));
    both!("point-masses-corr", PointMasses { celestial_objects: vec![301], correction: Some(anise::astro::Aberration { converged: true, stellar: false, transmit_mode: true }) });
    both!("accel-none", AccelModels::default());
    both!("accel-gf", AccelModels { gravity_field: Some(GravityFieldConfig { degree: 8, order: 4, filepath: "a/b.shadr".into(), gunzipped: true, frame: IAU_EARTH_FRAME.into() }), ..Default::default() });
    both!("accel-tides", AccelModels { solid_tides: Some(SolidTides { frame: EARTH_ITRF93, k2: 0.3, k3: 0.09, perturbers: vec![TidalPerturber { frame: MOON_J2000, compute_degree_3: true }] }), ..Default::default() });
    both!("srp", SolarPressure::default());
    both!("srp2", SolarPressure { phi: 1e3, estimate: true, shadow_model: nyx_space::cosmic::eclipse::ShadowModel { light_source: earth(), shadow_bodies: vec![] } });
    both!("drag0", Drag { density: AtmDensity::Constant(1e-12), frame: earth(), estimate: true });
    both!("drag1", Drag { density: AtmDensity::Exponential { rho0: 1e-13, r0: 7e5, ref_alt_m: 88667.0 }, frame: IAU_EARTH_FRAME, estimate: false });
    both!("drag2", Drag { density: AtmDensity::StdAtm { max_alt_m: 1e6 }, frame: IAU_EARTH_FRAME, estimate: false });
    both!("opts", IntegratorOptions::default());
    both!("opts2", IntegratorOptions { integration_frame: Some(EARTH_J2000), ..IntegratorOptions::with_fixed_step(s(1.5)) });
    for (_, m) in crate::prop::METHODS { both!(format!("method-{m:?}"), m); }
    use anise::analysis::prelude::OrbitalElement as E;
    for (n, p) in [("sma", StateParameter::Element(E::SemiMajorAxis)), ("ta", StateParameter::Element(E::TrueAnomaly)), ("in-plane", StateParameter::ThrustInPlane(LocalFrame::VNC)), ("out-of-plane", StateParameter::ThrustOutOfPlane(LocalFrame::RCN))] {
        both!(format!("objective/{n}"), Objective { multiplicative_factor: -2.0, additive_factor: 1e-9, ..Objective::within_tolerance(p, 7000.5, 1e-3) });
    }
    for (n, p) in [("BdotR", StateParameter::BdotR()), ("BdotT", StateParameter::BdotT()), ("BLTOF", StateParameter::BLTOF()), ("Cd", StateParameter::Cd()), ("Cr", StateParameter::Cr()), ("DryMass", StateParameter::DryMass()), ("Isp", StateParameter::Isp()), ("PropMass", StateParameter::PropMass()), ("Thrust", StateParameter::Thrust()), ("TotalMass", StateParameter::TotalMass()), ("Mode", StateParameter::GuidanceMode()), ("X", StateParameter::ThrustX())] {
        both!(format!("objective-unit/{n}"), Objective::within_tolerance(p, -1.5, 0.25));
    }
    for f in [LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::VNC, LocalFrame::RCN] {
        both!(format!("mnvr/{f:?}"), Maneuver::from_time_invariant(t0(), t0() + s(5.0), 0.5, nalgebra::Vector3::new(1.0, 2.0, 0.0), f));
        both!(format!("impulse/{f:?}"), mnvr::ImpulsiveManeuver { local_frame: f, dv_km_s: nalgebra::Vector3::new(1.0, -2.0, 1e-7) });
    }
    use nyx_space::polyfit::CommonPolynomial as P;
    for (n, p) in [("c", P::Constant { a: 1.5 }), ("l", P::Linear { a: 0.1, b: -2.0 }), ("q", P::Quadratic { a: 1e-7, b: 0.0, c: 3.0 })] {
        both!(format!("angles/{n}"), Maneuver { representation: MnvrRepr::Angles { azimuth: p, elevation: P::Constant { a: 0.0 } }, ..Maneuver::from_time_invariant(t0(), t0() + s(5.0), 0.5, nalgebra::Vector3::new(1.0, 2.0, 0.0), LocalFrame::VNC) });
    }
    // Whole sequences: every pair of phases out of all kinds of events and guidance laws, with every set of models.
    let obj = Objective::new(StateParameter::Element(E::Eccentricity), 0.01);
    let laws = move || vec![
        None,
        Some(SteeringLaw::FiniteBurn(Maneuver::from_time_invariant(t0(), t0() + s(5.0), 0.5, nalgebra::Vector3::new(1.0, 0.0, 0.0), LocalFrame::VNC))),
        Some(SteeringLaw::Kluever { objectives: vec![ObjectiveWeight { objective: obj, weight: 0.5 }], max_eclipse_prct: None }),
        Some(SteeringLaw::Ruggiero { objectives: vec![], max_eclipse_prct: Some(0.5) }),
        Some(SteeringLaw::Ruggiero { objectives: vec![ObjectiveEfficiency { objective: obj, efficiency: 0.9 }; 2], max_eclipse_prct: None }),
    ];
    let events = || {
        let props = PhysicalProperties { mass: Some(Mass::from_dry_mass(3.0)), srp: None, drag: Some(DragData { area_m2: 1.0, coeff_drag: 0.0 }) };
        let none = PhysicalProperties { mass: None, srp: Some(SRPData { area_m2: 0.5, coeff_reflectivity: -0.1 }), drag: None };
        let imp = mnvr::ImpulsiveManeuver { local_frame: LocalFrame::VNC, dv_km_s: nalgebra::Vector3::new(1e-3, 0.0, 0.0) };
        vec![
            None,
            Some(DiscreteEvent::FrameSwap { new_frame: MOON_J2000 }),
            Some(DiscreteEvent::Staging { impulsive_maneuver: None, decrement_properties: Some(props.clone()) }),
            Some(DiscreteEvent::Staging { impulsive_maneuver: Some(imp), decrement_properties: None }),
            Some(DiscreteEvent::Docking { impulsive_maneuver: Some(imp), increment_properties: Some(none) }),
            Some(DiscreteEvent::Docking { impulsive_maneuver: None, increment_properties: None }),
        ]
    };
    for np in 0..3usize {
        for nt in 0..3usize {
            for (li, _) in laws().into_iter().enumerate() {
                for (ei, _) in events().into_iter().enumerate() {
                    let make = move || {
                        let mut sq = SpacecraftSequence::default();
                        for k in 0..np {
                            let gf = GravityFieldConfig { degree: 8, order: 4, filepath: "a/b.shadr".into(), gunzipped: k == 0, frame: IAU_EARTH_FRAME.into() };
                            sq.propagators.insert(format!("p {k}"), PropagatorConfig {
                                method: crate::prop::METHODS[k].1,
                                options: IntegratorOptions::with_fixed_step(s(1.5)),
                                dynamics: nyx_space::dynamics::sequence::Dynamics {
                                    accel_models: AccelModels { point_masses: (k == 0).then(|| PointMasses::new(vec![301])), gravity_field: (k == 1).then_some(gf), solid_tides: None },
                                    force_models: ForceModels { solar_pressure: (k == 0).then(SolarPressure::default), drag: (k == 1).then_some(Drag { density: AtmDensity::Constant(1e-12), frame: earth(), estimate: true }) },
                                },
                            });
                        }
                        for k in 0..nt {
                            sq.thruster_sets.insert(format!("t-{k}"), Thruster { thrust_N: 0.1 * k as f64, isp_s: 300.0 });
                        }
                        for k in 0..=np {
                            let guidance = laws()[li].clone().map(|law| Box::new(GuidanceConfig { thruster_model: "t-0".into(), disable_prop_mass: k == 1, law }));
                            sq.seq.insert(t0() + s(60.0 * k as f64), Phase::Activity { name: format!("n{k}"), propagator: "p 0".into(), guidance, on_entry: events()[ei].clone().map(Box::new), disabled: k == 0 });
                        }
                        sq.seq.insert(t0() + s(1e5), Phase::Terminate);
                        sq
                    };
                    sp.push(format!("sequence/{np}/{nt}/{li}/{ei}"), move |t| {
                        let x = make();
                        let norm = |q: &SpacecraftSequence| format!("{:?} {:?} {:?}", q.seq, q.thruster_sets.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect::<BTreeMap<_, _>>(), q.propagators.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect::<BTreeMap<_, _>>());
                        let d = serde_yml::to_string(&x).map_err(|e| format!("to YAML: {e}"))?;
                        let y: SpacecraftSequence = serde_yml::from_str(&d).map_err(|e| format!("from YAML: {e} in {d}"))?;
                        t.step();
                        t.ensure(norm(&x) == norm(&y), || format!("YAML: {y:?} instead of {x:?}"))?;
                        Ok(())
                    });
                    if nt == 1 && ei == 0 {
                        sp.push(format!("sequence-dhall/{np}/{li}"), move |t| {
                            let x = make();
                            let norm = |q: &SpacecraftSequence| format!("{:?} {:?} {:?}", q.seq, q.thruster_sets, q.propagators.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect::<BTreeMap<_, _>>());
                            let d = serde_dhall::serialize(&x).static_type_annotation().to_string().map_err(|e| format!("to Dhall: {e}"))?;
                            let y: SpacecraftSequence = serde_dhall::from_str(&d).parse().map_err(|e| format!("from Dhall: {e} in {d}"))?;
                            t.step();
                            t.ensure(norm(&x) == norm(&y), || format!("Dhall: {y:?} instead of {x:?}"))
                        });
                    }
                }
            }
        }
    }
    sp
}
