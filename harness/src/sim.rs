//! C20, C21: simulating tracking arcs, and scheduling ground stations.
use crate::core::*;
use crate::dev::look_eci;
use crate::od::{Dev, dev, model};
use crate::traj::{on_orbit, traj_of};
use crate::world::*;
use anise::astro::{Location, TerrainMask};
use anise::constants::frames::*;
use hifitime::{Duration, Epoch};
use nyx_space::Spacecraft;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::GroundStation;
use nyx_space::od::msr::TrackingDataArc;
use nyx_space::od::noise::{StochasticNoise, WhiteNoise};
use nyx_space::od::prelude::MeasurementType as M;
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrackingArcSim, TrkConfig};
use std::collections::BTreeMap;

fn el(e: Epoch) -> f64 {
    (e - t0()).to_seconds()
}
fn strand(a: f64, b: f64) -> Strand {
    Strand { start: t0() + s(a), end: t0() + s(b) }
}
/// A trajectory along orbit `i`, from `a` to `b` seconds past t0 at a given step.
fn arc_of(i: usize, a: f64, b: f64, step: f64) -> Traj<Spacecraft> {
    let o = zoo(i);
    let mut v = vec![];
    let mut x = a;
    while x < b {
        v.push(on_orbit(&o, s(x), 100.0));
        x += step;
    }
    v.push(on_orbit(&o, s(b), 100.0));
    traj_of(v)
}
fn cfg_strands(strands: Vec<Strand>, sampling: f64) -> TrkConfig {
    TrkConfig { scheduler: None, sampling: s(sampling), strands: Some(strands) }
}
/// The epochs at which a device samples a strand.
fn samples(st: &Strand, sampling: Duration) -> Vec<Epoch> {
    let mut out = vec![];
    let mut k = 0i64;
    loop {
        let e = st.start + sampling * k;
        if e > st.end {
            return out;
        }
        out.push(e);
        k += 1;
    }
}
fn listing(a: &TrackingDataArc) -> Vec<(Epoch, String)> {
    let mut v: Vec<_> = a.measurements.iter().map(|m| (m.epoch, m.tracker.clone())).collect();
    v.sort();
    v
}
fn ordered(t: &mut Tally, a: &TrackingDataArc) -> Result<(), String> {
    for w in a.measurements.windows(2) {
        t.ensure(w[0].epoch <= w[1].epoch, || format!("measurement at {} listed before the one at {}", w[0].epoch, w[1].epoch))?;
    }
    Ok(())
}
fn same_listing(t: &mut Tally, got: &[(Epoch, String)], want: &[(Epoch, String)]) -> Result<(), String> {
    t.ensure(got == want, || {
        let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).map(|x| format!("{}@{:.3}", x.1, el(x.0))).take(4).collect();
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).map(|x| format!("{}@{:.3}", x.1, el(x.0))).take(4).collect();
        format!("{} measurements, expected {}: missing {miss:?}, unexpected {extra:?}", got.len(), want.len())
    })
}

const STN: [[f64; 3]; 3] = [[5000.0, -3000.0, 2500.0], [-2000.0, 4500.0, -4000.0], [100.0, 200.0, 6300.0]];
const HIDE: [&[(f64, f64)]; 5] = [&[], &[(-1.0, 50.0)], &[(120.0, 120.0)], &[(100.0, 400.0), (700.0, 1000.0)], &[(-1e9, 1e9)]];
/// Interval pieces from which layouts of strands are drawn: each is on or off.
const PIECES: [(f64, f64); 5] = [(0.0, 94.0), (95.5, 200.25), (240.0, 600.0), (630.0, 1199.0), (1200.0 - 0.5, 1500.0)];
const LAST: f64 = 1300.0;

fn layout(mask: usize) -> Vec<Strand> {
    (0..PIECES.len()).filter(|k| mask >> k & 1 == 1).map(|k| strand(PIECES[k].0, PIECES[k].1)).collect()
}

/// Runs the simulator on controllable devices and compares with the definition.
fn sim_case(t: &mut Tally, tr: &Traj<Spacecraft>, devs: &[Dev], cfgs: &[(&str, TrkConfig)], seed: u64) -> Result<(), String> {
    let alm = almanac();
    let devices: BTreeMap<String, Dev> = devs.iter().map(|d| (d.name.clone(), d.clone())).collect();
    let configs: BTreeMap<String, TrkConfig> = cfgs.iter().map(|(n, c)| (n.to_string(), c.clone())).collect();
    let mut sim = TrackingArcSim::with_seed(devices, tr.clone(), configs.clone(), seed).map_err(|e| format!("setting up: {e}"))?;
    let mut want = vec![];
    for d in devs {
        let Some(c) = configs.get(&d.name) else { continue };
        for st in c.strands.as_ref().unwrap() {
            for e in samples(st, c.sampling) {
                let x = el(e);
                if e > tr.last().orbit.epoch || e < tr.first().orbit.epoch {
                    break;
                }
                if !d.hidden.iter().any(|(a, b)| x >= *a && x <= *b) {
                    want.push((e, d.name.clone()));
                }
            }
        }
    }
    want.sort();
    for round in 0..2 {
        let arc = sim.generate_measurements(&alm).map_err(|e| format!("round {round}: {e}"))?;
        t.step();
        t.see(&(round, arc.measurements.len(), arc.measurements.first().map(|m| m.epoch.to_string())));
        ordered(t, &arc)?;
        same_listing(t, &listing(&arc), &want)?;
        for m in &arc.measurements {
            let d = devs.iter().find(|d| d.name == m.tracker).unwrap();
            let o = tr.at(m.epoch).map_err(|e| e.to_string())?.orbit;
            t.ensure(m.data.len() == d.types.len() && !m.rejected, || format!("measurement {m:?} of {}", d.name))?;
            for (ty, v) in &m.data {
                let w = model(d.at, *ty, o.radius_km, o.velocity_km_s).0;
                t.close("observation of the trajectory at the epoch of the measurement", *v, w, 1e-9)?;
            }
        }
    }
    Ok(())
}

pub fn c20(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every subset of five disjoint strand pieces (one past the end of the trajectory) for one device, and every pair of subsets for two, x sampling rates x visibility patterns x configurations present or absent; seeds and repeated runs with noisy ground stations",
    );
    sp.assumptions.push("Strands of one device do not overlap, start within the trajectory, and last at least one sample.".into());
    let tr = arc_of(3, 0.0, LAST, 20.0);
    let types = [M::Range, M::Doppler];
    for mask in 1..32usize {
        for sampling in [10.0, 7.3, 47.0, 93.999_999_999] {
            for h in 0..HIDE.len() {
                let tr = tr.clone();
                sp.push(format!("one/{mask}/{sampling}/{h}"), move |t| {
                    let d = dev("A", STN[0], &types, HIDE[h]);
                    sim_case(t, &tr, &[d], &[("A", cfg_strands(layout(mask), sampling))], 1)
                });
            }
        }
    }
    // Strands in any order, some of them entirely outside of the trajectory: each is worth what it is alone.
    for q in sequences(PIECES.len() + 2, 2, tier.pick(4, 5)) {
        if (0..q.len()).any(|i| q[..i].contains(&q[i])) {
            continue;
        }
        let tr = tr.clone();
        let tag: String = q.iter().map(|x| x.to_string()).collect();
        sp.push(format!("order/{tag}"), move |t| {
            let outside = [strand(LAST + 100.0, LAST + 300.0), strand(-400.0, -150.0)];
            let strands: Vec<Strand> = q.iter().map(|k| if *k < PIECES.len() { strand(PIECES[*k].0, PIECES[*k].1) } else { outside[*k - PIECES.len()] }).collect();
            sim_case(t, &tr, &[dev("A", STN[0], &types, &[])], &[("A", cfg_strands(strands, 10.0))], 1)
        });
    }
    for ma in 1..32usize {
        for mb in 1..32usize {
            let tr = tr.clone();
            sp.push(format!("two/{ma}/{mb}"), move |t| {
                for (sa, sb) in tier.pick(vec![(10.0, 10.0), (9.0, 21.0)], vec![(10.0, 10.0), (9.0, 21.0), (60.0, 7.3), (0.7, 94.0)]) {
                    for (ha, hb) in [(0, 3), (3, 1)] {
                        let a = dev("A", STN[0], &types, HIDE[ha]);
                        let b = dev("B", STN[1], &types[..1], HIDE[hb]);
                        sim_case(t, &tr, &[a, b], &[("A", cfg_strands(layout(ma), sa)), ("B", cfg_strands(layout(mb), sb))], 7)?;
                    }
                }
                Ok(())
            });
        }
    }
    // Devices without configuration are silent; configurations without device are harmless.
    for present in 1..8usize {
        for known in 1..8usize {
            let tr = tr.clone();
            sp.push(format!("configured/{present}/{known}"), move |t| {
                let names = ["A", "B", "C"];
                let devs: Vec<Dev> = (0..3).filter(|k| present >> k & 1 == 1).map(|k| dev(names[k], STN[k], &types, &[])).collect();
                let cfgs: Vec<_> = (0..3).filter(|k| known >> k & 1 == 1).map(|k| (names[k], cfg_strands(layout(1 + 5 * k), 10.0 + k as f64))).collect();
                if present & known == 0 {
                    let devices: BTreeMap<String, Dev> = devs.iter().map(|d| (d.name.clone(), d.clone())).collect();
                    let configs: BTreeMap<String, TrkConfig> = cfgs.iter().map(|(n, c)| (n.to_string(), c.clone())).collect();
                    return t.ensure(TrackingArcSim::with_seed(devices, tr.clone(), configs, 1).is_err(), || "no device has a configuration, yet no error".into());
                }
                sim_case(t, &tr, &devs, &cfgs, 3)
            });
        }
    }
    // A schedule must be built first.
    sp.push("unscheduled", {
        let tr = tr.clone();
        move |t| {
            let devices: BTreeMap<String, Dev> = [("A".to_string(), dev("A", STN[0], &types, &[]))].into();
            let configs: BTreeMap<String, TrkConfig> = [("A".to_string(), TrkConfig::default())].into();
            let mut sim = TrackingArcSim::with_seed(devices, tr.clone(), configs, 1).map_err(|e| e.to_string())?;
            t.step();
            t.ensure(sim.generate_measurements(&almanac()).is_err(), || "measurements without strands, yet no error".into())
        }
    });
    // A strand as long as a sample is accepted, a shorter or backward one is not; strands include both ends.
    for (k, len) in [0.0, 9.999_999_999, 10.0, 10.000_000_001, 25.0, -10.0, -25.0].into_iter().enumerate() {
        let tr = tr.clone();
        sp.push(format!("strand-length/{k}"), move |t| {
            for others in 0..3usize {
                let mut strands = vec![strand(200.0, 200.0 + len)];
                if others == 1 {
                    strands.insert(0, strand(20.0, 90.0));
                }
                if others == 2 {
                    strands.push(strand(300.0, 390.0));
                }
                t.step();
                let st = strand(200.0, 200.0 + len);
                t.close("duration of a strand", st.duration().to_seconds(), len, 1e-9)?;
                for x in [-10.0, -1e-9, 0.0, 1e-9, 5.0, 10.0, 10.5, 25.0, 25.1] {
                    let e = t0() + s(200.0) + ns((x * 1e9f64).round() as i64);
                    t.ensure(st.contains(e) == (st.start <= e && e <= st.end), || format!("strand of {len} s and {x} s"))?;
                }
                let d = dev("A", STN[0], &types, &[]);
                let c = cfg_strands(strands, 10.0);
                if len >= 10.0 {
                    sim_case(t, &tr, &[d], &[("A", c)], 1)?;
                } else {
                    let r = TrackingArcSim::with_seed([("A".to_string(), d)].into(), tr.clone(), [("A".to_string(), c)].into(), 1);
                    t.ensure(r.is_err(), || format!("strand of {len} s accepted although sampled every 10 s"))?;
                }
            }
            Ok(())
        });
    }
    // Devices whose configuration is invalid are left out, whatever the others are.
    for bad in 0..8usize {
        for mask in 1..8usize {
            let tr = tr.clone();
            sp.push(format!("invalid/{bad}/{mask}"), move |t| {
                let good = |k: usize| cfg_strands(layout(1 + 5 * k), 10.0 + k as f64);
                let spoil = |k: usize| {
                    let mut c = good(k);
                    match bad {
                        0 => c.strands = Some(vec![]),
                        1 => c.strands = None,
                        2 => c.scheduler = Some(Scheduler::default()),
                        3 => c.strands.as_mut().unwrap().push(strand(500.0, 505.0)),
                        4 => c.strands.as_mut().unwrap().insert(0, strand(505.0, 405.0)),
                        5 => c.sampling = s(0.0),
                        6 => c.sampling = s(-10.0),
                        _ => c.sampling = s(1e6),
                    }
                    c
                };
                let names = ["A", "B", "C"];
                let devices: BTreeMap<String, Dev> = (0..3).map(|k| (names[k].to_string(), dev(names[k], STN[k], &types, &[]))).collect();
                let configs: BTreeMap<String, TrkConfig> = (0..3).map(|k| (names[k].to_string(), if mask >> k & 1 == 1 { spoil(k) } else { good(k) })).collect();
                t.step();
                let sim = TrackingArcSim::with_seed(devices.clone(), tr.clone(), configs, 1);
                if mask == 7 {
                    return t.ensure(sim.is_err(), || "no device has a valid configuration, yet no error".into());
                }
                let sane: Vec<usize> = (0..3).filter(|k| mask >> k & 1 == 0).collect();
                let mut only = TrackingArcSim::with_seed(
                    sane.iter().map(|k| (names[*k].to_string(), devices[names[*k]].clone())).collect(),
                    tr.clone(),
                    sane.iter().map(|k| (names[*k].to_string(), good(*k))).collect(),
                    1,
                )
                .map_err(|e| e.to_string())?;
                let mut sim = sim.map_err(|e| e.to_string())?;
                for round in 0..2 {
                    let a = sim.generate_measurements(&almanac()).map_err(|e| format!("round {round}: {e}"))?;
                    let b = only.generate_measurements(&almanac()).map_err(|e| format!("round {round}: {e}"))?;
                    t.steps(2);
                    t.see(&(round, a.measurements.len()));
                    same_listing(t, &listing(&a), &listing(&b))?;
                    t.ensure(a.measurements == b.measurements, || "the measurements are not those of the valid devices alone".into())?;
                }
                Ok(())
            });
        }
    }
    // Seeds: the same seed gives the same arc, whichever the run; noise never changes what is measured when.
    for i in 0..ORBITS.len() {
        for seed in 0..tier.pick(3u64, 12) {
            for n in 1..=3usize {
                sp.push(format!("seed/{}/{seed}/{n}", ORBITS[i].0), move |t| {
                    let alm = almanac();
                    let tr = arc_of(i, 0.0, 6.0 * 3600.0, 60.0);
                    let devices: BTreeMap<String, GroundStation> = (0..n).map(|k| (format!("S{k}"), station(&format!("S{k}"), SITES[k], 0.0, true))).collect();
                    let configs: BTreeMap<String, TrkConfig> =
                        (0..n).map(|k| (format!("S{k}"), cfg_strands(vec![strand(0.0, 7000.0), strand(7200.0, 21600.0)], 60.0 + 11.0 * k as f64))).collect();
                    let mk = |seed| TrackingArcSim::with_seed(devices.clone(), tr.clone(), configs.clone(), seed).map_err(|e| e.to_string());
                    let by_rng = TrackingArcSim::with_rng(devices.clone(), tr.clone(), configs.clone(), rand_pcg::Pcg64Mcg::new(seed as u128)).map_err(|e| e.to_string())?;
                    let (mut a, mut b, mut c) = (mk(seed)?, if n == 2 { by_rng } else { mk(seed)? }, mk(seed + 4)?);
                    let mut prev: Option<TrackingDataArc> = None;
                    for round in 0..3 {
                        let x = a.generate_measurements(&alm).map_err(|e| e.to_string())?;
                        let y = b.generate_measurements(&alm).map_err(|e| e.to_string())?;
                        let z = c.generate_measurements(&alm).map_err(|e| e.to_string())?;
                        t.steps(3);
                        t.see(&(round, x.measurements.len()));
                        t.ensure(x.measurements == y.measurements, || format!("round {round}: two simulators of the same seed differ"))?;
                        same_listing(t, &listing(&z), &listing(&x))?;
                        let vals = |a: &TrackingDataArc| a.measurements.iter().flat_map(|m| m.data.values().copied().collect::<Vec<_>>()).collect::<Vec<f64>>();
                        if !x.measurements.is_empty() {
                            let (vx, vz) = (vals(&x), vals(&z));
                            t.ensure(vx.iter().zip(&vz).all(|(p, q)| p != q), || "two seeds share noise values".into())?;
                            if let Some(p) = &prev {
                                same_listing(t, &listing(p), &listing(&x))?;
                                t.ensure(vals(p).iter().zip(&vx).all(|(p, q)| p != q), || "a second run repeats the noise of the first".into())?;
                            }
                        }
                        // Against the geometry.
                        for k in 0..n {
                            let name = format!("S{k}");
                            for st in configs[&name].strands.as_ref().unwrap() {
                                for e in samples(st, configs[&name].sampling) {
                                    let o = tr.at(e).map_err(|e| e.to_string())?.orbit;
                                    let w = look_eci(&SITES[k], o.radius_km, o.velocity_km_s, e);
                                    let m = x.measurements.iter().find(|m| m.epoch == e && m.tracker == name);
                                    if w.el.abs() > 1e-4 {
                                        t.ensure(m.is_some() == (w.el > 0.0), || format!("{name} at {:.1} s: elevation {:.3} deg but measured: {}", el(e), w.el, m.is_some()))?;
                                    }
                                    if let Some(m) = m {
                                        t.close("range within eight sigmas", m.data[&M::Range], w.rho, 0.08)?;
                                        t.close("range rate within eight sigmas", m.data[&M::Doppler], w.rate, 8e-5)?;
                                    }
                                }
                            }
                        }
                        prev = Some(x);
                    }
                    Ok(())
                });
            }
        }
    }
    sp
}

pub const SITES: [[f64; 3]; 6] =
    [[40.427, 4.25, 0.83], [-35.398, 148.98, 0.69], [35.34, 243.125, 1.07], [43.5, 2.0, 0.1], [38.0, 11.0, 0.3], [41.0, 3.0, 0.2]];

pub fn station(name: &str, at: [f64; 3], mask: f64, noise: bool) -> GroundStation {
    let mut g = GroundStation {
        name: name.into(),
        location: Location {
            latitude_deg: at[0],
            longitude_deg: at[1],
            height_km: at[2],
            frame: IAU_EARTH_FRAME.into(),
            terrain_mask: vec![TerrainMask { azimuth_deg: 0.0, elevation_mask_deg: mask }],
            terrain_mask_ignored: false,
        },
        measurement_types: [M::Range, M::Doppler].into_iter().collect(),
        ..Default::default()
    };
    if noise {
        let wn = |sigma| StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma }), bias: None };
        g.stochastic_noises = Some([(M::Range, wn(0.01)), (M::Doppler, wn(1e-5))].into_iter().collect());
    }
    g
}

/// Passes of a trajectory over a site: seconds past t0.
fn passes(tr: &Traj<Spacecraft>, site: &[f64; 3], mask: f64) -> Result<Vec<(f64, f64)>, String> {
    let (a, b) = (el(tr.first().orbit.epoch), el(tr.last().orbit.epoch));
    let up = |x: f64| -> Result<f64, String> {
        let e = t0() + s(x);
        let o = tr.at(e).map_err(|e| e.to_string())?.orbit;
        Ok(look_eci(site, o.radius_km, o.velocity_km_s, e).el - mask)
    };
    let cross = |mut lo: f64, mut hi: f64| -> Result<f64, String> {
        let rising = up(hi)? >= 0.0;
        for _ in 0..30 {
            let m = 0.5 * (lo + hi);
            if (up(m)? >= 0.0) == rising { hi = m } else { lo = m }
        }
        Ok(0.5 * (lo + hi))
    };
    let mut out = vec![];
    let mut open = (up(a)? >= 0.0).then_some(a);
    let mut x = a;
    while x < b {
        let nx = (x + 20.0).min(b);
        let vis = up(nx)? >= 0.0;
        if vis != open.is_some() {
            let c = cross(x, nx)?;
            match open.take() {
                Some(r) => out.push((r, c)),
                None => open = Some(c),
            }
        }
        x = nx;
    }
    if let Some(r) = open {
        out.push((r, b));
    }
    Ok(out)
}

#[derive(Clone)]
struct Stn {
    site: usize,
    mask: f64,
    handoff: Handoff,
    cadence: Cadence,
    min: u32,
    align: Option<f64>,
    sampling: f64,
}

fn sched_case(t: &mut Tally, orbit: usize, from: f64, to: f64, stns: &[Stn]) -> Result<(), String> {
    let alm = almanac();
    let tr = arc_of(orbit, from, to, 60.0);
    let names: Vec<String> = (0..stns.len()).map(|k| format!("S{k}")).collect();
    let devices: BTreeMap<String, GroundStation> = (0..stns.len()).map(|k| (names[k].clone(), station(&names[k], SITES[stns[k].site], stns[k].mask, true))).collect();
    let configs: BTreeMap<String, TrkConfig> = (0..stns.len())
        .map(|k| {
            let x = &stns[k];
            let c = TrkConfig {
                scheduler: Some(Scheduler { handoff: x.handoff, cadence: x.cadence, min_samples: x.min, sample_alignment: x.align.map(s) }),
                sampling: s(x.sampling),
                strands: None,
            };
            (names[k].clone(), c)
        })
        .collect();
    let mut sim = TrackingArcSim::with_seed(devices, tr.clone(), configs.clone(), 5).map_err(|e| e.to_string())?;
    let built = sim.generate_schedule(&alm).map_err(|e| format!("scheduling: {e}"))?;
    t.step();
    t.ensure(built.len() == stns.len(), || format!("{} configurations out of {}", built.len(), stns.len()))?;

    // What each station can see.
    let mut all: Vec<Vec<(f64, f64)>> = vec![];
    for x in stns {
        let mut ps = vec![];
        for p in passes(&tr, &SITES[x.site], x.mask)? {
            let need = x.sampling * x.min as f64;
            let len = p.1 - p.0;
            if (len - need).abs() < x.sampling + 2.0 || len < 60.0 {
                // Too close to the threshold to call.
                return Ok(());
            }
            if len > need {
                ps.push(p);
            }
        }
        all.push(ps);
    }
    let strands: Vec<Vec<(f64, f64)>> = names.iter().map(|n| built[n].strands.clone().unwrap_or_default().iter().map(|x| (el(x.start), el(x.end))).collect()).collect();
    let flat: Vec<(usize, f64, f64)> = (0..stns.len()).flat_map(|k| strands[k].iter().map(move |x| (k, x.0, x.1)).collect::<Vec<_>>()).collect();
    for f in &flat {
        t.see_f(&[f.0 as f64, f.1, f.2]);
    }
    for (k, x) in stns.iter().enumerate() {
        let n = &names[k];
        t.ensure(built[n].scheduler.is_none() && built[n].sampling == s(x.sampling), || format!("{n}: {:?}", built[n]))?;
        let tol = 0.6 + x.align.unwrap_or(0.0);
        let (on, off) = match x.cadence {
            Cadence::Continuous => (1e12, 0.0),
            Cadence::Intermittent { on, off } => (on.to_seconds(), off.to_seconds()),
        };
        let mut used = vec![];
        for (i, (a, b)) in strands[k].iter().enumerate() {
            t.ensure(a <= b, || format!("{n}: strand [{a:.2}, {b:.2}] ends before it starts"))?;
            let p = all[k].iter().position(|p| *a >= p.0 - tol && *b <= p.1 + tol).ok_or_else(|| format!("{n}: strand [{a:.2}, {b:.2}] is not within one of its passes {:?}", all[k]))?;
            t.ensure(!used.contains(&p), || format!("{n}: two strands for pass {:?}", all[k][p]))?;
            used.push(p);
            let (rise, fall) = all[k][p];
            let delayed = flat.iter().any(|g| g.0 != k && stns[g.0].handoff == Handoff::Greedy && (g.2 + x.sampling - a).abs() < 1e-3);
            let rested = i > 0 && (strands[k][i - 1].1 + off - a).abs() < 1e-3;
            t.ensure((a - rise).abs() <= tol || delayed || (off > 0.0 && rested), || format!("{n}: strand starts at {a:.2}, although its pass starts at {rise:.2}"))?;
            // Rounded to the nearest sample time.
            let near = |got: f64, want: f64| {
                let al = x.align.unwrap_or(0.0);
                (got - want).abs() <= 0.6 + al / 2.0 && (al == 0.0 || (got / al - (got / al).round()).abs() < 1e-6)
            };
            let late = x.align.is_some() && rise - from < 1e-6;
            t.ensure(near(*a, rise) || late || delayed || (off > 0.0 && rested), || format!("{n}: strand starts at {a:.2}, but its pass at {rise:.2}: not the nearest multiple of {:?} s", x.align))?;
            // Handed off to another station, even if that one had to hand off at once.
            let cut = x.handoff == Handoff::Eager
                && (flat.iter().any(|g| g.0 != k && (g.1 - x.sampling - b).abs() < 1e-3)
                    || (0..stns.len()).any(|j| j != k && all[j].iter().any(|p| (p.0 - x.sampling - b).abs() < tol)));
            let over = (b - a - on).abs() < 1e-3;
            t.ensure(near(*b, fall) || cut || over || to - fall < 1e-6, || format!("{n}: strand ends at {b:.2}, but its pass at {fall:.2}: not the nearest multiple of {:?} s", x.align))?;
            t.ensure((b - fall).abs() <= tol || cut || over, || format!("{n}: strand ends at {b:.2}, although its pass ends at {fall:.2}"))?;
            t.ensure(b - a <= on + 1e-3, || format!("{n}: tracking for {:.2} s, more than {on} s", b - a))?;
            if i > 0 {
                let e = strands[k][i - 1].1;
                t.ensure(*a - e >= off - 1e-3, || format!("{n}: off for {:.2} s, less than {off} s", a - e))?;
            }
        }
        // A pass is only skipped because of the others or of the cadence.
        for (p, (rise, fall)) in all[k].iter().enumerate() {
            if used.contains(&p) {
                continue;
            }
            let mut cur = *rise;
            while let Some(g) = flat.iter().find(|g| g.0 != k && stns[g.0].handoff == Handoff::Greedy && g.1 <= cur + tol && g.2 >= cur - tol) {
                cur = g.2 + x.sampling.max(2.0 * tol);
            }
            let covered = cur > fall - tol;
            let cut = x.handoff == Handoff::Eager && flat.iter().any(|g| g.0 != k && g.1 >= cur - 2.0 * tol && g.1 <= cur + x.sampling + 2.0 * tol);
            let resting = off > 0.0 && strands[k].iter().any(|y| y.1 <= *fall && y.1 + off >= fall - tol);
            t.ensure(covered || cut || resting, || format!("{n}: pass [{rise:.2}, {fall:.2}] is not scheduled: {:?}", strands))?;
        }
    }
    // Nobody tracks at the same time unless the first one allows for it.
    for f in &flat {
        for g in &flat {
            if f.0 != g.0 && f.1 < g.1 && stns[f.0].handoff != Handoff::Overlap {
                t.ensure(f.2 < g.1, || format!("S{} ({:?}) on [{:.2}, {:.2}] overlaps S{} on [{:.2}, {:.2}]", f.0, stns[f.0].handoff, f.1, f.2, g.0, g.1, g.2))?;
            }
        }
    }
    // The schedule is then what gets measured.
    sim.build_schedule(&alm).map_err(|e| e.to_string())?;
    t.ensure(sim.configs == built, || "building the schedule differs from generating it".into())?;
    let arc = sim.generate_measurements(&alm).map_err(|e| e.to_string())?;
    t.steps(2);
    ordered(t, &arc)?;
    let mut count = 0;
    for (k, x) in stns.iter().enumerate() {
        for st in built[&names[k]].strands.as_ref().unwrap() {
            for e in samples(st, s(x.sampling)) {
                let Ok(o) = tr.at(e) else { continue };
                let w = look_eci(&SITES[x.site], o.orbit.radius_km, o.orbit.velocity_km_s, e).el - x.mask;
                let m = arc.measurements.iter().any(|m| m.epoch == e && m.tracker == names[k]);
                count += m as usize;
                if w.abs() > 1e-4 {
                    t.ensure(m == (w > 0.0), || format!("{} at {:.2} s: {w:.3} deg above the mask, but measured: {m}", names[k], el(e)))?;
                }
            }
        }
    }
    t.ensure(count == arc.measurements.len(), || format!("{} measurements, {count} of them scheduled", arc.measurements.len()))
}

pub fn c21(tier: Tier) -> Space {
    let mut sp = Space::new(
        "one to three (thorough: four) stations with separate, overlapping, or nested passes x every assignment of handoff policies x cadences x minimum samples x alignments x sampling rates x orbits: the schedule vs passes computed from independent geometry, then the measurements it yields",
    );
    sp.assumptions.push("Passes whose length is within one sample of the minimum, or below a minute, are not judged.".into());
    let pol = [Handoff::Eager, Handoff::Greedy, Handoff::Overlap];
    let base = |site: usize, mask: f64, h: Handoff| Stn { site, mask, handoff: h, cadence: Cadence::Continuous, min: 3, align: None, sampling: 20.0 };
    // One station: minimum, alignment, cadence.
    for i in 0..ORBITS.len() {
        for site in 0..3usize {
            for (mn, min) in [("1", 1), ("20", 20)] {
                for (an, align, from) in [("none", None, 0.0), ("1s", Some(1.0), 0.3), ("10s", Some(10.0), 2.0), ("1s-late", Some(1.0), 0.8), ("5m", Some(300.0), 100.0)] {
                    for (cn, cad) in [
                        ("cont", Cadence::Continuous),
                        ("on", Cadence::Intermittent { on: s(300.0), off: s(1.0) }),
                        ("off", Cadence::Intermittent { on: s(1e5), off: s(15_000.0) }),
                        ("onoff", Cadence::Intermittent { on: s(200.0), off: s(5_000.0) }),
                    ] {
                        let mut x = base(site, 0.0, Handoff::Eager);
                        x.min = min;
                        x.align = align;
                        x.cadence = cad;
                        sp.push(format!("one/{}/{site}/{mn}/{an}/{cn}", ORBITS[i].0), move |t| sched_case(t, i, from, 40_000.0, &[x.clone()]));
                    }
                }
            }
        }
    }
    // Cadences at the edge of what the first two passes allow for, in all alignments.
    for i in 0..ORBITS.len() {
        for site in 0..3usize {
            for (an, align, from) in [("none", None, 0.0), ("1s", Some(1.0), 0.3), ("10s", Some(10.0), 2.0)] {
                for d in (-6..=6i32).filter(|d| tier.thorough() || [-4, -2, 0, 2, 5].contains(d)) {
                    for k in 0..3 {
                        let mut x = base(site, 0.0, Handoff::Eager);
                        x.align = align;
                        x.min = 1;
                        sp.push(format!("edge/{}/{site}/{an}/{}/{d}", ORBITS[i].0, ["on", "off", "lost"][k]), move |t| {
                            let mut x = x.clone();
                            let ps = passes(&arc_of(i, from, 40_000.0, 60.0), &SITES[site], 0.0)?;
                            if ps.len() < 2 {
                                return Ok(());
                            }
                            let (p, q) = (ps[0], ps[1]);
                            let d = d as f64 + 0.25;
                            let (on, off) = match k {
                                0 => (q.1 - q.0 + d, 1.0),
                                1 => (1e6, q.0 - p.1 + d),
                                _ => (1e6, q.1 - p.1 + d),
                            };
                            x.cadence = Cadence::Intermittent { on: s(on), off: s(off) };
                            sched_case(t, i, from, 40_000.0, &[x])
                        });
                    }
                }
            }
        }
    }
    // Several stations: all policies.
    let groups: Vec<(&str, Vec<(usize, f64, f64)>)> = vec![
        ("apart2", vec![(0, 0.0, 20.0), (1, 0.0, 20.0)]),
        ("near2", vec![(0, 0.0, 20.0), (4, 0.0, 30.0)]),
        ("nested2", vec![(0, 0.0, 20.0), (5, 15.0, 10.0)]),
        ("apart3", vec![(0, 0.0, 20.0), (1, 0.0, 20.0), (2, 0.0, 20.0)]),
        ("near3", vec![(0, 0.0, 20.0), (3, 0.0, 20.0), (4, 0.0, 20.0)]),
        ("nested3", vec![(0, 12.0, 20.0), (3, 0.0, 15.0), (5, 25.0, 10.0)]),
        ("nested3b", vec![(5, 0.0, 10.0), (4, 20.0, 20.0), (3, 8.0, 30.0)]),
    ];
    for (gn, g) in &groups {
        for i in 0..ORBITS.len() {
            for ps in product(&vec![3; g.len()]) {
                let st: Vec<Stn> = g
                    .iter()
                    .zip(&ps)
                    .map(|(x, p)| {
                        let mut b = base(x.0, x.1, pol[*p]);
                        b.sampling = x.2;
                        b
                    })
                    .collect();
                let tag: String = ps.iter().map(|p| ["e", "g", "o"][*p]).collect();
                sp.push(format!("many/{gn}/{}/{tag}", ORBITS[i].0), move |t| sched_case(t, i, 0.0, 30_000.0, &st));
            }
        }
    }
    if tier.thorough() {
        for i in 0..ORBITS.len() {
            for ps in product(&[3; 4]) {
                for (vn, v) in [("a", [(0, 0.0), (3, 5.0), (4, 10.0), (5, 20.0)]), ("b", [(5, 0.0), (0, 15.0), (3, 0.0), (4, 0.0)])] {
                    let st: Vec<Stn> = (0..4).map(|k| base(v[k].0, v[k].1, pol[ps[k]])).collect();
                    let tag: String = ps.iter().map(|p| ["e", "g", "o"][*p]).collect();
                    sp.push(format!("four{vn}/{}/{tag}", ORBITS[i].0), move |t| sched_case(t, i, 0.0, 30_000.0, &st));
                }
            }
        }
    }
    // A configuration from its sampling alone aligns on it.
    for i in 0..ORBITS.len() {
        for sampling in [10.0, 30.0, 60.0] {
            sp.push(format!("rate/{}/{sampling}", ORBITS[i].0), move |t| {
                let c = TrkConfig::from_sample_rate(s(sampling));
                let sch = c.scheduler.ok_or("no scheduler")?;
                t.ensure(c.sampling == s(sampling) && c.strands.is_none() && sch.sample_alignment == Some(s(sampling)), || format!("{c:?}"))?;
                let x = Stn { site: 1, mask: 0.0, handoff: sch.handoff, cadence: sch.cadence, min: sch.min_samples, align: Some(sampling), sampling };
                sched_case(t, i, 7.0, 40_000.0, &[x])
            });
        }
    }
    // Nothing in view: an empty schedule.
    sp.push("nothing", move |t| {
        let alm = almanac();
        let tr = arc_of(2, 0.0, 3600.0, 60.0);
        let mut seen = 0;
        for site in 0..3 {
            if passes(&tr, &SITES[site], 0.0)?.is_empty() {
                seen += 1;
                let devices: BTreeMap<String, GroundStation> = [("S".to_string(), station("S", SITES[site], 0.0, true))].into();
                let configs: BTreeMap<String, TrkConfig> = [("S".to_string(), TrkConfig::default())].into();
                let mut sim = TrackingArcSim::with_seed(devices, tr.clone(), configs, 5).map_err(|e| e.to_string())?;
                sim.build_schedule(&alm).map_err(|e| e.to_string())?;
                let arc = sim.generate_measurements(&alm).map_err(|e| e.to_string())?;
                t.ensure(arc.measurements.is_empty(), || "measurements of a spacecraft never in view".into())?;
            }
        }
        t.ensure(seen > 0, || "HARNESS: no station without a view".into())
    });
    sp
}
