//! C22: stochastic models, and how they enter simulated and computed observations.
use crate::core::*;
use crate::od::{od_prior, od_prop};
use crate::sim::{SITES, station};
use crate::traj::{on_orbit, traj_of};
use crate::world::*;
use hifitime::{Duration, Epoch, Unit};
use indexmap::IndexSet;
use nalgebra::{Const, Vector3};
use nyx_space::Spacecraft;
use nyx_space::dynamics::SpacecraftDynamics;
use nyx_space::od::GroundStation;
use nyx_space::od::blse::{BLSSolver, BatchLeastSquares};
use nyx_space::od::estimate::{Estimate, KfEstimate};
use nyx_space::od::interlink::InterlinkTxSpacecraft;
use nyx_space::od::kalman::KalmanVariant;
use nyx_space::od::msr::{MeasurementType as M, TrackingDataArc};
use nyx_space::od::noise::link_specific::{CN0, CarrierFreq, ChipRate, SN0};
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, Stochastics, WhiteNoise};
use nyx_space::od::position::PositionDevice;
use nyx_space::od::process::KalmanODProcess;
use nyx_space::od::simulator::{Strand, TrackingArcSim, TrackingDevice, TrkConfig};
use rand_pcg::Pcg64Mcg;
use std::collections::BTreeMap;

const C: f64 = 299_792.458;

fn mean_noise(mean: f64) -> StochasticNoise {
    StochasticNoise { white_noise: Some(WhiteNoise { mean, sigma: 0.0 }), bias: None }
}
fn constant(c: f64, sigma: f64) -> StochasticNoise {
    StochasticNoise { white_noise: Some(WhiteNoise { mean: 0.0, sigma }), bias: Some(GaussMarkov { constant: Some(c), ..GaussMarkov::ZERO }) }
}
fn ep(k: usize) -> Epoch {
    t0() + s(37.0 * k as f64)
}
fn offset(ty: M) -> f64 {
    0.3 + ty as u8 as f64 * 0.11
}
fn arc_traj(i: usize, span: f64) -> nyx_space::md::trajectory::Traj<Spacecraft> {
    let o = zoo(i);
    traj_of((0..=(span / 20.0) as usize).map(|k| on_orbit(&o, s(20.0 * k as f64), 50.0)).collect())
}
/// Ordered selections of the items.
fn orders<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    for mask in 1..1usize << v.len() {
        let sub: Vec<T> = (0..v.len()).filter(|k| mask >> k & 1 == 1).map(|k| v[k].clone()).collect();
        for p in permutations(sub.len()) {
            out.push(p.iter().map(|k| sub[*k].clone()).collect());
        }
    }
    out
}

pub fn c22(tier: Tier) -> Space {
    let mut sp = Space::new(
        "grids of hardware parameters x models; every combination of white noise, Gauss-Markov bias and constant x seeds x epoch sequences; every device x ordered subset of measurement types x integration time: which noise enters which observation; simulated biased arcs processed by each filter",
    );
    sp.assumptions.push("The distribution of Gauss-Markov samples past the first epoch is not judged.".into());
    // 1. Hardware models.
    let sn0s = [(SN0::Strong(), 65.0), (SN0::Average(), 50.0), (SN0::Poor(), 40.0), (SN0::ManualDbHz(43.2), 43.2), (SN0::ManualDbHz(0.0), 0.0)];
    let cn0s = [(CN0::Strong(), 70.0), (CN0::Average(), 55.0), (CN0::Poor(), 45.0), (CN0::ManualDbHz(43.2), 43.2), (CN0::ManualDbHz(0.0), 0.0)];
    let chips = [(ChipRate::Lowest(), 1e3), (ChipRate::Low(), 1e5), (ChipRate::StandardT4B(), 1e6), (ChipRate::High(), 1e7), (ChipRate::VeryHigh(), 2.5e7), (ChipRate::ManualHz(3.3e6), 3.3e6)];
    let freqs = [(CarrierFreq::SBand(), 2.2e9), (CarrierFreq::XBand(), 8.4e9), (CarrierFreq::KaBand(), 32e9), (CarrierFreq::ManualHz(1.5e9), 1.5e9)];
    sp.push("hardware", move |t| {
        for pr in [1.0, 40.0, 2e3, 1e7] {
            for bw in [1.0, 1e3, 2.5e6, 3e9] {
                t.step();
                let w = WhiteNoise::from_pr_n0(pr, bw);
                let want = C / (2.0 * bw * pr.sqrt());
                t.close("sigma from Pr/N0", w.sigma, want, 1e-12 * want)?;
                t.close("mean from Pr/N0", w.mean, 0.0, 0.0)?;
            }
        }
        for ad in [0.0, 1e-14, 3.8e-13, 1e-10] {
            for it in [0.1, 1.0, 60.0, 3600.0] {
                for (sn, db) in sn0s {
                    for (ch, rate) in chips {
                        let n = StochasticNoise::from_hardware_range_km(ad, s(it), ch, sn);
                        let th = C / (std::f64::consts::TAU * rate * (2.0 * 10f64.powf(db / 10.0)).sqrt());
                        let ck = C * ad * it / 3f64.sqrt();
                        let w = (th * th + ck * ck).sqrt();
                        t.step();
                        let wn = n.white_noise.ok_or("no white noise")?;
                        t.ensure(n.bias.is_none() && wn.mean == 0.0, || format!("{n}"))?;
                        t.close("range sigma / expected", wn.sigma / w, 1.0, 1e-12)?;
                        t.close("variance", n.covariance(t0()) / (w * w), 1.0, 1e-12)?;
                        t.see_f(&[wn.sigma.ln()]);
                    }
                }
                for (cn, db) in cn0s {
                    for (fq, f) in freqs {
                        let n = StochasticNoise::from_hardware_doppler_km_s(ad, s(it), fq, cn);
                        let th = C / (std::f64::consts::TAU * f * (2.0 * 10f64.powf(db / 10.0) * it).sqrt());
                        let w = (th * th + (C * ad).powi(2)).sqrt();
                        t.step();
                        let wn = n.white_noise.ok_or("no white noise")?;
                        t.ensure(n.bias.is_none() && wn.mean == 0.0, || format!("{n}"))?;
                        t.close("Doppler sigma / expected", wn.sigma / w, 1.0, 1e-12)?;
                        t.close("variance", n.covariance(t0()) / (w * w), 1.0, 1e-12)?;
                        t.see_f(&[wn.sigma.ln()]);
                    }
                }
            }
        }
        for pr in [1.0, 1e3, 1e6] {
            for b in [1e3, 1e6] {
                let w = WhiteNoise::from_pr_n0(pr, b);
                t.close("sigma from Pr/N0", w.sigma, C / (2.0 * b * f64::sqrt(pr)), 1e-12 * w.sigma)?;
            }
        }
        for q in [0.0, 1e-3, 2.0] {
            t.close("constant white noise", WhiteNoise::constant_white_noise(q).sigma, q, 0.0)?;
            for it in [0.5, 1.0, 60.0] {
                let w = WhiteNoise::new(q, s(it)).map_err(|e| e.to_string())?;
                t.close("white noise per second", w.sigma, q / it, 1e-15)?;
            }
            t.ensure(WhiteNoise::new(q, Duration::ZERO).is_err() && WhiteNoise::new(q, s(-1.0)).is_err(), || "no error for an invalid integration time".into())?;
            t.ensure(GaussMarkov::new(Duration::ZERO, q).is_err() && GaussMarkov::new(s(-1.0), q).is_err(), || "no error for an invalid time constant".into())?;
        }
        t.ensure(WhiteNoise::new(-1.0, s(1.0)).is_err(), || "no error for a negative noise".into())
    });
    // 2. Sampling.
    let whites = [None, Some((0.0, 1e-3)), Some((0.5, 0.0)), Some((-2.0, 0.1))];
    let biases = [None, Some((60.0, 1e-3)), Some((3600.0, 0.2)), Some((1.0, 0.0))];
    for (wi, wn) in whites.into_iter().enumerate() {
        for (bi, gm) in biases.into_iter().enumerate() {
            for (ci, cst) in [None, Some(0.0), Some(7.5), Some(-1e-3)].into_iter().enumerate() {
                sp.push(format!("sample/{wi}/{bi}/{ci}"), move |t| {
                    for seed in 0..tier.pick(8u128, 64) {
                        let white = wn.map(|(mean, sigma)| WhiteNoise { mean, sigma });
                        let bias = gm.map(|(tau, q)| {
                            let mut g = GaussMarkov::new(s(tau), q).unwrap();
                            g.constant = cst;
                            g
                        });
                        let (mut w2, mut b2) = (white, bias.map(|mut b| { b.constant = None; b }));
                        let mut n = StochasticNoise { white_noise: white, bias };
                        let (mut r1, mut r2) = (Pcg64Mcg::new(seed * 977), Pcg64Mcg::new(seed * 977));
                        let var = wn.map_or(0.0, |x| x.1 * x.1) + gm.map_or(0.0, |x| x.1 * x.1);
                        let add = if gm.is_some() { cst.unwrap_or(0.0) } else { 0.0 };
                        for (j, k) in [0usize, 0, 1, 2, 2, 50, 900].into_iter().enumerate() {
                            t.step();
                            t.close("variance", n.covariance(ep(k)), var, 1e-15)?;
                            let got = n.sample(ep(k), &mut r1);
                            let mut want = add;
                            let mut first = 0.0;
                            if let Some(w) = w2.as_mut() {
                                first = w.sample(ep(k), &mut r2);
                                want += first;
                                t.ensure((first - w.mean).abs() <= 9.0 * w.sigma, || format!("white noise sample {first} for {w:?}"))?;
                            }
                            if let Some(b) = b2.as_mut() {
                                let x = b.sample(ep(k), &mut r2);
                                if j == 0 {
                                    t.ensure(x.abs() <= 9.0 * b.process_noise, || format!("initial bias {x} for {b}"))?;
                                }
                                want += x;
                            }
                            t.close("sample as the sum of its parts", got, want, 1e-12 * (1.0 + want.abs()))?;
                            t.see_f(&[got * 1e3]);
                            if white.is_none() && bias.is_none() {
                                t.ensure(got == 0.0, || format!("noiseless sample {got}"))?;
                            }
                            let _ = first;
                        }
                        // The bias does not change without time passing.
                        if let Some(mut b) = bias {
                            let mut r = Pcg64Mcg::new(seed * 31 + 5);
                            let x = b.sample(ep(3), &mut r);
                            t.ensure(b.sample(ep(3), &mut r) == x, || "the bias changed although no time passed".into())?;
                            // Shortly after, the bias barely moved; long after, it is still a bounded process.
                            let y = b.sample(ep(3) + ns(1000), &mut r);
                            let (tau, q) = gm.unwrap();
                            t.close("bias after a microsecond", y, x, 1e-12 + 20.0 * q * (1.0 + tau) * 1e-6 / tau)?;
                            for k in [4, 10, 100, 5000] {
                                let y = b.sample(ep(k), &mut r) - cst.unwrap_or(0.0);
                                t.ensure(y.abs() <= 9.0 * q * (1.0 + 0.5 * tau), || format!("bias of {y} after {k} steps"))?;
                            }
                        }
                        // Scaling.
                        for k in [0.0, 0.5, 3.0] {
                            let mut base = StochasticNoise { white_noise: white.map(|w| WhiteNoise { mean: 0.0, ..w }), bias: b2 };
                            if let Some(b) = base.bias.as_mut() {
                                b.init_sample = None;
                                b.prev_epoch = None;
                            }
                            let mut scaled = base * k;
                            let mut assigned = base;
                            assigned *= k;
                            t.ensure(scaled == assigned, || "scaling in place differs".into())?;
                            let (mut r1, mut r2) = (Pcg64Mcg::new(seed + 9), Pcg64Mcg::new(seed + 9));
                            for j in 0..4 {
                                let (a, b) = (base.sample(ep(j), &mut r1), scaled.sample(ep(j), &mut r2));
                                t.close("scaled sample", b, a * k, 1e-12 * (1.0 + a.abs()))?;
                            }
                            t.close("scaled variance", scaled.covariance(t0()), base.covariance(t0()) * k * k, 1e-12)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    for (n, z) in [("zero", StochasticNoise::ZERO), ("gm", StochasticNoise { white_noise: None, bias: Some(GaussMarkov::ZERO) })] {
        sp.push(format!("noiseless/{n}"), move |t| {
            let mut z = z;
            let mut r = Pcg64Mcg::new(3);
            for k in 0..50 {
                t.step();
                let x = z.sample(ep(k), &mut r);
                t.ensure(x == 0.0 && z.covariance(ep(k)) == 0.0, || format!("noiseless sample {x}"))?;
            }
            Ok(())
        });
    }
    // 3. Which noise enters which observation.
    for types in orders(&[M::Range, M::Doppler, M::Azimuth, M::Elevation]) {
        for it in [None, Some(60.0)] {
            let tag: String = types.iter().map(|x| format!("{x:?}").chars().take(2).collect::<String>()).collect();
            let types = types.clone();
            sp.push(format!("station/{tag}/{}", it.unwrap_or(0.0)), move |t| {
                let alm = almanac();
                let tr = arc_traj(1, 7200.0);
                for ts in [None, Some(0.25)] {
                    let mut g = station("g", SITES[1], 0.0, false).with_integration_time(it.map(s));
                    g.measurement_types = IndexSet::new();
                    // Noises configured in another order than the measurement types.
                    let mut noises = IndexSet::new();
                    noises.insert(M::Elevation);
                    let mut order = types.clone();
                    order.reverse();
                    g.stochastic_noises = Some(order.iter().map(|x| (*x, mean_noise(offset(*x)))).collect());
                    g.measurement_types = types.iter().copied().collect();
                    g.timestamp_noise_s = ts.map(mean_noise);
                    let scale = if it.is_some() { 0.5f64.sqrt() } else { 1.0 };
                    let mut rng = Pcg64Mcg::new(4);
                    let mut seen = 0;
                    for k in 0..60 {
                        let e = t0() + s(60.0 + 119.0 * k as f64);
                        let a = g.measure(e, &tr, None, &alm).map_err(|e| e.to_string())?;
                        let b = g.measure(e, &tr, Some(&mut rng), &alm).map_err(|e| e.to_string())?;
                        t.step();
                        t.ensure(a.is_some() == b.is_some(), || "noise changes the visibility".into())?;
                        if let (Some(a), Some(b)) = (a, b) {
                            seen += 1;
                            t.ensure(a.epoch == e, || "the noiseless measurement is shifted in time".into())?;
                            t.close("time shift", (b.epoch - e).to_seconds(), ts.unwrap_or(0.0), 1e-9)?;
                            for ty in &types {
                                t.close(&format!("noise of {ty:?}"), b.data[ty] - a.data[ty], offset(*ty) * scale, 1e-9)?;
                            }
                        }
                    }
                    t.ensure(seen > 5, || format!("HARNESS: {seen} measurements"))?;
                    // Variances, as a matrix in the requested order. Each type has a constant bias, a bias without constant, or no bias.
                    for (ask, kinds) in orders(&types).into_iter().flat_map(|a| product(&vec![3; types.len()]).into_iter().map(move |k| (a.clone(), k))) {
                        let mut h = g.clone();
                        let kind = |x: M| kinds[types.iter().position(|y| *y == x).unwrap()];
                        let noise = |x: M| {
                            let mut n = constant(offset(x), offset(x) * 0.1);
                            match kind(x) {
                                1 => n.bias.as_mut().unwrap().constant = None,
                                2 => n.bias = None,
                                _ => {}
                            }
                            n
                        };
                        h.stochastic_noises = Some(types.iter().map(|x| (*x, noise(*x))).collect());
                        let set: IndexSet<M> = ask.iter().copied().collect();
                        let r = h.measurement_covar_matrix::<Const<4>>(&set, t0()).map_err(|e| e.to_string())?;
                        let b = h.measurement_bias_vector::<Const<4>>(&set, t0()).map_err(|e| e.to_string())?;
                        t.step();
                        for i in 0..4 {
                            for j in 0..4 {
                                if i == j && i >= ask.len() {
                                    continue;
                                }
                                let w = if i == j { (offset(ask[i]) * 0.1).powi(2) } else { 0.0 };
                                t.close("covariance matrix", r[(i, j)], w, 1e-15)?;
                            }
                            t.close("bias vector", b[i], if i < ask.len() && kind(ask[i]) == 0 { offset(ask[i]) } else { 0.0 }, 1e-15)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    for types in orders(&[M::X, M::Y, M::Z]) {
        let tag: String = types.iter().map(|x| format!("{x:?}")).collect();
        sp.push(format!("position/{tag}"), move |t| {
            let alm = almanac();
            let tr = arc_traj(1, 7200.0);
            let mut d = PositionDevice::new("p".into());
            for ty in &types {
                d = d.with_noise(*ty, mean_noise(offset(*ty)));
            }
            let mut rng = Pcg64Mcg::new(4);
            for k in 0..30 {
                let e = t0() + s(119.0 * k as f64);
                let a = d.measure(e, &tr, None, &alm).map_err(|e| e.to_string())?.ok_or("no measurement")?;
                let b = d.measure(e, &tr, Some(&mut rng), &alm).map_err(|e| e.to_string())?.ok_or("no measurement")?;
                t.step();
                for ty in &types {
                    t.close(&format!("noise of {ty:?}"), b.data[ty] - a.data[ty], offset(*ty), 1e-9)?;
                }
            }
            // What it tells a filter.
            for kinds in product(&vec![3; types.len()]) {
                let mut d = PositionDevice::new("p".into());
                for (x, k) in types.iter().zip(&kinds) {
                    let mut n = constant(offset(*x), offset(*x) * 0.1);
                    match k {
                        1 => n.bias.as_mut().unwrap().constant = None,
                        2 => n.bias = None,
                        _ => {}
                    }
                    d = d.with_noise(*x, n);
                }
                for (x, k) in types.iter().zip(&kinds) {
                    t.step();
                    t.close("bias", d.measurement_bias(*x, t0()).map_err(|e| e.to_string())?, if *k == 0 { offset(*x) } else { 0.0 }, 1e-15)?;
                    t.close("variance", d.measurement_covar(*x, t0()).map_err(|e| e.to_string())?, (offset(*x) * 0.1).powi(2), 1e-15)?;
                }
            }
            // Without any noise at all.
            let mut d = PositionDevice::new("p".into());
            d.stochastic_noises = None;
            for ty in &types {
                t.step();
                t.close("bias of a noiseless device", d.measurement_bias(*ty, t0()).map_err(|e| e.to_string())?, 0.0, 0.0)?;
                t.close("variance of a noiseless device", d.measurement_covar(*ty, t0()).map_err(|e| e.to_string())?, 0.0, 0.0)?;
            }
            Ok(())
        });
    }
    for types in orders(&[M::Range, M::Doppler]) {
        for it in [None, Some(60.0)] {
            let tag: String = types.iter().map(|x| format!("{x:?}").chars().take(2).collect::<String>()).collect();
            let types = types.clone();
            sp.push(format!("link/{tag}/{}", it.unwrap_or(0.0)), move |t| {
                let alm = almanac();
                let (tr, mut tx) = (arc_traj(1, 7200.0), arc_traj(2, 7200.0));
                tx.name = Some("tx".into());
                let mut d = InterlinkTxSpacecraft {
                    traj: tx,
                    measurement_types: types.iter().copied().collect(),
                    integration_time: it.map(s),
                    timestamp_noise_s: Some(mean_noise(0.5)),
                    stochastic_noises: Some(types.iter().rev().map(|x| (*x, mean_noise(offset(*x)))).collect()),
                    ab_corr: None,
                };
                let scale = if it.is_some() { 0.5f64.sqrt() } else { 1.0 };
                let mut rng = Pcg64Mcg::new(4);
                let mut seen = 0;
                for k in 0..50 {
                    let e = t0() + s(60.0 + 119.0 * k as f64);
                    let a = <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut d, e, &tr, None, &alm).map_err(|e| e.to_string())?;
                    let b = <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut d, e, &tr, Some(&mut rng), &alm).map_err(|e| e.to_string())?;
                    t.step();
                    t.ensure(a.is_some() == b.is_some(), || "noise changes the visibility".into())?;
                    if let (Some(a), Some(b)) = (a, b) {
                        seen += 1;
                        t.close("time shift", (b.epoch - a.epoch).to_seconds(), 0.5, 1e-9)?;
                        for ty in &types {
                            t.close(&format!("noise of {ty:?}"), b.data[ty] - a.data[ty], offset(*ty) * scale, 1e-9)?;
                        }
                    }
                }
                for kinds in product(&vec![3; types.len()]) {
                    d.stochastic_noises = Some(
                        types
                            .iter()
                            .zip(&kinds)
                            .map(|(x, k)| {
                                let mut n = constant(offset(*x), offset(*x) * 0.1);
                                match k {
                                    1 => n.bias.as_mut().unwrap().constant = None,
                                    2 => n.bias = None,
                                    _ => {}
                                }
                                (*x, n)
                            })
                            .collect(),
                    );
                    for (x, k) in types.iter().zip(&kinds) {
                        t.step();
                        let b = <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measurement_bias(&d, *x, t0()).map_err(|e| e.to_string())?;
                        let v = <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measurement_covar(&d, *x, t0()).map_err(|e| e.to_string())?;
                        t.close("bias of the link", b, if *k == 0 { offset(*x) } else { 0.0 }, 1e-15)?;
                        t.close("variance of the link", v, (offset(*x) * 0.1).powi(2), 1e-15)?;
                    }
                }
                t.ensure(seen > 5, || format!("HARNESS: {seen} measurements"))
            });
        }
    }
    // The same for ground assets which listen to a spacecraft.
    for types in orders(&[M::Range, M::Doppler]) {
        for it in [None, Some(60.0)] {
            let tag: String = types.iter().map(|x| format!("{x:?}").chars().take(2).collect::<String>()).collect();
            let types = types.clone();
            sp.push(format!("asset/{tag}/{}", it.unwrap_or(0.0)), move |t| {
                use nyx_space::od::groundpnt::GroundAsset;
                let alm = almanac();
                let p = crate::pnt::under(1, 1500.0, 8.0, 5.0);
                let x = [p[0], p[1], p[2], 2e-4, -3e-4, 0.0];
                let mut tr = nyx_space::md::trajectory::Traj::<GroundAsset>::new();
                for k in 0..=30 {
                    let e = k as f64 * 100.0;
                    tr.states.push(crate::pnt::asset(crate::pnt::moved(&x, e), t0() + s(e), crate::pnt::fixed()));
                }
                tr.finalize();
                for ts in [None, Some(0.25), Some(-0.5)] {
                    for sign in [1.0, -1.0] {
                        let mut d = crate::pnt::transmitter(1, &types, it);
                        d.timestamp_noise_s = ts.map(mean_noise);
                        d.stochastic_noises = Some(types.iter().rev().map(|x| (*x, mean_noise(sign * offset(*x)))).collect());
                        let scale = if it.is_some() { 0.5f64.sqrt() } else { 1.0 };
                        let mut rng = Pcg64Mcg::new(4);
                        let mut seen = 0;
                        for k in 0..60 {
                            let e = t0() + s(60.0 + 47.0 * k as f64);
                            let a = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure(&mut d, e, &tr, None, &alm).map_err(|e| e.to_string())?;
                            let b = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measure(&mut d, e, &tr, Some(&mut rng), &alm).map_err(|e| e.to_string())?;
                            t.step();
                            t.ensure(a.is_some() == b.is_some(), || "noise changes the visibility".into())?;
                            if let (Some(a), Some(b)) = (a, b) {
                                seen += 1;
                                t.close("time shift", (b.epoch - a.epoch).to_seconds(), ts.unwrap_or(0.0), 1e-9)?;
                                for ty in &types {
                                    t.close(&format!("noise of {ty:?}"), b.data[ty] - a.data[ty], sign * offset(*ty) * scale, 1e-9)?;
                                }
                            }
                        }
                        t.ensure(seen > 5, || format!("HARNESS: {seen} measurements"))?;
                        for kinds in product(&vec![3; types.len()]) {
                            d.stochastic_noises = Some(
                                types
                                    .iter()
                                    .zip(&kinds)
                                    .map(|(x, k)| {
                                        let mut n = constant(offset(*x), offset(*x) * 0.1);
                                        match k {
                                            1 => n.bias.as_mut().unwrap().constant = None,
                                            2 => n.bias = None,
                                            _ => {}
                                        }
                                        (*x, n)
                                    })
                                    .collect(),
                            );
                            for (x, k) in types.iter().zip(&kinds) {
                                t.step();
                                let b = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measurement_bias(&d, *x, t0()).map_err(|e| e.to_string())?;
                                let v = <InterlinkTxSpacecraft as TrackingDevice<GroundAsset>>::measurement_covar(&d, *x, t0()).map_err(|e| e.to_string())?;
                                t.close("bias of the link", b, if *k == 0 { offset(*x) } else { 0.0 }, 1e-15)?;
                                t.close("variance of the link", v, (offset(*x) * 0.1).powi(2), 1e-15)?;
                            }
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // 3b. A noise is a process: the samples it adds to the measurements of a device follow each other as those of the noise alone.
    // Only one of the noises is random, so that the order in which a device samples them does not matter.
    for dev in ["station", "link"] {
        for it in [None, Some(60.0)] {
            for which in 0..3usize {
                for kind in 0..4usize {
                    sp.push(format!("stream/{dev}/{}/{which}/{kind}", it.unwrap_or(0.0)), move |t| {
                        let alm = almanac();
                        let gm = GaussMarkov { constant: (kind == 3).then_some(0.04), ..GaussMarkov::new(s(7000.0), 2e-3).unwrap() };
                        let wn = WhiteNoise { mean: 0.02, sigma: 0.01 };
                        let noise = StochasticNoise { white_noise: (kind != 0).then_some(wn), bias: (kind != 1).then_some(gm) };
                        let types = [M::Range, M::Doppler];
                        let of = |k: usize| if which == k { noise } else { StochasticNoise::ZERO };
                        let st = Some(types.iter().enumerate().map(|(i, x)| (*x, of(i + 1))).collect());
                        let mut g = station("g", SITES[1], 0.0, false).with_integration_time(it.map(s));
                        g.measurement_types = types.into_iter().collect();
                        let mut tx = arc_traj(2, 7200.0);
                        tx.name = Some("tx".into());
                        let mut l = InterlinkTxSpacecraft { traj: tx, measurement_types: g.measurement_types.clone(), integration_time: it.map(s), timestamp_noise_s: Some(of(0)), stochastic_noises: None, ab_corr: None };
                        g.timestamp_noise_s = Some(of(0));
                        if dev == "station" {
                            g.stochastic_noises = st;
                        } else {
                            l.stochastic_noises = st;
                        }
                        let tr = arc_traj(1, 7200.0);
                        let (mut rng, mut alone, mut n) = (Pcg64Mcg::new(11), Pcg64Mcg::new(11), noise);
                        let scale = if it.is_some() && which > 0 { 0.5f64.sqrt() } else { 1.0 };
                        let mut seen = 0;
                        for k in 0..60 {
                            let e = t0() + s(60.0 + 119.0 * k as f64);
                            let (a, b) = if dev == "station" {
                                (g.measure(e, &tr, None, &alm), g.measure(e, &tr, Some(&mut rng), &alm))
                            } else {
                                (
                                    <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut l, e, &tr, None, &alm),
                                    <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut l, e, &tr, Some(&mut rng), &alm),
                                )
                            };
                            let (a, b) = (a.map_err(|e| e.to_string())?, b.map_err(|e| e.to_string())?);
                            t.step();
                            if let (Some(a), Some(b)) = (a, b) {
                                seen += 1;
                                let want = n.sample(e, &mut alone);
                                t.see_f(&[want]);
                                t.close("noise of the time stamp", (b.epoch - e).to_seconds(), if which == 0 { want } else { 0.0 }, 2e-9)?;
                                for (i, ty) in types.iter().enumerate() {
                                    t.close(&format!("noise of {ty:?}"), b.data[ty] - a.data[ty], if which == i + 1 { want * scale } else { 0.0 }, 1e-9)?;
                                }
                            }
                        }
                        // What the device then tells a filter is its model, not what it happened to sample.
                        for (i, ty) in types.iter().enumerate() {
                            let e = t0() + s(7200.0);
                            let (b, v) = if dev == "station" {
                                (g.measurement_bias(*ty, e), g.measurement_covar(*ty, e))
                            } else {
                                (<InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measurement_bias(&l, *ty, e), <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measurement_covar(&l, *ty, e))
                            };
                            let mine = which == i + 1;
                            t.close(&format!("bias of {ty:?} after sampling"), b.map_err(|e| e.to_string())?, if mine && kind == 3 { 0.04 } else { 0.0 }, 0.0)?;
                            t.close(&format!("variance of {ty:?} after sampling"), v.map_err(|e| e.to_string())?, of(i + 1).covariance(t0()), 1e-15)?;
                        }
                        t.ensure(seen > 5, || format!("HARNESS: {seen} measurements"))
                    });
                }
            }
        }
    }
    // 3c. Simulating a noise over a day: every minute of it but those of the gap, in the file as in memory.
    for runs in [None, Some(0u32), Some(1), Some(3)] {
        for kind in 0..4usize {
            for unit in [None, Some("km")] {
                sp.push(format!("simulate/{}/{kind}/{}", runs.unwrap_or(99), unit.unwrap_or("none")), move |t| {
                    let gm = GaussMarkov { constant: (kind == 3).then_some(0.04), ..GaussMarkov::new(s(7000.0), 2e-3).unwrap() };
                    let wn = WhiteNoise { mean: 0.02, sigma: if kind == 1 { 0.0 } else { 0.01 } };
                    let noise = StochasticNoise { white_noise: (kind != 0).then_some(wn), bias: (kind != 1).then_some(gm) };
                    let dir = scratch_dir(&format!("noise-{}-{kind}-{}", runs.unwrap_or(99), unit.unwrap_or("none")));
                    let f = dir.join("n.parquet");
                    let got = noise.simulate(&f, runs, unit.map(|x| x.to_string())).map_err(|e| e.to_string())?;
                    t.step();
                    let minutes: Vec<f64> = (0..=1440).filter(|m| *m <= 360 || *m >= 720).map(|m| m as f64 * 60.0).collect();
                    let n = runs.unwrap_or(25) as usize;
                    t.ensure(got.len() == n * minutes.len(), || format!("{} samples in {n} runs", got.len()))?;
                    for (k, x) in got.iter().enumerate() {
                        t.ensure(x.run as usize == k / minutes.len(), || format!("sample {k} is of run {}", x.run))?;
                        t.close("time of a sample", x.dt_s, minutes[k % minutes.len()], 1e-6)?;
                        t.ensure(x.sample.is_finite() && x.variance >= 0.0, || format!("{x:?}"))?;
                        if kind == 1 {
                            t.close("a noise without spread", x.sample, 0.02, 1e-15)?;
                            t.close("its variance", x.variance, 0.0, 0.0)?;
                        }
                        if kind != 0 {
                            t.ensure(x.variance >= wn.sigma * wn.sigma - 1e-15, || format!("variance {} below that of the white noise", x.variance))?;
                        }
                    }
                    if kind != 1 && n > 1 {
                        t.ensure((0..minutes.len()).any(|k| got[k].sample != got[minutes.len() + k].sample), || "two runs are the same".into())?;
                    }
                    let c = crate::traj::read_parquet(&f)?;
                    let u = unit.unwrap_or("unitless");
                    t.see_f(&[c.rows as f64, kind as f64]);
                    t.ensure(c.rows == got.len(), || format!("{} rows", c.rows))?;
                    for (col, val) in [("Delta Time (s)".to_string(), 0), (format!("Bias ({u})"), 1), (format!("Variance ({u})"), 2)] {
                        let want: Vec<Option<f64>> = got.iter().map(|x| Some([x.dt_s, x.sample, x.variance][val])).collect();
                        t.ensure(c.num.get(&col).cloned().unwrap_or_default() == want, || format!("column {col}: {:?}", c.num.keys()))?;
                    }
                    Ok(())
                });
            }
        }
    }
    // 4. Missing stochastics are errors.
    sp.push("missing", move |t| {
        let alm = almanac();
        let tr = arc_traj(1, 7200.0);
        let mut rng = Pcg64Mcg::new(4);
        let mut tx = arc_traj(2, 7200.0);
        tx.name = Some("tx".into());
        for part in [false, true] {
            let st = part.then(|| [(M::Doppler, mean_noise(0.0))].into_iter().collect());
            let mut g = station("g", SITES[1], 0.0, false);
            g.stochastic_noises = st.clone();
            let mut l = InterlinkTxSpacecraft { traj: tx.clone(), measurement_types: [M::Range].into_iter().collect(), integration_time: None, timestamp_noise_s: None, stochastic_noises: st, ab_corr: None };
            t.steps(6);
            t.ensure(g.measurement_covar(M::Range, t0()).is_err(), || "variance without stochastics".into())?;
            t.ensure(g.measurement_bias(M::Range, t0()).is_err(), || "bias without stochastics".into())?;
            t.ensure(<InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measurement_covar(&l, M::Range, t0()).is_err(), || "variance without stochastics".into())?;
            t.ensure(<InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measurement_bias(&l, M::Range, t0()).is_err(), || "bias without stochastics".into())?;
            let mut hit = 0;
            for k in 0..60 {
                let e = t0() + s(119.0 * k as f64);
                if g.measure(e, &tr, None, &alm).map_err(|e| e.to_string())?.is_some() {
                    hit += 1;
                    t.ensure(g.measure(e, &tr, Some(&mut rng), &alm).is_err(), || "noisy measurement without stochastics".into())?;
                }
                if <InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut l, e, &tr, None, &alm).map_err(|e| e.to_string())?.is_some() {
                    hit += 1;
                    t.ensure(<InterlinkTxSpacecraft as TrackingDevice<Spacecraft>>::measure(&mut l, e, &tr, Some(&mut rng), &alm).is_err(), || "noisy measurement without stochastics".into())?;
                }
            }
            t.ensure(hit > 10, || "HARNESS: nothing visible".into())?;
            t.ensure(g.clone().with_msr_bias_constant(M::Range, 1.0).is_err(), || "bias on a type without noise".into())?;
        }
        Ok(())
    });
    // 5. Building a station: every history of edits.
    for h in sequences(12, 1, tier.pick(3, 4)) {
        let tag: String = h.iter().map(|x| char::from(b'a' + *x as u8)).collect();
        sp.push(format!("build/{tag}"), move |t| {
            let tys = [M::Range, M::Doppler, M::Azimuth];
            let mut g = GroundStation::from_point("p".into(), 10.0, 20.0, 0.1, earth());
            let mut model: BTreeMap<u8, (f64, Option<f64>)> = BTreeMap::new();
            for (step, op) in h.iter().enumerate() {
                let ty = tys[op % 3];
                let val = 1.0 + step as f64;
                match op / 3 {
                    0 => {
                        g = g.with_msr_type(ty, mean_noise(val));
                        model.insert(ty as u8, (val, None));
                    }
                    1 => {
                        g = g.without_msr_type(ty);
                        model.remove(&(ty as u8));
                    }
                    2 => match g.clone().with_msr_bias_constant(ty, val) {
                        Ok(x) => {
                            t.ensure(model.contains_key(&(ty as u8)), || "bias set on a type which is not configured".into())?;
                            g = x;
                            model.get_mut(&(ty as u8)).unwrap().1 = Some(val);
                        }
                        Err(e) => t.ensure(!model.contains_key(&(ty as u8)), || format!("{e}"))?,
                    },
                    _ => g = g.with_integration_time(if op % 3 == 0 { None } else { Some(s(*op as f64)) }),
                }
                t.step();
                t.ensure(g.measurement_types.len() == model.len(), || format!("types {:?}", g.measurement_types))?;
                for ty in tys {
                    let got = g.stochastic_noises.as_ref().and_then(|m| m.get(&ty)).map(|n| (n.white_noise.unwrap().mean, n.bias.and_then(|b| b.constant)));
                    let want = model.get(&(ty as u8)).copied();
                    t.ensure(got == want && g.measurement_types.contains(&ty) == want.is_some(), || format!("{ty:?}: noise {got:?}, expected {want:?}"))?;
                    if let Some(w) = want {
                        t.close("bias", g.measurement_bias(ty, t0()).map_err(|e| e.to_string())?, w.1.unwrap_or(0.0), 0.0)?;
                    }
                }
            }
            let it = h.iter().rev().find(|x| **x >= 9).and_then(|x| if x % 3 == 0 { None } else { Some(s(*x as f64)) });
            t.ensure(g.integration_time == it, || "integration time".into())
        });
    }
    // 6. Simulated with biases, processed with biases: no residual.
    for (tn, types) in [("r", vec![M::Range]), ("d", vec![M::Doppler]), ("rd", vec![M::Range, M::Doppler])] {
        for (bn, bias) in [("none", [0.0, 0.0]), ("range", [3.0, 0.0]), ("doppler", [0.0, -2e-3]), ("both", [-40.0, 1e-2])] {
            for how in ["ckf", "ekf", "blse", "lm"] {
                let types = types.clone();
                sp.push(format!("closure/{tn}/{bn}/{how}"), move |t| {
                    let b = |ty: M| if ty == M::Range { bias[0] } else { bias[1] };
                    let alm = almanac();
                    let span = 5400.0;
                    let tr = arc_traj(1, span);
                    let mk = |sigma: f64| -> BTreeMap<String, GroundStation> {
                        (0..3)
                            .map(|k| {
                                let mut g = station(&format!("S{k}"), SITES[k], 0.0, false);
                                g.measurement_types = types.iter().copied().collect();
                                g.stochastic_noises = Some(types.iter().map(|x| (*x, constant(b(*x) * (1.0 + k as f64), if *x == M::Range { sigma } else { sigma * 1e-3 }))).collect());
                                (g.name.clone(), g)
                            })
                            .collect()
                    };
                    let cfgs: BTreeMap<String, TrkConfig> =
                        (0..3).map(|k| (format!("S{k}"), TrkConfig { scheduler: None, sampling: s(100.0 + 7.0 * k as f64), strands: Some(vec![Strand { start: t0() + s(60.0), end: t0() + s(span) }]) })).collect();
                    let arc: TrackingDataArc =
                        TrackingArcSim::with_seed(mk(0.0), tr.clone(), cfgs, 9).map_err(|e| e.to_string())?.generate_measurements(&alm).map_err(|e| e.to_string())?;
                    t.step();
                    if arc.measurements.len() < 6 {
                        return Err(format!("HARNESS: {} measurements", arc.measurements.len()));
                    }
                    let truth = sc(zoo(1));
                    let devs = mk(1e-3);
                    if how == "blse" || how == "lm" {
                        let solver = if how == "lm" { BLSSolver::LevenbergMarquardt } else { BLSSolver::NormalEquations };
                        let bl = BatchLeastSquares::<SpacecraftDynamics, GroundStation>::builder().prop(od_prop(None)).devices(devs).solver(solver).max_iterations(20).almanac(almanac()).build();
                        let ev = bl.evaluate(truth, &arc).map_err(|e| e.to_string())?;
                        t.step();
                        return t.ensure(ev < 0.05, || format!("weighted RMS of {} residuals at the truth", ev));
                    }
                    let variant = if how == "ekf" { KalmanVariant::ReferenceUpdate } else { KalmanVariant::DeviationTracking };
                    let odp = KalmanODProcess::<SpacecraftDynamics, Const<2>, Const<3>, GroundStation>::new(od_prop(None), variant, None, devs.clone(), almanac());
                    let sol = odp.process_arc(KfEstimate::from_covar(truth, od_prior()), &arc).map_err(|e| e.to_string())?;
                    t.steps(sol.estimates.len());
                    let mut n = 0;
                    for r in sol.residuals.iter().flatten() {
                        n += 1;
                        for (i, ty) in types.iter().enumerate() {
                            let tol = if *ty == M::Range { 2e-4 } else { 2e-6 };
                            t.close(&format!("{ty:?} prefit"), r.prefit[i], 0.0, tol)?;
                            t.close(&format!("{ty:?} postfit"), r.postfit[i], 0.0, tol)?;
                        }
                    }
                    t.ensure(n == arc.measurements.len(), || format!("{n} residuals for {} measurements", arc.measurements.len()))?;
                    let sm = sol.clone().smooth(&almanac()).map_err(|e| e.to_string())?;
                    for r in sm.residuals.iter().flatten() {
                        for (i, ty) in types.iter().enumerate() {
                            let tol = if *ty == M::Range { 2e-4 } else { 2e-6 };
                            t.close(&format!("{ty:?} smoothed postfit"), r.postfit[i], 0.0, tol)?;
                        }
                    }
                    let err = (sol.estimates.last().unwrap().state().orbit.radius_km - tr.at(sol.estimates.last().unwrap().epoch()).map_err(|e| e.to_string())?.orbit.radius_km).norm();
                    t.ensure(err < 1e-3, || format!("estimate off by {err} km"))
                });
            }
        }
    }
    let _ = (Unit::Second, Vector3::<f64>::zeros());
    sp
}
