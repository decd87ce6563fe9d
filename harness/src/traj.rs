//! C09..C11: trajectories: collection algebra, interpolation, persistence.
use crate::core::*;
use crate::world::*;
use anise::analysis::prelude::OrbitalElement;
use anise::constants::frames::*;
use anise::prelude::{Frame, Orbit};
use arrow::array::{Array, Float64Array, StringArray};
use hifitime::{Duration, Epoch, TimeScale};
use nalgebra::Vector3;
use nyx_space::cosmic::{DragData, GuidanceMode, Mass, SRPData};
use nyx_space::dynamics::guidance::Thruster;
use nyx_space::md::StateParameter;
use nyx_space::md::prelude::Traj;
use nyx_space::md::trajectory::ExportCfg;
use nyx_space::{Spacecraft, State};
use std::collections::HashMap;
use std::ops::Bound;
use std::path::Path;

/// A state on orbit `o` at `dt` seconds after its epoch (analytic), tagged through the dry mass.
pub fn on_orbit(o: &Orbit, dt: Duration, tag: f64) -> Spacecraft {
    let (r, v) = kepler(MU, o.radius_km, o.velocity_km_s, dt.to_seconds());
    Spacecraft::builder()
        .orbit(Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, o.epoch + dt, o.frame))
        .mass(Mass::from_dry_mass(tag))
        .build()
}
pub fn traj_of(states: Vec<Spacecraft>) -> Traj<Spacecraft> {
    let mut t = Traj::new();
    t.states = states;
    t
}
/// (epoch, tag) view of a trajectory.
fn view(t: &Traj<Spacecraft>) -> Vec<(Epoch, f64)> {
    t.states.iter().map(|x| (x.orbit.epoch, x.mass.dry_mass_kg)).collect()
}
fn show(v: &[(Epoch, f64)]) -> String {
    v.iter().map(|(e, g)| format!("{:.3}:{g}", (*e - t0()).to_seconds())).collect::<Vec<_>>().join(" ")
}
fn same(what: &str, got: &[(Epoch, f64)], want: &[(Epoch, f64)]) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got [{}], want [{}]", show(got), show(want))) }
}
/// The model of `finalize`: one state per epoch (the first one inserted), in chronological order.
fn finalized(v: &[(Epoch, f64)]) -> Vec<(Epoch, f64)> {
    let mut out: Vec<(Epoch, f64)> = vec![];
    for x in v {
        if !out.iter().any(|y| y.0 == x.0) {
            out.push(*x);
        }
    }
    out.sort_by_key(|x| x.0);
    out
}
pub fn in_bound<T: PartialOrd>(b: &(Bound<T>, Bound<T>), x: &T) -> bool {
    (match &b.0 {
        Bound::Unbounded => true,
        Bound::Included(a) => x >= a,
        Bound::Excluded(a) => x > a,
    }) && (match &b.1 {
        Bound::Unbounded => true,
        Bound::Included(a) => x <= a,
        Bound::Excluded(a) => x < a,
    })
}
pub fn bounds<T: Copy>(vals: &[T]) -> Vec<Bound<T>> {
    let mut v = vec![Bound::Unbounded];
    for x in vals {
        v.push(Bound::Included(*x));
        v.push(Bound::Excluded(*x));
    }
    v
}
pub fn bmap<T: Copy, U>(b: &Bound<T>, f: impl Fn(T) -> U) -> Bound<U> {
    match b {
        Bound::Unbounded => Bound::Unbounded,
        Bound::Included(x) => Bound::Included(f(*x)),
        Bound::Excluded(x) => Bound::Excluded(f(*x)),
    }
}

pub fn c09(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every insertion order of a set of states with duplicate epochs; every pair of range bounds at, between and outside the \
         states; every pair of sub-trajectories to add; every step and window to iterate; every sequence of trajectory operations \
         up to the depth, against a list model",
    );
    sp.hang_s = 30.0;
    let o = zoo(0);
    // -- finalize: all permutations, duplicates tagged.
    let n = tier.pick(6, 7);
    for (di, times) in [vec![0.0, 10.0, 20.0, 20.0, 30.0, 45.5, 10.0], vec![5.0, 5.0, 5.0, 7.0, 9.0, 11.0, 0.0], vec![0.0, 1e-9, 2e-9, 1e-9, 3600.0, 60.0, 7.0]]
        .into_iter()
        .enumerate()
    {
        for perm in permutations(n) {
            let times = times.clone();
            sp.push(format!("finalize/{di}/{perm:?}"), move |t| {
                let states: Vec<_> = perm.iter().map(|k| on_orbit(&o, ns((times[*k] * 1e9) as i64), 1.0 + *k as f64)).collect();
                let mut tr = traj_of(states);
                let want = finalized(&view(&tr));
                tr.finalize();
                t.step();
                t.see(&format!("{:?}", view(&tr)));
                same("finalize", &view(&tr), &want)?;
                let first = tr.at(want[0].0).map_err(|e| e.to_string())?;
                t.ensure(first.mass.dry_mass_kg == want[0].1, || "at(first) is not the first state".into())
            });
        }
    }
    // -- filters: all bounds.
    let knots: Vec<i64> = vec![0, 60, 120, 200, 300, 301];
    let probe: Vec<i64> = vec![-30, 0, 30, 60, 120, 150, 300, 301, 400];
    for (bi, b0) in bounds(&probe).into_iter().enumerate() {
        for (bj, b1) in bounds(&probe).into_iter().enumerate() {
            for kind in ["epoch", "offset"] {
                let knots = knots.clone();
                sp.push(format!("filter/{kind}/{bi}-{bj}/{b0:?},{b1:?}"), move |t| {
                    let states: Vec<_> = knots.iter().enumerate().map(|(i, k)| on_orbit(&o, s(*k as f64), 1.0 + i as f64)).collect();
                    let tr = traj_of(states);
                    let m = view(&tr);
                    let be = (bmap(&b0, |x| t0() + s(x as f64)), bmap(&b1, |x| t0() + s(x as f64)));
                    let want: Vec<_> = m.iter().copied().filter(|x| in_bound(&be, &x.0)).collect();
                    let got = if kind == "epoch" {
                        tr.filter_by_epoch(be)
                    } else {
                        tr.filter_by_offset((bmap(&b0, |x| s(x as f64)), bmap(&b1, |x| s(x as f64))))
                    };
                    t.step();
                    t.see(&format!("{:?}", view(&got)));
                    same("filter", &view(&got), &want)?;
                    // Filtering is idempotent with the same epoch bounds.
                    same("filter again", &view(&got.filter_by_epoch(be)), &want)
                });
            }
        }
    }
    for kind in ["epoch", "offset"] {
        sp.push(format!("filter/{kind}/empty"), move |t| {
            let tr: Traj<Spacecraft> = Traj::new();
            let got = if kind == "epoch" { tr.filter_by_epoch(t0()..) } else { tr.filter_by_offset(s(1.0)..s(3.0)) };
            t.step();
            t.ensure(got.states.is_empty(), || "filtering nothing yields something".into())
        });
    }
    // -- add: every pair of intervals over interleaved knots (self on even seconds, other on odd or shared ones).
    let m = tier.pick(5i64, 7);
    let mut ivs: Vec<Option<(i64, i64)>> = vec![None];
    for a in 0..m {
        for b in a..m {
            ivs.push(Some((a, b)));
        }
    }
    for a in &ivs {
        for b in &ivs {
            for off in [0i64, 30, -30] {
                for form in ["ref", "own", "assign"] {
                    let (a, b) = (*a, *b);
                    sp.push(format!("add/{form}/{a:?}+{b:?}/{off}"), move |t| {
                        let mk = |iv: Option<(i64, i64)>, off: i64, tag: f64| {
                            traj_of(match iv {
                                None => vec![],
                                Some((x, y)) => (x..=y).map(|k| on_orbit(&o, s((60 * k + off) as f64), tag + k as f64)).collect(),
                            })
                        };
                        let (mut ta, tb) = (mk(a, 0, 100.0), mk(b, off, 200.0));
                        ta.name = Some("a".to_string());
                        let (va, vb) = (view(&ta), view(&tb));
                        let mut want = va.clone();
                        for x in &vb {
                            if va.is_empty() || x.0 > va[va.len() - 1].0 || x.0 < va[0].0 {
                                want.push(*x);
                            }
                        }
                        let want = finalized(&want);
                        let got = match form {
                            "ref" => (&ta + &tb).map_err(|e| e.to_string())?,
                            "own" => (ta.clone() + tb.clone()).map_err(|e| e.to_string())?,
                            _ => {
                                ta += &tb;
                                ta
                            }
                        };
                        t.step();
                        t.see(&format!("{:?}", view(&got)));
                        t.ensure(got.name == Some("a".to_string()), || "the name of the first trajectory was lost".into())?;
                        same("add", &view(&got), &want)
                    });
                }
            }
        }
    }
    for (k, fr) in [MOON_J2000, IAU_EARTH_FRAME, EARTH_ECLIPJ2000, EARTH_MOON_BARYCENTER_J2000].into_iter().enumerate() {
        for rev in [false, true] {
            sp.push(format!("add/frame-mismatch/{k}/{rev}"), move |t| {
                let mut ta = traj_of(vec![on_orbit(&o, s(0.0), 1.0), on_orbit(&o, s(60.0), 1.0)]);
                let mut tb = ta.clone();
                for x in tb.states.iter_mut() {
                    x.orbit.frame = fr;
                }
                if rev {
                    std::mem::swap(&mut ta, &mut tb);
                }
                t.steps(2);
                t.ensure((&ta + &tb).is_err(), || "adding trajectories in different frames did not fail".into())?;
                t.ensure((ta + tb).is_err(), || "adding trajectories in different frames did not fail".into())
            });
        }
    }
    // -- iteration, resampling, rebuilding.
    let ends: Vec<i64> = vec![-100_000_000_000, -1, 0, 1, 33_000_000_000, 60_000_000_000, 299_999_999_999, 300_000_000_000, 300_000_000_001, 500_000_000_000];
    for step in [s(60.0), s(7.0), s(0.5), ns(33_333_333_333), s(300.0), s(301.0), s(1e5)] {
        for st in &ends {
            for en in &ends {
                let (st, en) = (*st, *en);
                sp.push(format!("every/{step}/{st}/{en}"), move |t| {
                    let states: Vec<_> = (0..=10).map(|k| on_orbit(&o, s(30.0 * k as f64), 5.0)).collect();
                    let tr = traj_of(states);
                    let (a, b) = ((t0() + ns(st)).max(tr.first().epoch()), (t0() + ns(en)).min(tr.last().epoch()));
                    let mut want = vec![];
                    let mut k = 0i64;
                    while a + step * k <= b {
                        want.push((a + step * k, 5.0));
                        k += 1;
                    }
                    let got: Vec<Spacecraft> = tr.every_between(step, t0() + ns(st), t0() + ns(en)).collect();
                    t.steps(got.len() + 1);
                    let gt = traj_of(got);
                    t.see(&format!("{}", view(&gt).len()));
                    same("every_between", &view(&gt), &want)?;
                    for x in &gt.states {
                        let y = tr.at(x.epoch()).map_err(|e| e.to_string())?;
                        t.ensure(x.orbit == y.orbit, || format!("iterated state differs from at({})", x.epoch()))?;
                    }
                    if st == 0 && en == 300_000_000_000 {
                        let all: Vec<_> = tr.every(step).collect();
                        same("every", &view(&traj_of(all)), &want)?;
                        let re = tr.resample(step).map_err(|e| e.to_string())?;
                        same("resample", &view(&re), &want)?;
                    }
                    Ok(())
                });
            }
        }
    }
    // Rebuild with any selection of epochs, unordered, repeated, or out of range.
    let epochs: Vec<i64> = vec![0, 60_000_000_000, 33_000_000_000, 300_000_000_000, 299_999_999_999, -1, 300_000_000_001];
    for seq in sequences(epochs.len(), 0, tier.pick(3, 4)) {
        let epochs = epochs.clone();
        sp.push(format!("rebuild/{seq:?}"), move |t| {
            let states: Vec<_> = (0..=10).map(|k| on_orbit(&o, s(30.0 * k as f64), 5.0)).collect();
            let tr = traj_of(states);
            let es: Vec<Epoch> = seq.iter().map(|k| t0() + ns(epochs[*k])).collect();
            let out = seq.iter().any(|k| *k >= 5);
            let r = tr.rebuild(&es);
            t.step();
            match (r, out) {
                (Ok(_), true) => Err("rebuild with an epoch outside of the trajectory did not fail".into()),
                (Err(e), false) => Err(format!("rebuild failed: {e}")),
                (Err(_), true) => Ok(()),
                (Ok(g), false) => {
                    t.see(&format!("{:?}", view(&g)));
                    same("rebuild", &view(&g), &finalized(&es.iter().map(|e| (*e, 5.0)).collect::<Vec<_>>()))
                }
            }
        });
    }
    sp.push("empty", move |t| {
        let tr: Traj<Spacecraft> = Traj::new();
        t.steps(4);
        t.ensure(tr.at(t0()).is_err(), || "at() on nothing".into())?;
        t.ensure(tr.resample(s(1.0)).is_err(), || "resample() on nothing".into())?;
        t.ensure(tr.rebuild(&[t0()]).is_err(), || "rebuild() on nothing".into())?;
        t.ensure(tr.to_frame(earth(), &almanac()).is_err(), || "to_frame() on nothing".into())
    });
    // -- sequences of operations against the list model.
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Push(i64),
        Final,
        Epoch(i64, i64),
        Off(i64, i64),
        Add(i64, i64),
        Resample(i64),
    }
    let ops = [
        Op::Push(90), Op::Push(-15), Op::Final, Op::Epoch(30, 150), Op::Epoch(0, 1000), Op::Off(30, 100), Op::Off(0, 60),
        Op::Add(120, 240), Op::Add(-60, 0), Op::Resample(45), Op::Resample(1000),
    ];
    for seq in sequences(ops.len(), 1, tier.pick(4, 5)) {
        sp.push(format!("ops/{seq:?}"), move |t| {
            let mut tr = traj_of((0..=4).map(|k| on_orbit(&o, s(30.0 * k as f64), 5.0)).collect());
            let mut m = view(&tr);
            for (i, k) in seq.iter().enumerate() {
                let tag = 10.0 + i as f64;
                match ops[*k] {
                    Op::Push(x) => {
                        tr.states.push(on_orbit(&o, s(x as f64), tag));
                        tr.finalize();
                        m.push((t0() + s(x as f64), tag));
                        m = finalized(&m);
                    }
                    Op::Final => tr.finalize(),
                    Op::Epoch(a, b) => {
                        tr = tr.filter_by_epoch(t0() + s(a as f64)..t0() + s(b as f64));
                        m.retain(|x| x.0 >= t0() + s(a as f64) && x.0 < t0() + s(b as f64));
                    }
                    Op::Off(a, b) => {
                        if let Some(f) = m.first().map(|x| x.0) {
                            m.retain(|x| x.0 >= f + s(a as f64) && x.0 < f + s(b as f64));
                        }
                        tr = tr.filter_by_offset(s(a as f64)..s(b as f64));
                    }
                    Op::Add(a, b) => {
                        let other = traj_of((a / 30..=b / 30).map(|k| on_orbit(&o, s(30.0 * k as f64), tag)).collect());
                        let va = m.clone();
                        for x in view(&other) {
                            if va.is_empty() || x.0 > va[va.len() - 1].0 || x.0 < va[0].0 {
                                m.push(x);
                            }
                        }
                        m = finalized(&m);
                        tr = (&tr + &other).map_err(|e| e.to_string())?;
                    }
                    Op::Resample(st) => match tr.resample(s(st as f64)) {
                        Err(_) if m.is_empty() => {}
                        Err(e) => return Err(e.to_string()),
                        Ok(g) => {
                            let (a, b) = (m[0].0, m[m.len() - 1].0);
                            let mut want = vec![];
                            let mut k = 0i64;
                            while a + s(st as f64) * k <= b {
                                let e = a + s(st as f64) * k;
                                // The tag of an interpolated state is the one of a neighbour.
                                let got = g.states.get(k as usize).ok_or("resample lost a state")?;
                                let idx = m.partition_point(|x| x.0 < e);
                                let ok = if m[idx].0 == e { m[idx].1 == got.mass.dry_mass_kg } else { m[idx].1 == got.mass.dry_mass_kg || m[idx - 1].1 == got.mass.dry_mass_kg };
                                t.ensure(ok, || format!("resampled state at {e} does not come from its neighbours"))?;
                                want.push((e, got.mass.dry_mass_kg));
                                k += 1;
                            }
                            same("resample", &view(&g), &want)?;
                            m = want;
                            tr = g;
                        }
                    },
                }
                t.step();
                t.see(&format!("{:?}", view(&tr)));
                same(&format!("after operation {i}"), &view(&tr), &m)?;
            }
            Ok(())
        });
    }
    sp
}

/// C10: interpolation.
pub fn c10(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every number of samples up to a bound, sample spacing pattern, orbit and insertion order; evaluated at every sample, at \
         fractions of every interval and just outside the span, against analytic motion and a piecewise-linear propellant model",
    );
    sp.hang_s = 30.0;
    let fr: &[f64] = if tier.thorough() { &[1e-6, 0.1, 0.25, 0.5, 0.618, 0.9, 0.999] } else { &[1e-6, 0.31, 0.5, 0.83] };
    let max_n = tier.pick(30, 45);
    for oi in 0..=5usize {
        for (pi, pat) in [vec![60.0], vec![10.0], vec![45.0, 60.0, 30.0], vec![20.0, 40.0, 30.0, 25.0], vec![100.0, 80.0]].into_iter().enumerate() {
            let many: &[usize] = if pi == 2 && oi % 2 == 0 { &[64, 257, 1025, 2050] } else { &[] };
            for n in (1..=max_n).chain(many.iter().copied()) {
                for rev in [false, true] {
                    let pat = pat.clone();
                    sp.push(format!("{}/spacing{pi}/n{n}/{}", if oi < 5 { ORBITS[oi].0 } else { "hyperbola" }, if rev { "rev" } else { "fwd" }), move |t| {
                        let o = if oi < 5 { zoo(oi) } else { hyperbola() };
                        let mut times = vec![0.0f64];
                        for k in 1..n {
                            times.push(times[k - 1] + pat[k % pat.len()]);
                        }
                        let slope = 0.7 * (45.0 / n as f64).min(1.0);
                        let prop = |k: usize| 50.0 - if k < n / 2 { slope * k as f64 } else { slope * (n / 2) as f64 + 0.01 * slope * (k - n / 2) as f64 };
                        let mk = |k: usize| {
                            let mut x = on_orbit(&o, s(times[k]), 321.0);
                            x.mass.prop_mass_kg = prop(k);
                            x.mass.extra_mass_kg = 7.0;
                            x.srp = SRPData { area_m2: 3.0, coeff_reflectivity: 1.3 };
                            x.drag = DragData { area_m2: 4.0, coeff_drag: 2.1 };
                            x.thruster = Some(Thruster { thrust_N: 0.5, isp_s: 300.0 });
                            x.mode = if k % 5 < 2 { GuidanceMode::Thrust } else { GuidanceMode::Coast };
                            if k % 5 < 2 {
                                x.mut_thrust_direction(Some(Vector3::new(0.6, 0.0, 0.8)));
                            }
                            x
                        };
                        let mut states: Vec<_> = (0..n).map(mk).collect();
                        if rev {
                            states.reverse();
                        }
                        let mut tr = traj_of(states);
                        tr.finalize();
                        // Outside
                        for e in [tr.first().epoch() - ns(1), tr.last().epoch() + ns(1), tr.first().epoch() - s(1e4), tr.last().epoch() + s(1e4)] {
                            t.step();
                            t.ensure(tr.at(e).is_err(), || format!("at({e}) outside of the trajectory did not fail"))?;
                        }
                        for k in 0..n {
                            let want = mk(k);
                            let got = tr.at(want.epoch()).map_err(|e| e.to_string())?;
                            t.step();
                            t.ensure(got == want && got.thrust_direction() == want.thrust_direction() && got.mode == want.mode, || format!("at sample {k}: {got:?} is not the stored state"))?;
                            if k + 1 == n {
                                break;
                            }
                            for f in fr {
                                let dt = s(times[k] + f * (times[k + 1] - times[k]));
                                let e = t0() + dt;
                                if e == want.epoch() || e == t0() + s(times[k + 1]) {
                                    continue;
                                }
                                let got = tr.at(e).map_err(|e| e.to_string())?;
                                let truth = on_orbit(&o, dt, 321.0);
                                // The accuracy expected of the worst local Hermite interpolation this trajectory allows.
                                let rp = o.radius_km.norm().min(truth.orbit.radius_km.norm());
                                let nn = (MU / rp.powi(3)).sqrt();
                                let h = times[k + 1] - times[k];
                                let amp = o.radius_km.norm().max(truth.orbit.radius_km.norm());
                                let (tp, tv) = if n >= 8 {
                                    if k >= 3 && k + 4 < n { (2e-5, 5e-7) } else { (1e-1, 1e-2) }
                                } else {
                                    let m = n as i32;
                                    let span = times[n - 1].max(h);
                                    let z = (nn * span / 2.0).powi(2 * m);
                                    let fact: f64 = (1..=2 * m).map(|x| x as f64).product();
                                    (2e-5 + 20.0 * amp * z / fact, 1e-6 + 20.0 * amp * z / fact * 2.0 * m as f64 / (span / 2.0))
                                };
                                t.step();
                                let dp = (got.orbit.radius_km - truth.orbit.radius_km).norm();
                                let dv = (got.orbit.velocity_km_s - truth.orbit.velocity_km_s).norm();
                                t.ensure(dp < tp, || format!("interpolated position {dp:.3e} km off at +{dt} (allowed {tp:.1e})"))?;
                                t.ensure(dv < tv, || format!("interpolated velocity {dv:.3e} km/s off at +{dt} (allowed {tv:.1e})"))?;
                                let wm = prop(k) + (prop(k + 1) - prop(k)) * (e - want.epoch()).to_seconds() / h;
                                t.close("propellant mass", got.mass.prop_mass_kg, wm, 1e-9)?;
                                t.ensure(got.orbit.epoch == e, || format!("asked for {e}, got {}", got.orbit.epoch))?;
                                t.ensure(got.orbit.frame == o.frame, || "frame changed".into())?;
                                t.ensure(
                                    got.mass.dry_mass_kg == 321.0 && got.mass.extra_mass_kg == 7.0 && got.srp == want.srp && got.drag == want.drag && got.thruster == want.thruster,
                                    || format!("spacecraft constants changed by interpolation: {got:?}"),
                                )?;
                                t.ensure(got.mode == want.mode || got.mode == mk(k + 1).mode, || "guidance mode of neither neighbour".into())?;
                                t.ensure(got.thrust_direction().is_none(), || "thrust direction was interpolated".into())?;
                            }
                        }
                        t.see_f(&[n as f64, times[n - 1], oi as f64]);
                        Ok(())
                    });
                }
            }
        }
    }
    sp
}

// ---- persistence ----------------------------------------------------------------------------------------------------

pub struct Columns {
    pub rows: usize,
    pub text: HashMap<String, Vec<Option<String>>>,
    pub num: HashMap<String, Vec<Option<f64>>>,
    pub meta: HashMap<String, String>,
}
pub fn read_parquet(path: &Path) -> Result<Columns, String> {
    use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
    let b = ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(path).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let mut c = Columns { rows: 0, text: HashMap::new(), num: HashMap::new(), meta: HashMap::new() };
    if let Some(kv) = b.metadata().file_metadata().key_value_metadata() {
        for x in kv {
            c.meta.insert(x.key.clone(), x.value.clone().unwrap_or_default());
        }
    }
    for batch in b.build().map_err(|e| e.to_string())? {
        let batch = batch.map_err(|e| e.to_string())?;
        c.rows += batch.num_rows();
        for (i, f) in batch.schema().fields().iter().enumerate() {
            let col = batch.column(i);
            if let Some(a) = col.as_any().downcast_ref::<Float64Array>() {
                let v = c.num.entry(f.name().clone()).or_default();
                for k in 0..a.len() {
                    v.push(if a.is_valid(k) { Some(a.value(k)) } else { None });
                }
            } else if let Some(a) = col.as_any().downcast_ref::<arrow::array::Int32Array>() {
                let v = c.num.entry(f.name().clone()).or_default();
                for k in 0..a.len() {
                    v.push(if a.is_valid(k) { Some(a.value(k) as f64) } else { None });
                }
            } else if let Some(a) = col.as_any().downcast_ref::<StringArray>() {
                let v = c.text.entry(f.name().clone()).or_default();
                for k in 0..a.len() {
                    v.push(if a.is_valid(k) { Some(a.value(k).to_string()) } else { None });
                }
            } else if let Some(a) = col.as_any().downcast_ref::<arrow::array::BooleanArray>() {
                let v = c.num.entry(f.name().clone()).or_default();
                for k in 0..a.len() {
                    v.push(if a.is_valid(k) { Some(a.value(k) as u8 as f64) } else { None });
                }
            }
        }
    }
    Ok(c)
}

/// Rewrites a Parquet file with column `col` left out ("drop"), of another type ("retype") or only of nulls ("null").
pub fn damage_column(src: &Path, dst: &Path, col: &str, how: &str) -> Result<(), String> {
    use arrow::array::{Array, ArrayRef, Float64Array, Int64Array, StringArray};
    use arrow::datatypes::{DataType, Schema};
    use parquet::arrow::{arrow_reader::ParquetRecordBatchReaderBuilder, ArrowWriter};
    let e = |e: &dyn std::fmt::Display| e.to_string();
    let b = ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(src).map_err(|x| e(&x))?).map_err(|x| e(&x))?;
    let kv = b.metadata().file_metadata().key_value_metadata().cloned();
    let mut w: Option<ArrowWriter<std::fs::File>> = None;
    for batch in b.build().map_err(|x| e(&x))? {
        let batch = batch.map_err(|x| e(&x))?;
        let (mut fields, mut cols) = (vec![], vec![]);
        for (i, f) in batch.schema().fields().iter().enumerate() {
            let mut field = f.as_ref().clone();
            let mut c: ArrayRef = batch.column(i).clone();
            if field.name() == col {
                let n = batch.num_rows();
                match how {
                    "drop" => continue,
                    "retype" => {
                        c = if *field.data_type() == DataType::Utf8 { std::sync::Arc::new(Float64Array::from(vec![1.0; n])) } else { std::sync::Arc::new(StringArray::from(vec!["x"; n])) };
                        field = field.with_data_type(c.data_type().clone());
                    }
                    "int" => {
                        c = std::sync::Arc::new(Int64Array::from(vec![1; n]));
                        field = field.with_data_type(DataType::Int64);
                    }
                    _ => {
                        c = arrow::array::new_null_array(field.data_type(), n);
                        field = field.with_nullable(true);
                    }
                }
            }
            fields.push(field);
            cols.push(c);
        }
        let schema = std::sync::Arc::new(Schema::new(fields));
        if w.is_none() {
            let kv = kv.clone().map(|v| v.into_iter().filter(|x| !x.key.starts_with("ARROW:")).collect::<Vec<_>>());
            let props = parquet::file::properties::WriterProperties::builder().set_key_value_metadata(kv).build();
            w = Some(ArrowWriter::try_new(std::fs::File::create(dst).map_err(|x| e(&x))?, schema.clone(), Some(props)).map_err(|x| e(&x))?);
        }
        let rb = arrow::record_batch::RecordBatch::try_new(schema, cols).map_err(|x| e(&x))?;
        w.as_mut().unwrap().write(&rb).map_err(|x| e(&x))?;
    }
    w.ok_or("no batch")?.close().map_err(|x| e(&x))?;
    Ok(())
}

/// Names of the columns of a Parquet file
pub fn columns_of(path: &Path) -> Result<Vec<String>, String> {
    let c = read_parquet(path)?;
    let mut v: Vec<String> = c.num.keys().chain(c.text.keys()).cloned().collect();
    v.sort();
    Ok(v)
}

/// Loads every prefix `from..to` of the file: a torn file must be an error.
pub fn torn(t: &mut Tally, path: &Path, stride: usize, load: &dyn Fn(&Path) -> bool) -> Result<(), String> {
    let all = std::fs::read(path).map_err(|e| e.to_string())?;
    let p = path.with_extension("torn");
    let mut ks: Vec<usize> = (0..all.len()).step_by(stride).collect();
    ks.extend(all.len().saturating_sub(24)..all.len());
    for k in ks {
        std::fs::write(&p, &all[..k]).map_err(|e| e.to_string())?;
        t.step();
        t.ensure(!load(&p), || format!("the first {k} bytes out of {} are loaded", all.len()))?;
    }
    Ok(())
}

const DIRS: [[f64; 3]; 4] = [[0.0, 0.6, -0.8], [1.0, 0.0, 0.0], [-0.48, 0.6, 0.64], [0.0, 0.0, 1.0]];

/// Differences between two trajectories which overlap in part.
fn difference(t: &mut Tally, oi: usize, (from, span): (f64, f64), step: Option<f64>, w: (Option<f64>, Option<f64>), sel: usize) -> Result<(), String> {
    let o = zoo(oi);
    let mut q = o;
    q.radius_km += Vector3::new(1.5, -0.7, 2.2);
    q.velocity_km_s += Vector3::new(-1e-3, 2e-3, 1.5e-3);
    let a = traj_of((0..=180).map(|k| on_orbit(&o, s(20.0 * k as f64), 50.0 - 0.01 * k as f64)).collect());
    let b = traj_of((0..=(span / 20.0) as i64).map(|k| on_orbit(&q, s(from + 20.0 * k as f64), 40.0)).collect());
    let dir = scratch_dir(&format!("ric-{oi}-{from}-{span}-{}-{:?}-{sel}", step.unwrap_or(0.0), w));
    let fields = [None, Some(vec![StateParameter::Element(OrbitalElement::SemiMajorAxis), StateParameter::PropMass(), StateParameter::GuidanceMode()]), Some(vec![])][sel].clone();
    let cfg = ExportCfg { start_epoch: w.0.map(|x| t0() + s(x)), end_epoch: w.1.map(|x| t0() + s(x)), step: step.map(s), fields: fields.clone(), ..Default::default() };
    let lo = from.max(0.0).max(w.0.unwrap_or(-1e9));
    let hi = 3600f64.min(from + span).min(w.1.unwrap_or(1e9));
    for (x, y, swap) in [(&a, &b, false), (&b, &a, true)] {
        let path = dir.join(format!("d{swap}.parquet"));
        t.step();
        let res = x.ric_diff_to_parquet(y, &path, cfg.clone());
        if lo > hi {
            // Nothing in common: an error, or a file without rows.
            if res.is_ok() {
                let c = read_parquet(&path)?;
                t.ensure(c.rows == 0, || format!("{} differences of trajectories without common time", c.rows))?;
            }
            continue;
        }
        let out = res.map_err(|e| e.to_string())?;
        t.ensure(out == path, || format!("reported {out:?} instead of {path:?}"))?;
        let c = read_parquet(&path)?;
        let n = ((hi - lo) / step.unwrap_or(60.0)).floor() as usize + 1;
        t.ensure(c.rows == n, || format!("{} differences between {lo} and {hi} s, expected {n}", c.rows))?;
        let epochs = c.text.get("Epoch (UTC)").ok_or("no epoch column")?;
        let names = ["Delta X (RIC) (km)", "Delta Y (RIC) (km)", "Delta Z (RIC) (km)", "Delta Vx (RIC) (km/s)", "Delta Vy (RIC) (km/s)", "Delta Vz (RIC) (km/s)"];
        let mut raw = vec![];
        let mut pairs = vec![];
        for k in 0..n {
            let e = t0() + s(lo) + s(step.unwrap_or(60.0)) * k as i64;
            let got: Epoch = epochs[k].as_ref().unwrap().parse().map_err(|e| format!("{e:?}"))?;
            t.ensure((e - got).abs() <= ns(1001), || format!("row {k}: epoch {got} for {e}"))?;
            let (p, q) = (x.at(e).map_err(|e| e.to_string())?, y.at(e).map_err(|e| e.to_string())?);
            let (r, v) = (p.orbit.radius_km, p.orbit.velocity_km_s);
            let m = crate::guid::axes(nyx_space::dynamics::guidance::LocalFrame::RIC, r, v);
            let (dr, dv) = (q.orbit.radius_km - r, q.orbit.velocity_km_s - v);
            let w = r.cross(&v) / r.norm_squared();
            let (a, b) = (m.transpose() * dr, m.transpose() * (dv - w.cross(&dr)));
            raw.push([a.x, a.y, a.z, b.x, b.y, b.z]);
            pairs.push((p, q));
        }
        t.see_f(&raw[n - 1]);
        // Smoothed by a running median over five: within the differences around.
        for (i, name) in names.iter().enumerate() {
            let col = c.num.get(*name).ok_or(format!("no column {name}"))?;
            for k in 0..n {
                let (u, v) = if n > 5 { (k.saturating_sub(4), (k + 3).min(n)) } else { (k, k + 1) };
                let (mn, mx) = raw[u..v].iter().fold((f64::MAX, f64::MIN), |z, r| (z.0.min(r[i]), z.1.max(r[i])));
                let tol = if i < 3 { 1e-9 } else { 1e-8 };
                let g = col[k].unwrap_or(f64::NAN);
                t.step();
                t.ensure(g >= mn - tol && g <= mx + tol, || format!("row {k} {name}: {g} outside of {mn} to {mx}"))?;
            }
        }
        let want = fields.clone().unwrap_or_else(|| <Spacecraft as nyx_space::md::prelude::Interpolatable>::export_params());
        let mut cols = 0;
        for f in want {
            if f == StateParameter::GuidanceMode() || pairs[0].0.value(f).is_err() {
                continue;
            }
            cols += 1;
            let col = c.num.get(&format!("{f}")).ok_or(format!("no column {f}"))?;
            for (k, (p, q)) in pairs.iter().enumerate() {
                let d = p.value(f).map_err(|e| e.to_string())? - q.value(f).map_err(|e| e.to_string())?;
                t.close(&format!("row {k} {f}"), col[k].unwrap_or(f64::NAN), d, 1e-12)?;
            }
        }
        t.ensure(c.num.len() == cols + 6, || format!("columns {:?}", c.num.keys()))?;
    }
    Ok(())
}

pub fn c11(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every combination of trajectory content (frame, time scale of the epochs, thruster, guidance mode pattern, thrust \
         directions, masses, coefficients, insertion order) and export request (whole, window, step, fields), through each format",
    );
    sp.hang_s = 60.0;
    let frames: Vec<(&str, Frame)> = vec![("eme", earth()), ("moon", almanac().frame_info(MOON_J2000).unwrap()), ("iau", almanac().frame_info(IAU_EARTH_FRAME).unwrap())];
    let scales = [("utc", TimeScale::UTC), ("tai", TimeScale::TAI), ("tdb", TimeScale::TDB), ("et", TimeScale::ET), ("gpst", TimeScale::GPST)];
    let wins: Vec<(&str, Option<i64>, Option<i64>, Option<i64>)> = vec![
        ("all", None, None, None),
        ("step", None, None, Some(20)),
        ("start", Some(45), None, Some(30)),
        ("end", None, Some(200), Some(45)),
        ("window", Some(61), Some(299), Some(7)),
        ("startonly", Some(61), None, None),
        ("wide", Some(-100), Some(1000), Some(60)),
    ];
    for (fi, (fname, frame)) in frames.iter().enumerate() {
        for (si, (sname, scale)) in scales.iter().enumerate() {
            for thr in 0..6usize {
                for perm in 0..2usize {
                    for (wname, w0, w1, w2) in &wins {
                        if !tier.thorough() && fi + si > 2 && thr % 2 == 1 {
                            continue;
                        }
                        let (frame, scale) = (*frame, *scale);
                        let (w0, w1, w2) = (*w0, *w1, *w2);
                        sp.push(format!("parquet/{fname}/{sname}/thr{thr}/perm{perm}/{wname}"), move |t| {
                            let dir = scratch_dir(&format!("pq-{fi}-{si}-{thr}-{perm}-{}-{}-{}", w0.unwrap_or(-9), w1.unwrap_or(-9), w2.unwrap_or(-9)));
                            let path = dir.join("traj.parquet");
                            let tr = sample_traj(frame, scale, thr, perm);
                            let mut cfg = ExportCfg { start_epoch: w0.map(|x| t0() + s(x as f64)), end_epoch: w1.map(|x| t0() + s(x as f64)), step: w2.map(|x| s(x as f64)), ..Default::default() };
                            cfg.metadata = Some(HashMap::from([("who".to_string(), "nyxmc".to_string())]));
                            let out = tr.to_parquet(&path, cfg).map_err(|e| e.to_string())?;
                            t.ensure(out == path, || format!("reported {out:?} instead of {path:?}"))?;
                            let want: Vec<Spacecraft> = if w0.is_none() && w1.is_none() && w2.is_none() {
                                tr.states.clone()
                            } else {
                                let step = s(w2.unwrap_or(60) as f64);
                                let a = w0.map(|x| t0() + s(x as f64)).unwrap_or(tr.first().epoch()).max(tr.first().epoch());
                                let b = w1.map(|x| t0() + s(x as f64)).unwrap_or(tr.last().epoch()).min(tr.last().epoch());
                                let mut v = vec![];
                                let mut e = a;
                                while e <= b {
                                    v.push(tr.at(e).map_err(|e| e.to_string())?);
                                    e += step;
                                }
                                v
                            };
                            // Columns
                            let c = read_parquet(&path)?;
                            t.step();
                            t.ensure(c.rows == want.len(), || format!("{} rows for {} states", c.rows, want.len()))?;
                            t.ensure(c.meta.get("who").map(|x| x.as_str()) == Some("nyxmc"), || "the metadata was not stored".into())?;
                            let get = |n: &str| -> Result<&Vec<Option<f64>>, String> {
                                c.num.iter().find(|(k, _)| *k == n).map(|x| x.1).ok_or(format!("no column {n} among {:?}", c.num.keys()))
                            };
                            let epochs = c.text.get("Epoch (UTC)").ok_or("no epoch column")?;
                            for (i, x) in want.iter().enumerate() {
                                let e: Epoch = epochs[i].as_ref().unwrap().parse().map_err(|e| format!("{e:?}"))?;
                                t.step();
                                t.ensure((e - x.epoch()).abs() <= ns(1001), || format!("row {i}: epoch {e} for {}", x.epoch()))?;
                                for (el, v) in [
                                    (OrbitalElement::X, x.orbit.radius_km.x),
                                    (OrbitalElement::Y, x.orbit.radius_km.y),
                                    (OrbitalElement::Z, x.orbit.radius_km.z),
                                    (OrbitalElement::VX, x.orbit.velocity_km_s.x),
                                    (OrbitalElement::VY, x.orbit.velocity_km_s.y),
                                    (OrbitalElement::VZ, x.orbit.velocity_km_s.z),
                                    (OrbitalElement::SemiMajorAxis, x.orbit.sma_km().unwrap()),
                                    (OrbitalElement::Eccentricity, x.orbit.ecc().unwrap()),
                                    (OrbitalElement::Inclination, x.orbit.inc_deg().unwrap()),
                                    (OrbitalElement::TrueAnomaly, x.orbit.ta_deg().unwrap()),
                                ] {
                                    let name = format!("{}", StateParameter::Element(el));
                                    t.close(&format!("row {i} {name}"), get(&name)?[i].unwrap_or(f64::NAN), v, 1e-12 * v.abs())?;
                                }
                                let mass = get(&format!("{}", StateParameter::PropMass()))?[i].unwrap_or(f64::NAN);
                                t.close("prop mass column", mass, x.mass.prop_mass_kg, 1e-12)?;
                                for (k, p) in [StateParameter::ThrustX(), StateParameter::ThrustY(), StateParameter::ThrustZ()].iter().enumerate() {
                                    let v = c.num.get(&format!("{p}")).map(|v| v[i]).unwrap_or(None);
                                    t.ensure(v == x.thrust_direction().map(|d| d[k]), || format!("row {i} {p}: {v:?} for {:?}", x.thrust_direction()))?;
                                }
                            }
                            // Reload
                            let back = Traj::<Spacecraft>::from_parquet(&path).map_err(|e| e.to_string())?;
                            t.step();
                            t.ensure(back.states.len() == want.len(), || format!("{} states reloaded out of {}", back.states.len(), want.len()))?;
                            for (x, y) in want.iter().zip(back.states.iter()) {
                                t.ensure((x.epoch() - y.epoch()).abs() <= ns(1001), || format!("{} reloaded as {}", x.epoch(), y.epoch()))?;
                                t.ensure(x.orbit.radius_km == y.orbit.radius_km && x.orbit.velocity_km_s == y.orbit.velocity_km_s, || format!("{} reloaded as {}", x.orbit, y.orbit))?;
                                t.ensure(x.orbit.frame == y.orbit.frame, || format!("frame {:?} reloaded as {:?}", x.orbit.frame, y.orbit.frame))?;
                                t.ensure(x.mass.dry_mass_kg == y.mass.dry_mass_kg && x.mass.prop_mass_kg == y.mass.prop_mass_kg, || format!("masses {:?} reloaded as {:?}", x.mass, y.mass))?;
                                t.ensure(x.srp.coeff_reflectivity == y.srp.coeff_reflectivity && x.drag.coeff_drag == y.drag.coeff_drag, || format!("Cr/Cd {:?}/{:?} reloaded as {:?}/{:?}", x.srp, x.drag, y.srp, y.drag))?;
                                t.ensure(x.mode == y.mode, || format!("mode {:?} reloaded as {:?}", x.mode, y.mode))?;
                                t.ensure(x.thruster == y.thruster, || format!("thruster {:?} reloaded as {:?}", x.thruster, y.thruster))?;
                                t.ensure(x.thrust_direction() == y.thrust_direction(), || format!("thrust direction {:?} reloaded as {:?}", x.thrust_direction(), y.thrust_direction()))?;
                            }
                            t.see_f(&[c.rows as f64, thr as f64, fi as f64]);
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // Long ones: a file is read in batches.
    for n in tier.pick(vec![1022, 1023, 1024, 2048, 3000], vec![511, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4097]) {
        for thr in 0..6usize {
            sp.push(format!("parquet/long/{n}/thr{thr}"), move |t| {
                let path = scratch_dir(&format!("pq-long-{n}-{thr}")).join("traj.parquet");
                let tr = sample_traj_of(n, earth(), TimeScale::UTC, thr, 0);
                tr.to_parquet(&path, ExportCfg::default()).map_err(|e| e.to_string())?;
                let back = Traj::<Spacecraft>::from_parquet(&path).map_err(|e| e.to_string())?;
                t.ensure(back.states.len() == n + 1, || format!("{} states reloaded out of {}", back.states.len(), n + 1))?;
                for (k, (x, y)) in tr.states.iter().zip(back.states.iter()).enumerate() {
                    t.step();
                    t.ensure((x.epoch() - y.epoch()).abs() <= ns(1001) && x.orbit.radius_km == y.orbit.radius_km && x.orbit.velocity_km_s == y.orbit.velocity_km_s, || format!("state {k}: {x} reloaded as {y}"))?;
                    t.ensure(
                        x.mass.prop_mass_kg == y.mass.prop_mass_kg && x.mode == y.mode && x.thruster == y.thruster && x.thrust_direction() == y.thrust_direction(),
                        || format!("state {k}: {:?} {:?} {:?} reloaded as {:?} {:?} {:?}", x.mass, x.mode, x.thrust_direction(), y.mass, y.mode, y.thrust_direction()),
                    )?;
                }
                t.see(&(n, thr));
                // The export as an OEM has them all as well.
                if thr == 0 {
                    let oem = path.with_extension("oem");
                    tr.to_oem_file(&oem, "SC".into(), None, None, ExportCfg::default()).map_err(|e| e.to_string())?;
                    let back = Traj::<Spacecraft>::from_oem_file(&oem, None).map_err(|e| e.to_string())?;
                    t.ensure(back.states.len() == n + 1, || format!("{} states in the OEM", back.states.len()))?;
                }
                Ok(())
            });
        }
    }
    // Field selections.
    let fields = [StateParameter::Element(OrbitalElement::Rmag), StateParameter::Element(OrbitalElement::Period), StateParameter::Cr(), StateParameter::Thrust(), StateParameter::TotalMass(), StateParameter::GuidanceMode()];
    for mask in 1..(1u32 << fields.len()) {
        sp.push(format!("parquet-fields/{mask:06b}"), move |t| {
            let dir = scratch_dir(&format!("pqf-{mask}"));
            let path = dir.join("f.parquet");
            let tr = sample_traj(earth(), TimeScale::UTC, (mask % 2) as usize, 0);
            let sel: Vec<_> = (0..fields.len()).filter(|k| mask & (1 << k) != 0).map(|k| fields[k]).collect();
            let cfg = ExportCfg { fields: Some(sel.clone()), ..Default::default() };
            tr.to_parquet(&path, cfg).map_err(|e| e.to_string())?;
            let c = read_parquet(&path)?;
            t.step();
            let mut names: Vec<String> = c.num.keys().chain(c.text.keys()).cloned().collect();
            names.sort();
            let mut want: Vec<String> = sel.iter().filter(|p| tr.states.iter().any(|x| x.value(**p).is_ok())).map(|p| format!("{p}")).collect();
            want.push("Epoch (UTC)".to_string());
            want.sort();
            t.ensure(names == want, || format!("columns {names:?}, want {want:?}"))?;
            for p in &sel {
                for (i, x) in tr.states.iter().enumerate() {
                    let v = x.value(*p).ok();
                    if *p == StateParameter::GuidanceMode() {
                        let g = c.text[&format!("{p}")][i].clone();
                        t.ensure(g == Some(format!("{:?}", x.mode)), || format!("guidance mode {g:?} for {:?}", x.mode))?;
                    } else if c.num.contains_key(&format!("{p}")) {
                        let g = c.num[&format!("{p}")][i];
                        t.ensure(g == v, || format!("{p}: {g:?} for {v:?}"))?;
                    }
                }
            }
            t.see(&names);
            // Without the position and velocity, the file cannot be loaded as a trajectory: an error, not a panic.
            t.ensure(Traj::<Spacecraft>::from_parquet(&path).is_err(), || "a file without a state was loaded".into())
        });
    }
    // A time stamp in the name changes nothing else; the path returned is that of the file.
    for (k, name) in ["x.parquet", "x.y.parquet", "noext", "x.parq"].into_iter().enumerate() {
        for stamp in [false, true] {
            sp.push(format!("parquet/named/{k}/{stamp}"), move |t| {
                let dir = scratch_dir(&format!("pq-named-{k}-{stamp}"));
                let tr = sample_traj(earth(), TimeScale::UTC, 0, 0);
                let mut cfg = if stamp { ExportCfg::timestamped() } else { ExportCfg::default() };
                cfg.append_field(StateParameter::TotalMass());
                let at = tr.to_parquet_with_cfg(dir.join(name), cfg.clone()).map_err(|e| e.to_string())?;
                t.step();
                let files: Vec<_> = std::fs::read_dir(&dir).map_err(|e| e.to_string())?.map(|e| e.unwrap().path()).collect();
                t.ensure(files == vec![at.clone()], || format!("{files:?} instead of {at:?}"))?;
                let got = at.file_name().unwrap().to_str().unwrap().to_string();
                let stem = name.rsplit_once('.').map(|x| x.0).unwrap_or(name);
                t.ensure(if stamp && k != 2 { got != name && got.starts_with(&format!("{stem}-")) && at.extension() == std::path::Path::new(name).extension() } else { got == name }, || format!("{name} became {got}"))?;
                let c = read_parquet(&at)?;
                t.see(&(c.num.len(), c.rows));
                t.ensure(c.rows == tr.states.len(), || format!("{} rows for {} states", c.rows, tr.states.len()))?;
                t.ensure(c.num.len() == 1 && c.num.keys().all(|k| k.contains("mass")), || format!("columns {:?} for the total mass", c.num.keys()))?;
                cfg.append_field(StateParameter::DryMass());
                let at = tr.to_parquet_with_cfg(dir.join("again.parquet"), cfg).map_err(|e| e.to_string())?;
                t.ensure(read_parquet(&at)?.num.len() == 2, || "a field appended was not exported".into())
            });
        }
    }
    sp.push("parquet/empty", |t| {
        let dir = scratch_dir("pq-empty");
        let tr: Traj<Spacecraft> = Traj::new();
        t.steps(3);
        t.ensure(tr.to_parquet_simple(dir.join("x.parquet")).is_err(), || "exported nothing".into())?;
        t.ensure(tr.to_parquet_with_step(dir.join("x.parquet"), s(1.0)).is_err(), || "exported nothing".into())?;
        let tr = sample_traj(earth(), TimeScale::UTC, 0, 0);
        let cfg = ExportCfg { start_epoch: Some(t0() + s(1e6)), ..Default::default() };
        t.ensure(tr.to_parquet(dir.join("x.parquet"), cfg).is_err(), || "exported nothing".into())?;
        t.ensure(Traj::<Spacecraft>::from_parquet(dir.join("missing.parquet")).is_err(), || "loaded a missing file".into())
    });
    // Files which are torn, or without their columns, or with columns of another type.
    for thr in 0..6usize {
        let dir_of = move |w: &str| -> Result<std::path::PathBuf, String> {
            let path = scratch_dir(&format!("pq-{w}-{thr}")).join("a.parquet");
            sample_traj(earth(), TimeScale::UTC, thr, 0).to_parquet_simple(&path).map_err(|e| e.to_string())?;
            Ok(path)
        };
        sp.push(format!("damaged/torn/thr{thr}"), move |t| {
            let p = dir_of("torn")?;
            torn(t, &p, tier.pick(7, 1), &|p| Traj::<Spacecraft>::from_parquet(p).is_ok())
        });
        for how in ["drop", "retype", "int", "null"] {
            sp.push(format!("damaged/{how}/thr{thr}"), move |t| {
                let p = dir_of(how)?;
                let full = Traj::<Spacecraft>::from_parquet(&p).map_err(|e| e.to_string())?;
                let needed: Vec<String> = [OrbitalElement::X, OrbitalElement::Y, OrbitalElement::Z, OrbitalElement::VX, OrbitalElement::VY, OrbitalElement::VZ]
                    .iter()
                    .map(|e| format!("{}", StateParameter::Element(*e)))
                    .chain([format!("{}", StateParameter::PropMass()), "Epoch (UTC)".to_string()])
                    .collect();
                for c in columns_of(&p)? {
                    let q = p.with_extension("bad");
                    damage_column(&p, &q, &c, how)?;
                    t.step();
                    let got = Traj::<Spacecraft>::from_parquet(&q);
                    if needed.contains(&c) && how != "null" {
                        t.ensure(got.is_err(), || format!("loaded although {c} is damaged ({how})"))?;
                    } else if let Ok(got) = got {
                        t.ensure(got.states.len() == full.states.len() || how == "null", || format!("{} states without {c} ({how})", got.states.len()))?;
                        t.see(&(c, got.states.len()));
                    }
                }
                Ok(())
            });
        }
    }
    // Differences between trajectories.
    for oi in 0..5usize {
        for (vi, span) in [(0.0, 3600.0), (600.0, 2400.0), (-600.0, 1800.0), (1200.0, 3600.0), (3600.0, 1200.0), (4000.0, 1200.0)].into_iter().enumerate() {
            for step in [None, Some(10.0), Some(47.0), Some(3600.0), Some(1e5)] {
                for (wn, w) in [("all", (None, None)), ("start", (Some(700.0), None)), ("end", (None, Some(1500.0))), ("window", (Some(1300.0), Some(1700.0))), ("wide", (Some(-5e3), Some(5e4)))] {
                    for sel in 0..3usize {
                        sp.push(format!("difference/{}/{vi}/{}/{wn}/{sel}", ORBITS[oi].0, step.unwrap_or(0.0)), move |t| difference(t, oi, span, step, w, sel));
                    }
                }
            }
        }
    }
    sp.push("difference/not-possible", |t| {
        let dir = scratch_dir("ric-none");
        let (none, tr): (Traj<Spacecraft>, _) = (Traj::new(), sample_traj(earth(), TimeScale::UTC, 0, 0));
        let moon = sample_traj(almanac().frame_info(MOON_J2000).unwrap(), TimeScale::UTC, 0, 0);
        for (n, a, b) in [("neither", &none, &none), ("first", &none, &tr), ("second", &tr, &none), ("frame", &tr, &moon)] {
            t.step();
            t.ensure(a.ric_diff_to_parquet(b, dir.join("x.parquet"), ExportCfg::default()).is_err(), || format!("{n}: exported a difference"))?;
        }
        Ok(())
    });
    // OEM, ephemeris.
    for (sname, scale) in scales {
        for (wname, w0, w1, w2) in &wins {
            for oi in 0..5usize {
                let (w0, w1, w2) = (*w0, *w1, *w2);
                sp.push(format!("oem/{sname}/{wname}/{}", ORBITS[oi].0), move |t| {
                    let dir = scratch_dir(&format!("oem-{sname}-{}-{}-{}-{oi}", w0.unwrap_or(-9), w1.unwrap_or(-9), w2.unwrap_or(-9)));
                    let path = dir.join("t.oem");
                    let o = zoo(oi);
                    let mut tr = traj_of((0..=12).map(|k| {
                        let mut x = on_orbit(&o, ns(30_123_456_789 * k), 10.0);
                        x.orbit.epoch = x.orbit.epoch.to_time_scale(scale);
                        x.orbit.frame = EARTH_J2000;
                        x
                    }).collect());
                    tr.finalize();
                    let cfg = ExportCfg { start_epoch: w0.map(|x| t0() + s(x as f64)), end_epoch: w1.map(|x| t0() + s(x as f64)), step: w2.map(|x| s(x as f64)), ..Default::default() };
                    let want: Vec<Spacecraft> = if w0.is_none() && w1.is_none() && w2.is_none() {
                        tr.states.clone()
                    } else {
                        let step = s(w2.unwrap_or(60) as f64);
                        tr.every_between(step, w0.map(|x| t0() + s(x as f64)).unwrap_or(tr.first().epoch()), w1.map(|x| t0() + s(x as f64)).unwrap_or(tr.last().epoch())).collect()
                    };
                    tr.to_oem_file(&path, "2024-001A".to_string(), Some("nyxmc".to_string()), Some("OBJ".to_string()), cfg.clone()).map_err(|e| e.to_string())?;
                    let tpl = sc(zoo(1)).with_dry_mass(77.0);
                    let back = Traj::<Spacecraft>::from_oem_file(&path, Some(tpl)).map_err(|e| e.to_string())?;
                    let eph = tr.to_ephemeris("x".to_string(), cfg);
                    t.steps(2);
                    t.ensure(back.name == Some("2024-001A".to_string()), || format!("name {:?}", back.name))?;
                    t.ensure(back.states.len() == want.len(), || format!("{} states reloaded out of {}", back.states.len(), want.len()))?;
                    let eorb: Vec<Orbit> = (&eph).into_iter().map(|r| r.orbit).collect();
                    t.ensure(eorb.len() == want.len(), || format!("{} ephemeris records out of {}", eorb.len(), want.len()))?;
                    for ((x, y), z) in want.iter().zip(back.states.iter()).zip(eorb.iter()) {
                        t.ensure((x.epoch() - y.epoch()).abs() <= ns(1001), || format!("{} reloaded as {}", x.epoch(), y.epoch()))?;
                        t.ensure((x.orbit.radius_km - y.orbit.radius_km).norm() < 2e-6 && (x.orbit.velocity_km_s - y.orbit.velocity_km_s).norm() < 2e-9, || format!("{} reloaded as {}", x.orbit, y.orbit))?;
                        t.ensure(y.mass.dry_mass_kg == 77.0 && y.orbit.frame.ephem_origin_match(EARTH_J2000), || "template or frame lost".into())?;
                        t.ensure(z.epoch == x.epoch() && z.radius_km == x.orbit.radius_km && z.velocity_km_s == x.orbit.velocity_km_s, || format!("ephemeris has {z} for {}", x.orbit))?;
                    }
                    t.see_f(&[want.len() as f64, oi as f64]);
                    Ok(())
                });
            }
        }
    }
    // Frames: round trip and against the almanac's own transformation of each state.
    for oi in 0..5usize {
        for (fname, fr) in [("moon", MOON_J2000), ("sun", SUN_J2000), ("iau", IAU_EARTH_FRAME), ("eme", EARTH_J2000)] {
            sp.push(format!("frame/{}/{fname}", ORBITS[oi].0), move |t| {
                let o = zoo(oi);
                let al = almanac();
                let fr = al.frame_info(fr).map_err(|e| e.to_string())?;
                let mut tr = traj_of((0..=12).map(|k| on_orbit(&o, s(300.0 * k as f64), 3.0 + k as f64)).collect());
                for (k, x) in tr.states.iter_mut().enumerate() {
                    x.orbit.frame = al.frame_info(EARTH_J2000).unwrap();
                    // Everything else differs along the trajectory.
                    x.thruster = (k % 3 > 0).then(|| Thruster { thrust_N: 1.0 + k as f64, isp_s: 300.0 - k as f64 });
                    x.mode = [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][k % 3];
                    x.mass.dry_mass_kg = 50.0 + k as f64;
                    x.mass.extra_mass_kg = 1.0 + k as f64;
                    x.srp.area_m2 = 2.0 + k as f64;
                    x.srp.coeff_reflectivity = 1.0 + 0.05 * k as f64;
                    x.drag.area_m2 = 3.0 + k as f64;
                    x.drag.coeff_drag = 2.0 + 0.1 * k as f64;
                }
                let out = tr.to_frame(fr, &al).map_err(|e| e.to_string())?;
                let back = out.to_frame(tr.first().orbit.frame, &al).map_err(|e| e.to_string())?;
                t.steps(2);
                same("to_frame", &view(&out), &view(&tr))?;
                for ((x, y), z) in tr.states.iter().zip(&out.states).zip(&back.states) {
                    t.ensure(y.orbit.frame == fr, || format!("in {} instead of {fr}", y.orbit.frame))?;
                    for (what, y) in [("out", y), ("back", z)] {
                        t.ensure(x.thruster == y.thruster && x.mode == y.mode && x.mass == y.mass && x.srp == y.srp && x.drag == y.drag, || format!("{what}: {x:x} became {y:x}, {:?}", y.thruster))?;
                    }
                    let w = al.transform_to(x.orbit, fr, None).map_err(|e| e.to_string())?;
                    t.ensure((w.radius_km - y.orbit.radius_km).norm() == 0.0, || "not the transformed state".into())?;
                    if fname == "moon" {
                        let (mr, mv) = moon_pos_vel(x.epoch());
                        t.ensure((x.orbit.radius_km - mr - y.orbit.radius_km).norm() < 1e-2 && (x.orbit.velocity_km_s - mv - y.orbit.velocity_km_s).norm() < 1e-5, || format!("{} is not relative to the Moon", y.orbit))?;
                    }
                    t.ensure((x.orbit.radius_km - z.orbit.radius_km).norm() < 1e-6 && (x.orbit.velocity_km_s - z.orbit.velocity_km_s).norm() < 1e-9, || format!("{} came back as {}", x.orbit, z.orbit))?;
                }
                t.see_f(&[out.first().orbit.radius_km.x]);
                Ok(())
            });
        }
    }
    // Nothing to export is an empty ephemeris or an error, whatever the request.
    for mask in 0..8u32 {
        sp.push(format!("oem-empty/{mask}"), move |t| {
            let dir = scratch_dir(&format!("oem-empty-{mask}"));
            let cfg = || ExportCfg {
                start_epoch: (mask & 1 != 0).then(|| t0()),
                end_epoch: (mask & 2 != 0).then(|| t0() + s(600.0)),
                step: (mask & 4 != 0).then(|| s(60.0)),
                ..Default::default()
            };
            let tr: Traj<Spacecraft> = Traj::new();
            t.steps(2);
            t.ensure(tr.to_ephemeris("x".to_string(), cfg()).into_iter().count() == 0, || "an ephemeris of nothing has states".into())?;
            t.see(&tr.to_oem_file(dir.join("x.oem"), "x".to_string(), None, None, cfg()).is_ok());
            Ok(())
        });
    }
    // Ground tracks: geodetic coordinates once per minute, whatever the frame of the trajectory.
    for oi in 0..5usize {
        for (fname, fr) in [("eme", EARTH_J2000), ("iau", IAU_EARTH_FRAME), ("moon", MOON_J2000)] {
            for n in [2usize, 13, 40] {
                sp.push(format!("groundtrack/{}/{fname}/{n}", ORBITS[oi].0), move |t| {
                    let al = almanac();
                    let o = zoo(oi);
                    let mut tr = traj_of((0..n).map(|k| on_orbit(&o, s(47.0 * k as f64), 3.0)).collect());
                    tr.states.iter_mut().for_each(|x| x.orbit.frame = al.frame_info(EARTH_J2000).unwrap());
                    let tr = tr.to_frame(al.frame_info(fr).map_err(|e| e.to_string())?, &al).map_err(|e| e.to_string())?;
                    let dir = scratch_dir(&format!("gt-{oi}-{fname}-{n}"));
                    let fixed = al.frame_info(IAU_EARTH_FRAME).map_err(|e| e.to_string())?;
                    let mut md = std::collections::HashMap::new();
                    md.insert("who".to_string(), "me".to_string());
                    let path = tr.to_groundtrack_parquet(dir.join("g.parquet"), fixed, Some(md), &al).map_err(|e| e.to_string())?;
                    let c = read_parquet(&path)?;
                    let span = 47.0 * (n as f64 - 1.0);
                    let rows = (span / 60.0).floor() as usize + 1;
                    let col = |e: OrbitalElement| format!("{}", StateParameter::Element(e));
                    let names = [col(OrbitalElement::Latitude), col(OrbitalElement::Longitude), col(OrbitalElement::Height), col(OrbitalElement::Rmag)];
                    let mut got: Vec<String> = c.num.keys().cloned().collect();
                    got.sort();
                    let mut want: Vec<String> = names.to_vec();
                    want.sort();
                    t.ensure(got == want && c.text.contains_key("Epoch (UTC)"), || format!("columns {got:?}, want {want:?}"))?;
                    t.ensure(c.text["Epoch (UTC)"].len() == rows, || format!("{} rows for {rows}", c.text["Epoch (UTC)"].len()))?;
                    for k in 0..rows {
                        t.step();
                        let ep = t0() + s(60.0 * k as f64);
                        let g = c.text["Epoch (UTC)"][k].clone().unwrap_or_default();
                        t.ensure(<Epoch as std::str::FromStr>::from_str(&g).map(|e| (e - ep).to_seconds().abs() < 1e-6).unwrap_or(false), || format!("row {k} at {g}, want {ep}"))?;
                        let (r, _) = kepler(MU, o.radius_km, o.velocity_km_s, 60.0 * k as f64);
                        let rf = crate::dev::to_fixed(ep).0 * r;
                        let at = |j: usize| c.num[&names[j]][k].ok_or(format!("no {} in row {k}", names[j]));
                        t.close("distance of the ground track", at(3)?, rf.norm(), 1e-2)?;
                        // The geodetic coordinates lead back to the position.
                        let (lat, lon, h) = (at(0)?, at(1)?, at(2)?);
                        t.ensure((-90.0..=90.0).contains(&lat) && (-180.0..=360.0).contains(&lon), || format!("latitude {lat}, longitude {lon}"))?;
                        let p = crate::dev::site(lat, lon, h, RE, RP).0;
                        t.close("position of the ground track", (p - rf).norm(), 0.0, 2e-2)?;
                        t.see_f(&[lat.round(), lon.round()]);
                    }
                    Ok(())
                });
            }
        }
    }
    // SPK
    for (w0, w1) in [(0i64, 40_000i64), (-7000, 9000)] {
        sp.push(format!("bsp-light-time/{w0}/{w1}"), move |t| {
            let al = almanac();
            let (a, b) = (t0() + s(w0 as f64), t0() + s(w1 as f64));
            let tr = Traj::<Spacecraft>::from_bsp(MOON_J2000, EARTH_J2000, &al, sc(zoo(0)), s(1000.0), Some(a), Some(b), anise::astro::Aberration::LT, None).map_err(|e| e.to_string())?;
            t.ensure(tr.states.len() as i64 == (w1 - w0) / 1000 + 1, || format!("{} states", tr.states.len()))?;
            for x in &tr.states {
                t.step();
                let lt = moon_pos_vel(x.epoch()).0.norm() / 299_792.458;
                let ssb = |f: Frame, e: Epoch| al.transform(f, anise::constants::frames::SSB_J2000, e, None).map(|o| o.radius_km).map_err(|e| e.to_string());
                let r = ssb(MOON_J2000, x.epoch() - s(lt))? - ssb(EARTH_J2000, x.epoch())?;
                t.close("light-time corrected position of the Moon", (x.orbit.radius_km - r).norm(), 0.0, 2e-2)?;
                t.see_f(&[x.orbit.radius_km.x.round()]);
            }
            Ok(())
        });
    }
    for (w0, w1, step) in [(None, None, 3600.0 * 24.0), (Some(0i64), Some(100_000i64), 1000.0), (Some(-5000), Some(5000), 333.0), (Some(77), None, 86400.0), (None, Some(0), 50_000.0), (Some(10), Some(10), 1.0)] {
        sp.push(format!("bsp/{w0:?}/{w1:?}/{step}"), move |t| {
            let al = almanac();
            let tpl = sc(zoo(0)).with_dry_mass(9.0).with_cr(1.1);
            let (ds, de) = al.spk_domain(301).map_err(|e| e.to_string())?;
            let (a, b) = (w0.map(|x| t0() + s(x as f64)), w1.map(|x| t0() + s(x as f64)));
            let tr = Traj::<Spacecraft>::from_bsp(MOON_J2000, EARTH_J2000, &al, tpl, s(step), a, b, None, Some("moon".to_string())).map_err(|e| e.to_string())?;
            t.step();
            let (a, b) = (a.unwrap_or(ds), b.unwrap_or(de));
            let mut e = a;
            let mut k = 0;
            while e <= b {
                let x = tr.states.get(k).ok_or_else(|| format!("no state for {e}"))?;
                let (r, v) = moon_pos_vel(e);
                t.ensure(x.epoch() == e && x.mass.dry_mass_kg == 9.0 && x.srp.coeff_reflectivity == 1.1, || format!("state {k}: {x}"))?;
                t.ensure((x.orbit.radius_km - r).norm() < 1e-2 && (x.orbit.velocity_km_s - v).norm() < 1e-5, || format!("state {k}: {} instead of {r:?}", x.orbit))?;
                k += 1;
                e += s(step);
            }
            t.see_f(&[k as f64]);
            t.ensure(tr.states.len() == k && tr.name == Some("moon".to_string()), || format!("{} states for {k}", tr.states.len()))
        });
    }
    sp
}

fn sample_traj(frame: Frame, scale: TimeScale, thr: usize, perm: usize) -> Traj<Spacecraft> {
    sample_traj_of(12, frame, scale, thr, perm)
}
fn sample_traj_of(n: usize, frame: Frame, scale: TimeScale, thr: usize, perm: usize) -> Traj<Spacecraft> {
    let o = zoo(0);
    let mut states: Vec<Spacecraft> = (0..=n)
        .map(|k| {
            let mut x = on_orbit(&o, ns(30_123_456_789 * k as i64), 120.0);
            x.orbit.frame = frame;
            x.orbit.epoch = x.orbit.epoch.to_time_scale(scale);
            x.mass.prop_mass_kg = 600.0 - 0.125 * k as f64;
            x.srp.coeff_reflectivity = 1.25;
            x.drag.coeff_drag = 2.25;
            if thr > 0 {
                x.thruster = Some(Thruster { thrust_N: 0.5, isp_s: 321.0 });
            }
            x.mode = match (thr + k) % 3 {
                0 => GuidanceMode::Thrust,
                1 => GuidanceMode::Coast,
                _ => GuidanceMode::Inhibit,
            };
            match thr {
                2 => x.mut_thrust_direction(Some(Vector3::from(DIRS[k % 4]))),
                3 if k % 3 == 0 => x.mut_thrust_direction(Some(Vector3::from(DIRS[k % 4]))),
                4 if k % 3 != 0 => x.mut_thrust_direction(Some(Vector3::from(DIRS[(k + 1) % 4]))),
                5 if k == n => x.mut_thrust_direction(Some(Vector3::from(DIRS[0]))),
                _ => {}
            }
            x
        })
        .collect();
    if perm == 1 {
        states.reverse();
        states.swap(1, 7);
    }
    let mut t = traj_of(states);
    t.finalize();
    t
}
