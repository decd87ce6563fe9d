//! C01..C04: propagation.
use crate::core::*;
use crate::world::*;
use anise::almanac::Almanac;
use anise::analysis::prelude::*;
use anise::constants::frames::*;
use anise::prelude::Orbit;
use hifitime::Duration;
use nalgebra::{Matrix3, Vector3};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use nyx_space::State;
use nyx_space::cosmic::{DragData, Mass, SRPData};
use nyx_space::io::gravity::GravityFieldData;
use nyx_space::dynamics::{AccelModel, DynamicsError, GravityField, PointMasses, SolarPressure, OrbitalDynamics, SpacecraftDynamics};
use nyx_space::propagators::*;

pub const METHODS: [(&str, IntegratorMethod); 6] = [
    ("RK89", IntegratorMethod::RungeKutta89),
    ("DP78", IntegratorMethod::DormandPrince78),
    ("DP45", IntegratorMethod::DormandPrince45),
    ("RK4", IntegratorMethod::RungeKutta4),
    ("CK45", IntegratorMethod::CashKarp45),
    ("V56", IntegratorMethod::Verner56),
];

pub fn two_body() -> SpacecraftDynamics {
    SpacecraftDynamics::new(OrbitalDynamics::two_body())
}

/// C01: any sequence of propagation requests on one instance lands on the exact requested epoch, reports every step in order and
/// leaves the instance in the state it returned.
pub fn c01(tier: Tier) -> Space {
    let mut sp = Space::new(
        "every sequence of propagation requests (durations from an alphabet around the step size, both signs, zero; three call \
         forms) up to the depth, per integrator and step mode; non-trivial: at least one request is not a whole number of steps",
    );
    sp.hang_s = 30.0;
    let depth = tier.pick(3, 4);
    // In nanoseconds; the nominal step is 20 s.
    let alpha: Vec<i64> = vec![
        0, 20_000_000_000, 7_000_000_001, 60_000_000_000, 53_123_456_789, -20_000_000_000, -31_000_000_007, -1,
        1_000_000_000, 240_000_000_000, -20_000_000_001, 40_000_000_001,
    ];
    let alpha = if tier.thorough() { alpha } else { alpha };
    let forms = ["dur", "until", "traj", "until-traj", "chan", "until-chan"];
    for (mname, method) in METHODS {
        for fixed in [true, false] {
            if mname == "RK4" && !fixed {
                continue; // RK4 has no embedded error estimate: documented as fixed step only
            }
            // Histories: every sequence over the alphabet from the base epoch, and every one-request history whose duration lies
            // just beside a whole number of steps, from epochs off the second, millisecond and microsecond grids.
            let mut hist: Vec<(i64, Vec<i64>)> =
                sequences(alpha.len(), 1, depth).iter().map(|q| (0, q.iter().map(|i| alpha[*i]).collect())).collect();
            let k_max = tier.pick(2i64, 4);
            for off in [1i64, 400, 400_000, 400_000_000, 777_777_777] {
                for k in 1..=k_max {
                    for sgn in [1i64, -1] {
                        for d in [0i64, 2, 300, 300_000, 300_000_000] {
                            for ds in [1i64, -1] {
                                if d == 0 && ds < 0 {
                                    continue;
                                }
                                hist.push((off, vec![sgn * (k * 20_000_000_000 + ds * d)]));
                            }
                        }
                    }
                }
            }
            for (off, durs) in hist {
                for (fi, form) in forms.iter().enumerate() {
                    if fi > 2 && off == 0 && durs.len() > 2 {
                        continue;
                    }
                    let durs = durs.clone();
                    let key = format!("{mname}/{}/{form}/+{off}ns/{:?}", if fixed { "fixed" } else { "adaptive" }, durs);
                    sp.push(key, move |t| {
                        let opts = if fixed {
                            IntegratorOptions::with_fixed_step(s(20.0))
                        } else {
                            IntegratorOptions::builder()
                                .init_step(s(20.0))
                                .min_step(s(0.1))
                                .max_step(s(50.0))
                                .tolerance(1e-9)
                                .build()
                        };
                        let p = Propagator::new(two_body(), method, opts);
                        let mut start = sc(zoo(3));
                        start.orbit.epoch += ns(off);
                        let mut inst = p.with(start, almanac()).quiet();
                        let mut want = start.epoch();
                        for d in &durs {
                            let dur = ns(*d);
                            let before = inst.state;
                            want += dur;
                            let end = match fi {
                                0 => inst.for_duration(dur).map_err(|e| e.to_string())?,
                                1 => inst.until_epoch(want).map_err(|e| e.to_string())?,
                                4 | 5 => {
                                    let (tx, rx) = std::sync::mpsc::channel();
                                    let e = if fi == 4 { inst.for_duration_with_channel(dur, tx) } else { inst.until_epoch_with_channel(want, tx) }
                                        .map_err(|e| e.to_string())?;
                                    // What was published, in the order of publication.
                                    let mut got: Vec<_> = rx.into_iter().collect();
                                    t.ensure(*d == 0 || got.last() == Some(&e), || format!("last published state is {:?} instead of {e}", got.last().map(|x| x.to_string())))?;
                                    if got.first() != Some(&before) {
                                        got.insert(0, before);
                                    }
                                    if dur.is_negative() {
                                        got.reverse();
                                    }
                                    let mut tr = nyx_space::md::Trajectory::new();
                                    tr.states = got;
                                    check_traj(t, &before, &e, &tr, dur, s(0.1), s(if fixed { 20.0 } else { 50.0 }), fixed)?;
                                    e
                                }
                                _ => {
                                    let (e, tr) = if fi == 2 { inst.for_duration_with_traj(dur) } else { inst.until_epoch_with_traj(want) }.map_err(|e| e.to_string())?;
                                    check_traj(t, &before, &e, &tr, dur, s(0.1), s(if fixed { 20.0 } else { 50.0 }), fixed)?;
                                    e
                                }
                            };
                            t.step();
                            t.ensure(end.epoch() == want, || format!("ended at {} instead of {want}", end.epoch()))?;
                            t.ensure(end == inst.state, || "instance state differs from returned state".into())?;
                            let (r, v) = kepler(MU, before.orbit.radius_km, before.orbit.velocity_km_s, dur.to_seconds());
                            let tol = if mname == "RK4" { 1e-3 } else { 1e-4 };
                            t.close("position", (end.orbit.radius_km - r).norm(), 0.0, tol)?;
                            t.close("velocity", (end.orbit.velocity_km_s - v).norm(), 0.0, tol * 1e-2)?;
                            t.see_f(end.orbit.radius_km.as_slice());
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // Options: every history of settings after every constructor, and what the propagator makes of them.
    #[derive(Clone, Copy, Debug)]
    enum Set {
        Max(f64),
        Min(f64),
        Tol(f64),
    }
    let sets = [Set::Max(30.0), Set::Max(300.0), Set::Min(0.5), Set::Min(90.0), Set::Tol(1e-7), Set::Tol(1e-10)];
    let ctors = ["default", "adaptive", "adaptive_s", "tolerance", "max", "fixed_s"];
    for (ci, cname) in ctors.iter().enumerate() {
        for q in sequences(sets.len(), 0, depth) {
            for whole in [false, true] {
                let q = q.clone();
                sp.push(format!("options/{cname}/{whole}/{q:?}"), move |t| {
                    use nyx_space::propagators::ErrorControl;
                    // (initial, minimum, maximum, tolerance, fixed)
                    let (opts, mut want) = match ci {
                        0 => (IntegratorOptions::default(), (s(60.0), s(0.001), s(2700.0), 1e-12, false)),
                        1 => (IntegratorOptions::with_adaptive_step(s(2.0), s(50.0), 1e-9, ErrorControl::RSSStep), (s(50.0), s(2.0), s(50.0), 1e-9, false)),
                        2 => (IntegratorOptions::with_adaptive_step_s(0.25, 45.5, 1e-8, ErrorControl::RSSState), (s(45.5), s(0.25), s(45.5), 1e-8, false)),
                        3 => (IntegratorOptions::with_tolerance(1e-9), (s(60.0), s(0.001), s(2700.0), 1e-9, false)),
                        4 => (IntegratorOptions::with_max_step(s(33.0)), (s(33.0), s(0.001), s(33.0), 1e-12, false)),
                        _ => (IntegratorOptions::with_fixed_step_s(12.5), (s(12.5), s(12.5), s(12.5), 0.0, true)),
                    };
                    let method = METHODS[ci % 3].1;
                    let mut p = Propagator::new(two_body(), method, opts);
                    for k in &q {
                        t.step();
                        match sets[*k] {
                            Set::Max(x) => {
                                if whole { p.set_max_step(s(x)) } else { p.opts.set_max_step(s(x)) }
                                want.0 = want.0.min(s(x));
                                want.2 = s(x);
                            }
                            Set::Min(x) => {
                                if whole { p.set_min_step(s(x)) } else { p.opts.set_min_step(s(x)) }
                                want.0 = want.0.max(s(x));
                                want.1 = s(x);
                            }
                            Set::Tol(x) => {
                                if whole { p.set_tolerance(x) } else { p.opts.tolerance = x }
                                want.3 = x;
                            }
                        }
                    }
                    let got = (p.opts.init_step, p.opts.min_step, p.opts.max_step, p.opts.tolerance, p.opts.fixed_step);
                    t.see(&format!("{want:?}"));
                    t.ensure(got == want, || format!("{got:?} instead of {want:?}"))?;
                    if want.1 <= want.0 && want.0 <= want.2 && !want.4 {
                        // The steps of a propagation lie within the bounds.
                        let before = sc(zoo(3));
                        let (e, tr) = p.with(before, almanac()).quiet().for_duration_with_traj(s(700.0)).map_err(|e| e.to_string())?;
                        check_traj(t, &before, &e, &tr, s(700.0), want.1, want.2, false)?;
                    }
                    Ok(())
                });
            }
        }
    }
    for k in 0..4usize {
        for span in [50.0, 3600.0, -700.0] {
            sp.push(format!("named/{k}/{span}"), move |t| {
                let o = IntegratorOptions::with_tolerance(1e-11);
                let d = two_body();
                let (p, m, o) = match k {
                    0 => (Propagator::default(d.clone()), METHODS[0].1, IntegratorOptions::default()),
                    1 => (Propagator::default_dp78(d.clone()), METHODS[1].1, IntegratorOptions::default()),
                    2 => (Propagator::rk89(d.clone(), o), METHODS[0].1, o),
                    _ => (Propagator::dp78(d.clone(), o), METHODS[1].1, o),
                };
                let a = p.with(sc(zoo(2)), almanac()).quiet().for_duration(s(span)).map_err(|e| e.to_string())?;
                let b = Propagator::new(d, m, o).with(sc(zoo(2)), almanac()).quiet().for_duration(s(span)).map_err(|e| e.to_string())?;
                t.steps(2);
                t.see_f(&[a.orbit.radius_km.x]);
                t.ensure(a == b, || format!("{a} instead of {b}"))
            });
        }
    }
    // Whatever the time scales of the state and of the request (hifitime's own arithmetic in UTC skips leap seconds).
    use hifitime::TimeScale as TS;
    const SCALES: [TS; 6] = [TS::UTC, TS::TAI, TS::TT, TS::GPST, TS::TDB, TS::ET];
    for (mname, method) in METHODS {
        for fixed in [true, false] {
            if mname == "RK4" && !fixed {
                continue;
            }
            for v in product(&[SCALES.len(), SCALES.len()]) {
                let (a, b) = (SCALES[v[0]], SCALES[v[1]]);
                sp.push(format!("scales/{mname}/{}/{a:?}/{b:?}", if fixed { "fixed" } else { "adaptive" }), move |t| {
                    for d in [90.0, -75.5, 40.000_000_001, 1200.0] {
                        let opts = if fixed { IntegratorOptions::with_fixed_step(s(20.0)) } else { IntegratorOptions::builder().init_step(s(20.0)).min_step(s(0.1)).max_step(s(50.0)).tolerance(1e-11).build() };
                        let p = Propagator::new(two_body(), method, opts);
                        let mut x = sc(zoo(3));
                        let e0 = x.orbit.epoch;
                        let e1 = (e0.to_time_scale(TS::TAI) + s(d)).to_time_scale(b);
                        x.orbit.epoch = e0.to_time_scale(a);
                        let mut inst = p.with(x, almanac()).quiet();
                        let (y, tr) = inst.until_epoch_with_traj(e1).map_err(|e| e.to_string())?;
                        t.step();
                        // A second of dynamical time is not exactly a second of atomic time.
                        let series = |x: TS| matches!(x, TS::TDB | TS::ET);
                        let tol = if a != b && (series(a) || series(b)) { 1000 } else { 0 };
                        t.ensure((y.epoch() - e1).abs() <= ns(tol), || format!("{} instead of {e1}, by {}", y.epoch(), y.epoch() - e1))?;
                        t.ensure(inst.state == y, || "the instance is not at the returned state".into())?;
                        let (first, last) = if d > 0.0 { (tr.first(), tr.last()) } else { (tr.last(), tr.first()) };
                        t.ensure(*last == y && first.epoch() == x.epoch(), || format!("trajectory from {} to {}", first.epoch(), last.epoch()))?;
                        let (r, v) = kepler(MU, x.orbit.radius_km, x.orbit.velocity_km_s, d);
                        let tol = if fixed && mname == "RK4" { 1e-4 } else { 1e-5 };
                        t.close("position", (y.orbit.radius_km - r).norm(), 0.0, tol)?;
                        t.close("velocity", (y.orbit.velocity_km_s - v).norm(), 0.0, tol * 1e-2)?;
                        t.see_f(&[y.orbit.radius_km.x]);
                    }
                    Ok(())
                });
            }
        }
    }
    sp
}

/// Steps are handled as whole nanoseconds; an adaptive step goes through a floating point number of seconds.
const SLACK: i64 = 2;

#[allow(clippy::too_many_arguments)]
fn check_traj(
    t: &mut Tally,
    before: &nyx_space::Spacecraft,
    end: &nyx_space::Spacecraft,
    tr: &nyx_space::md::Trajectory,
    dur: Duration,
    min: Duration,
    max: Duration,
    fixed: bool,
) -> Result<(), String> {
    let st = &tr.states;
    let (lo, hi) = if dur.is_negative() { (end, before) } else { (before, end) };
    t.ensure(!st.is_empty(), || "empty trajectory".into())?;
    t.ensure(st[0].epoch() == lo.epoch(), || format!("trajectory starts at {} not {}", st[0].epoch(), lo.epoch()))?;
    t.ensure(st[st.len() - 1].epoch() == hi.epoch(), || {
        format!("trajectory ends at {} not {}", st[st.len() - 1].epoch(), hi.epoch())
    })?;
    for (i, w) in st.windows(2).enumerate() {
        let gap = w[1].epoch() - w[0].epoch();
        t.ensure(gap > Duration::ZERO, || format!("epochs not strictly increasing at {}", w[0].epoch()))?;
        t.ensure(gap <= max + ns(SLACK), || format!("step of {gap} exceeds the maximum {max}"))?;
        // All but the closing step (the first gap when propagating backward) respect the minimum.
        let closing = if dur.is_negative() { i == 0 } else { i == st.len() - 2 };
        let min = if fixed { max } else { min };
        t.ensure(closing || gap >= min - ns(SLACK), || format!("step of {gap} below the minimum {min}"))?;
    }
    for x in st {
        let (r, _) = kepler(
            MU,
            before.orbit.radius_km,
            before.orbit.velocity_km_s,
            (x.epoch() - before.epoch()).to_seconds(),
        );
        t.close("trajectory state position", (x.orbit.radius_km - r).norm(), 0.0, 1e-2)?;
    }
    Ok(())
}


pub const ORDERS: [(usize, f64); 6] = [(0, 8.0), (1, 7.0), (2, 5.0), (3, 4.0), (4, 4.0), (5, 5.0)];

/// C02: the propagated two-body motion is the Keplerian motion, whatever integrator, orbit, direction, span.
pub fn c02(tier: Tier) -> Space {
    let mut sp = Space::new(
        "grid: 6 orbits x 6 integrators x forward/backward x spans x (adaptive tolerance and error control | fixed steps), each \
         against universal-variable Kepler propagation and through the out-and-back round trip; fixed-step convergence order \
         measured on every integrator and orbit",
    );
    sp.hang_s = 60.0;
    let spans: &[f64] = if tier.thorough() { &[0.07, 0.4, 1.0, 2.3, 5.1] } else { &[0.07, 0.4, 1.3] };
    let ctrls = [
        ("rsscart-step", ErrorControl::RSSCartesianStep),
        ("rsscart-state", ErrorControl::RSSCartesianState),
        ("rss-step", ErrorControl::RSSStep),
        ("rss-state", ErrorControl::RSSState),
        ("largest-err", ErrorControl::LargestError),
        ("largest-state", ErrorControl::LargestState),
        ("largest-step", ErrorControl::LargestStep),
    ];
    let orbs: Vec<(&str, anise::prelude::Orbit)> =
        (0..ORBITS.len()).map(|i| (ORBITS[i].0, zoo(i))).chain([("hyperbola", hyperbola())]).collect();
    for (oname, orb) in orbs {
        let period = if oname == "hyperbola" { 9000.0 } else { orb.period().unwrap().to_seconds() };
        for (mname, method) in METHODS {
            for &span in spans {
                for back in [false, true] {
                    let dt = (span * period * 1e3).round() / 1e3 * if back { -1.0 } else { 1.0 };
                    if mname != "RK4" {
                        for (cname, ctrl) in ctrls {
                            if !tier.thorough() && mname != "RK89" && mname != "DP45" && cname != "rsscart-step" {
                                continue;
                            }
                            for tol in [1e-9, 1e-12] {
                                sp.push(format!("adaptive/{oname}/{mname}/{cname}/tol={tol:e}/dt={dt}"), move |t| {
                                    let opts = IntegratorOptions::builder()
                                        .init_step(s(60.0))
                                        .min_step(s(0.001))
                                        .max_step(s(2700.0))
                                        .tolerance(tol)
                                        .error_ctrl(ctrl)
                                        .build();
                                    let p = Propagator::new(two_body(), method, opts);
                                    let start = sc(orb);
                                    let mut inst = p.with(start, almanac()).quiet();
                                    let end = inst.for_duration(s(dt)).map_err(|e| e.to_string())?;
                                    t.step();
                                    let (r, v) = kepler(MU, orb.radius_km, orb.velocity_km_s, dt);
                                    let revs = span.max(1.0);
                                    // Global error for a per-step relative tolerance; generous but far below any real defect.
                                    let ptol = if tol > 1e-10 { 2e-2 } else { 5e-5 } * revs * revs * (orb.rmag_km() / 7000.0).max(1.0);
                                    t.close("position", (end.orbit.radius_km - r).norm(), 0.0, ptol)?;
                                    t.close("velocity", (end.orbit.velocity_km_s - v).norm(), 0.0, ptol * 2e-3)?;
                                    // and back
                                    let home = inst.for_duration(s(-dt)).map_err(|e| e.to_string())?;
                                    t.step();
                                    t.ensure(home.epoch() == start.epoch(), || "round trip epoch".into())?;
                                    t.close("round trip", (home.orbit.radius_km - orb.radius_km).norm(), 0.0, 2.0 * ptol)?;
                                    t.see_f(end.orbit.radius_km.as_slice());
                                    Ok(())
                                });
                            }
                        }
                    }
                }
            }
        }
        // In an integration frame: its axes and its gravity parameter rule the motion, the state comes back in its own frame.
        for (mname, method) in METHODS {
            for scale in [1.0, 1.02] {
                for back in [false, true] {
                    let dt = (0.4 * period).round() * if back { -1.0 } else { 1.0 };
                    sp.push(format!("integration-frame/{oname}/{mname}/mu x{scale}/dt={dt}"), move |t| {
                        let mut opts = if mname == "RK4" {
                            IntegratorOptions::with_fixed_step(s(2.0))
                        } else {
                            IntegratorOptions::builder().init_step(s(60.0)).min_step(s(0.001)).max_step(s(2700.0)).tolerance(1e-12).build()
                        };
                        opts.integration_frame = Some(EARTH_ECLIPJ2000.with_mu_km3_s2(MU * scale));
                        let p = Propagator::new(two_body(), method, opts);
                        let start = sc(orb);
                        let end = p.with(start, almanac()).quiet().for_duration(s(dt)).map_err(|e| e.to_string())?;
                        t.step();
                        t.ensure(end.orbit.frame.orient_origin_match(start.orbit.frame), || format!("comes back in {}", end.orbit.frame))?;
                        let (r, v) = kepler(MU * scale, orb.radius_km, orb.velocity_km_s, dt);
                        let ptol = 5e-5 * (orb.rmag_km() / 7000.0).max(1.0) * if mname == "RK4" { 10.0 } else { 1.0 };
                        t.close("position", (end.orbit.radius_km - r).norm(), 0.0, ptol)?;
                        t.close("velocity", (end.orbit.velocity_km_s - v).norm(), 0.0, ptol * 2e-3)?;
                        t.see_f(end.orbit.radius_km.as_slice());
                        Ok(())
                    });
                }
            }
        }
        // Convergence order with a fixed step over an arc around perigee-ish region.
        for (mi, order) in ORDERS {
            let (mname, method) = METHODS[mi];
            for back in [false, true] {
                sp.push(format!("order/{oname}/{mname}/{}", if back { "back" } else { "fwd" }), move |t| {
                    // Characteristic time at the start of the arc
                    let tc = (orb.rmag_km().powi(3) / MU).sqrt();
                    let span = tc * 2.0;
                    let sign = if back { -1.0 } else { 1.0 };
                    let mut errs = vec![];
                    let n0 = if order > 6.5 { 3 } else { 8 };
                    for n in [n0, 2 * n0, 4 * n0] {
                        let h = (span / n as f64 * 1e6).round() / 1e6;
                        let p = Propagator::new(two_body(), method, IntegratorOptions::with_fixed_step_s(h));
                        let mut inst = p.with(sc(orb), almanac()).quiet();
                        let dt = h * n as f64 * sign;
                        let end = inst.for_duration(s(dt)).map_err(|e| e.to_string())?;
                        t.steps(n);
                        let (r, v) = kepler(MU, orb.radius_km, orb.velocity_km_s, s(dt).to_seconds());
                        let e = (end.orbit.radius_km - r).norm() / orb.rmag_km()
                            + (end.orbit.velocity_km_s - v).norm() / orb.vmag_km_s();
                        errs.push(e);
                    }
                    for w in errs.windows(2) {
                        let p = (w[0] / w[1].max(1e-300)).log2();
                        t.ensure(w[1] < 2e-13 || p > order - 0.75, || {
                            format!("{mname}: observed order {p:.2} below {order} (errors {errs:?})")
                        })?;
                    }
                    t.ensure(errs[2] < if order > 6.5 { 1e-7 } else { 1e-4 }, || format!("{mname}: error too large {errs:?}"))?;
                    t.see_f(&[errs[2] * 1e6]);
                    Ok(())
                });
            }
        }
    }
    sp
}

/// An acceleration model which contributes nothing and fails on the scheduled evaluation(s): the fault injector.
#[derive(Clone)]
pub struct Faulty {
    pub calls: Arc<AtomicUsize>,
    pub fail_at: usize,
    pub len: usize,
    /// Whether it answers with something which is not a number instead of failing.
    pub nan: bool,
}
impl std::fmt::Display for Faulty {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "faulty")
    }
}
impl AccelModel for Faulty {
    fn eom(&self, _o: &Orbit, _a: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
        let n = self.calls.fetch_add(1, Ordering::SeqCst);
        if n >= self.fail_at && n < self.fail_at + self.len {
            return if self.nan { Ok(Vector3::new(0.0, f64::NAN, 0.0)) } else { Err(DynamicsError::StateTransitionMatrixUnset) };
        }
        Ok(Vector3::zeros())
    }
    fn gradient(&self, o: &Orbit, a: &Almanac) -> Result<(Vector3<f64>, Matrix3<f64>), DynamicsError> {
        Ok((self.eom(o, a)?, Matrix3::zeros()))
    }
}

/// C03: adaptive step control obeys its bounds, and an instance survives any interruption (fault, event) in its history.
pub fn c03(tier: Tier) -> Space {
    let mut sp = Space::new(
        "(a) step-by-step runs over integrators x error controls x tolerances x step bounds x attempts x orbits x direction: \
         every accepted step is within bounds and below tolerance unless it could not be shortened; (b) every fault point (the \
         k-th evaluation of the dynamics fails) of a propagation, in each direction, followed by every pair of further requests; \
         (c) every event interruption followed by every pair of further requests; (d) every integration frame. Non-trivial: the \
         interrupted call did return an error or stopped early",
    );
    sp.hang_s = 20.0;
    let ctrls = [
        ("rsscart-step", ErrorControl::RSSCartesianStep),
        ("rsscart-state", ErrorControl::RSSCartesianState),
        ("rss-step", ErrorControl::RSSStep),
        ("rss-state", ErrorControl::RSSState),
        ("largest-err", ErrorControl::LargestError),
        ("largest-state", ErrorControl::LargestState),
        ("largest-step", ErrorControl::LargestStep),
    ];
    for (mname, method) in METHODS {
        if mname == "RK4" {
            continue;
        }
        for (cname, ctrl) in ctrls {
            for tol in [1e-6, 1e-9, 1e-12] {
                for (min, max) in [(0.001, 2700.0), (5.0, 200.0), (30.0, 30.0)] {
                    for attempts in [2u8, 50] {
                        for oi in [1usize, 4] {
                            for back in [false, true] {
                                if !tier.thorough() && oi == 1 && mname != "RK89" && mname != "DP45" {
                                    continue;
                                }
                                let key = format!(
                                    "steps/{mname}/{cname}/{tol:e}/[{min},{max}]/att={attempts}/{}/{}",
                                    ORBITS[oi].0,
                                    if back { "back" } else { "fwd" }
                                );
                                sp.push(key, move |t| {
                                    let opts = IntegratorOptions::builder()
                                        .init_step(s(60.0f64.clamp(min, max)))
                                        .min_step(s(min))
                                        .max_step(s(max))
                                        .tolerance(tol)
                                        .attempts(attempts)
                                        .error_ctrl(ctrl)
                                        .build();
                                    // A model which only counts the evaluations of the dynamics.
                                    let calls = Arc::new(AtomicUsize::new(0));
                                    let count = Faulty { calls: calls.clone(), fail_at: usize::MAX / 2, len: 1, nan: false };
                                    let p = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::new(vec![Arc::new(count)])), method, opts);
                                    let mut inst = p.with(sc(zoo(oi)), almanac()).quiet();
                                    let sign = if back { -1.0 } else { 1.0 };
                                    // A short propagation sets the direction; then look at each step.
                                    inst.set_step(s(60.0f64.clamp(min, max) * sign), false);
                                    let e0 = inst.state.epoch();
                                    let mut n = 0;
                                    let mut tries: Vec<(usize, u8)> = vec![];
                                    while n < 120 && (inst.state.epoch() - e0).abs() < s(30_000.0) {
                                        let before = inst.state;
                                        calls.store(0, Ordering::SeqCst);
                                        inst.single_step().map_err(|e| e.to_string())?;
                                        t.step();
                                        n += 1;
                                        let d = inst.latest_details();
                                        tries.push((calls.load(Ordering::SeqCst), d.attempts));
                                        let taken = (inst.state.epoch() - before.epoch()).to_seconds();
                                        t.ensure(taken * sign > 0.0, || format!("stepped {taken} s in the wrong direction"))?;
                                        t.close("reported step", d.step.to_seconds(), taken, 1e-6)?;
                                        let a = taken.abs();
                                        t.ensure(a <= max + 1e-6 && a >= min - 1e-6, || format!("step {a} s out of [{min}, {max}]"))?;
                                        t.ensure(d.attempts <= attempts, || format!("{} attempts > {attempts}", d.attempts))?;
                                        t.ensure(d.error <= tol || a <= min + 1e-6 || d.attempts >= attempts, || {
                                            format!("accepted a step with error {:e} > {tol:e} (step {a} s, {} attempts)", d.error, d.attempts)
                                        })?;
                                        // The local truncation error really is of the size the tolerance asks for.
                                        if d.error <= tol && tol > 1e-10 && (cname == "rsscart-step" || cname == "rsscart-state") {
                                            let (r, _) = kepler(MU, before.orbit.radius_km, before.orbit.velocity_km_s, taken);
                                            let scale = if cname == "rsscart-step" { (r - before.orbit.radius_km).norm() } else { r.norm() };
                                            t.close("local error", (inst.state.orbit.radius_km - r).norm(), 0.0, 20.0 * tol * scale + 1e-9)?;
                                        }
                                    }
                                    // The reported attempts are those of each step, not of the history.
                                    for (x, y) in tries.iter().flat_map(|x| tries.iter().map(move |y| (x, y))) {
                                        t.ensure((x.0 == y.0) == (x.1 == y.1), || format!("evaluations and reported attempts of two steps: {x:?} and {y:?}"))?;
                                    }
                                    t.see(&(n, (inst.latest_details().step.to_seconds() * 1e3) as i64));
                                    Ok(())
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    // (b) fault points
    let follow: [f64; 4] = [300.0, -300.0, 41.7, -77.0];
    let spans: &[f64] = &[200.0, -200.0, 250.5, -250.5];
    for (mname, method) in [METHODS[0], METHODS[2], METHODS[3]] {
        for fixed in [true, false] {
            if mname == "RK4" && !fixed {
                continue;
            }
            for &span in spans {
                for len in [1usize, 3] {
                    for (pair, iframe) in sequences(follow.len(), 1, 2).into_iter().flat_map(|p| [(p.clone(), false), (p, true)]) {
                        let kmax = tier.pick(40, 130);
                        let key = format!("fault/{mname}/{}/{span}/len={len}{}/then={pair:?}", if fixed { "fixed" } else { "adaptive" }, if iframe { "/ecliptic" } else { "" });
                        sp.push(key, move |t| {
                            for k in 0..kmax {
                                let calls = Arc::new(AtomicUsize::new(0));
                                let dynamics = SpacecraftDynamics::new(OrbitalDynamics::new(vec![Arc::new(Faulty {
                                    calls: calls.clone(),
                                    fail_at: k,
                                    len,
                                    nan: false,
                                })]));
                                let mut opts = if fixed {
                                    IntegratorOptions::with_fixed_step(s(60.0))
                                } else {
                                    IntegratorOptions::builder().init_step(s(60.0)).min_step(s(0.1)).max_step(s(90.0)).tolerance(1e-10).build()
                                };
                                if iframe {
                                    opts.integration_frame = Some(EARTH_ECLIPJ2000.with_mu_km3_s2(MU));
                                }
                                let p = Propagator::new(dynamics, method, opts);
                                let start = sc(zoo(3));
                                let mut inst = p.with(start, almanac()).quiet();
                                let r1 = inst.for_duration(s(span));
                                t.step();
                                t.see(&(k, r1.is_err()));
                                if r1.is_ok() {
                                    break; // this propagation needs fewer evaluations
                                }
                                let at = inst.state;
                                let (r, _) = kepler(MU, start.orbit.radius_km, start.orbit.velocity_km_s, (at.epoch() - start.epoch()).to_seconds());
                                t.close("state kept after a fault", (at.orbit.radius_km - r).norm(), 0.0, 1e-2)?;
                                // let the fault clear
                                calls.fetch_add(len, Ordering::SeqCst);
                                further(t, &mut inst, pair.iter().map(|i| follow[*i]), if fixed { (60.0, 60.0) } else { (0.1, 90.0) }, fixed)
                                    .map_err(|e| format!("after a fault at evaluation {k}: {e}"))?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // (b') dynamics which stop being a number: adaptive steps never end on such a state
    for (mname, method) in METHODS.into_iter().filter(|m| m.0 != "RK4") {
        for &span in spans {
            for min in [0.1, 20.0] {
                for then in 0..follow.len() {
                    sp.push(format!("nan/{mname}/{span}/{min}/then={then}"), move |t| {
                        for k in 0..tier.pick(40, 130) {
                            let calls = Arc::new(AtomicUsize::new(0));
                            let bad = Faulty { calls: calls.clone(), fail_at: k, len: 1 << 40, nan: true };
                            let opts = IntegratorOptions::builder().init_step(s(60.0)).min_step(s(min)).max_step(s(90.0)).tolerance(1e-10).build();
                            let p = Propagator::new(SpacecraftDynamics::new(OrbitalDynamics::new(vec![Arc::new(bad)])), method, opts);
                            let start = sc(zoo(3));
                            let mut inst = p.with(start, almanac()).quiet();
                            let r = inst.for_duration(s(span));
                            t.step();
                            t.see(&(k, r.is_err()));
                            let at = inst.state;
                            t.ensure(at.to_vector().iter().all(|x| x.is_finite()), || format!("state {at} after evaluation {k} was not a number"))?;
                            match r {
                                Ok(x) => {
                                    t.ensure(x.to_vector().iter().all(|x| x.is_finite()), || format!("returned {x} after evaluation {k} was not a number"))?;
                                    break; // this propagation needs fewer evaluations
                                }
                                Err(_) => {
                                    calls.store(1 << 50, Ordering::SeqCst);
                                    further(t, &mut inst, [follow[then]].into_iter(), (min, 90.0), false).map_err(|e| format!("after evaluation {k} was not a number: {e}"))?;
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // (b'') what each error control measures
    for (cname, ctrl) in ctrls {
        sp.push(format!("error/{cname}"), move |t| {
            type V = nalgebra::SVector<f64, 9>;
            let vals = [0.0, 1e-9, 0.02, -0.07, 0.4, 3.0, -250.0, 7000.0];
            for i in 0..512usize {
                let pick = |k: usize| V::from_fn(|r, _| vals[(i / (1 + r % 3) + r * (k + 3) + i * k) % 8]);
                let (cand, cur) = (pick(1), pick(2));
                let err = pick(5) * 1e-6;
                let sub = |v: &V, a: usize, n: usize| v.rows(a, n).into_owned();
                let rss = |step: bool, a: usize, n: usize| {
                    let (c, p, e) = (sub(&cand, a, n), sub(&cur, a, n), sub(&err, a, n).norm());
                    let (mag, lim) = if step { ((c - p).norm(), 0.1f64.sqrt()) } else { (0.5 * (c + p).norm(), 0.1) };
                    if mag > lim { e / mag } else { e }
                };
                let l1 = |step: bool| {
                    let mag: f64 = (0..9).map(|r| if step { (cand[r] - cur[r]).abs() } else { 0.5 * (cand[r] + cur[r]).abs() }).sum();
                    let e: f64 = (0..9).map(|r| err[r].abs()).sum();
                    if mag > 0.1 { e / mag } else { e }
                };
                let want = match cname {
                    "rsscart-step" => rss(true, 0, 3).max(rss(true, 3, 3)),
                    "rsscart-state" => rss(false, 0, 3).max(rss(false, 3, 3)),
                    "rss-step" => rss(true, 0, 9),
                    "rss-state" => rss(false, 0, 9),
                    "largest-state" => l1(false),
                    "largest-step" => l1(true),
                    _ => {
                        // whether the sign of the change matters is not claimed
                        if (0..9).any(|r| cand[r] - cur[r] < -0.1) {
                            continue;
                        }
                        (0..9).map(|r| if cand[r] - cur[r] > 0.1 { (err[r] / (cand[r] - cur[r])).abs() } else { err[r].abs() }).fold(0.0, f64::max)
                    }
                };
                t.step();
                let got = ctrl.estimate(&err, &cand, &cur);
                t.see_f(&[got * 1e9]);
                t.close("error", got, want, 1e-12 * want)?;
            }
            Ok(())
        });
    }
    // (c) event interruptions
    for (mname, method) in [METHODS[0], METHODS[2], METHODS[3]] {
        for fixed in [true, false] {
            if mname == "RK4" && !fixed {
                continue;
            }
            for span in [4000.0, -4000.0] {
                for ta in [0.0, 90.0, 180.0, 270.0] {
                    for pair in sequences(follow.len(), 1, 2) {
                        let key =
                            format!("event/{mname}/{}/{span}/ta={ta}/then={pair:?}", if fixed { "fixed" } else { "adaptive" });
                        sp.push(key, move |t| {
                            let opts = if fixed {
                                IntegratorOptions::with_fixed_step(s(60.0))
                            } else {
                                IntegratorOptions::builder().init_step(s(60.0)).min_step(s(0.1)).max_step(s(90.0)).tolerance(1e-10).build()
                            };
                            let p = Propagator::new(two_body(), method, opts);
                            let start = sc(zoo(3));
                            let mut inst = p.with(start, almanac()).quiet();
                            let ev = Event::new(ScalarExpr::Element(OrbitalElement::TrueAnomaly), Condition::Equals(ta));
                            let _ = inst.until_event(s(span), &ev, None);
                            t.step();
                            let at = inst.state;
                            t.see_f(at.orbit.radius_km.as_slice());
                            let (r, _) = kepler(MU, start.orbit.radius_km, start.orbit.velocity_km_s, (at.epoch() - start.epoch()).to_seconds());
                            t.close("state kept after an event", (at.orbit.radius_km - r).norm(), 0.0, 0.2)?;
                            further(t, &mut inst, pair.iter().map(|i| follow[*i]), if fixed { (60.0, 60.0) } else { (0.1, 90.0) }, fixed)
                        });
                    }
                }
            }
        }
    }
    // (d) integration frames
    let frames = [
        ("ecliptic", EARTH_ECLIPJ2000.with_mu_km3_s2(MU)),
        ("same", earth()),
    ];
    for (fname, frame) in frames {
        for (mname, method) in [METHODS[0], METHODS[2]] {
            for seq in sequences(follow.len(), 1, tier.pick(2, 3)) {
                for stop in [false, true] {
                    let seq = seq.clone();
                    sp.push(format!("frame/{fname}/{mname}/{}/{seq:?}", if stop { "event" } else { "plain" }), move |t| {
                        let mut opts =
                            IntegratorOptions::builder().init_step(s(60.0)).min_step(s(0.1)).max_step(s(90.0)).tolerance(1e-10).build();
                        opts.integration_frame = Some(frame);
                        let p = Propagator::new(two_body(), method, opts);
                        let start = sc(zoo(3));
                        let mut inst = p.with(start, almanac()).quiet();
                        if stop {
                            let ev = Event::new(ScalarExpr::Element(OrbitalElement::TrueAnomaly), Condition::Equals(180.0));
                            let _ = inst.until_event(s(8000.0), &ev, None);
                            let at = inst.state;
                            t.ensure(at.orbit.frame.orient_origin_match(start.orbit.frame), || {
                                format!("after an event the state is left in {}", at.orbit.frame)
                            })?;
                            let (r, _) = kepler(MU, start.orbit.radius_km, start.orbit.velocity_km_s, (at.epoch() - start.epoch()).to_seconds());
                            t.close("state after event", (at.orbit.radius_km - r).norm(), 0.0, 1e-2)?;
                        }
                        further(t, &mut inst, seq.iter().map(|i| follow[*i]), (0.1, 90.0), false)
                    });
                }
            }
        }
    }
    sp
}

/// Further requests on an instance must behave exactly as on a fresh one.
fn further(
    t: &mut Tally,
    inst: &mut PropInstance<'_, SpacecraftDynamics>,
    durs: impl Iterator<Item = f64>,
    bounds: (f64, f64),
    fixed: bool,
) -> Result<(), String> {
    for d in durs {
        let before = inst.state;
        let (end, tr) = inst.for_duration_with_traj(s(d)).map_err(|e| format!("further request of {d} s: {e}"))?;
        t.step();
        t.ensure(end.epoch() == before.epoch() + s(d), || format!("further request of {d} s ended at {}", end.epoch()))?;
        t.ensure(end.orbit.frame.orient_origin_match(before.orbit.frame), || format!("frame changed to {}", end.orbit.frame))?;
        let (r, v) = kepler(MU, before.orbit.radius_km, before.orbit.velocity_km_s, d);
        t.close("further position", (end.orbit.radius_km - r).norm(), 0.0, 1e-2)?;
        t.close("further velocity", (end.orbit.velocity_km_s - v).norm(), 0.0, 1e-5)?;
        check_traj(t, &before, &end, &tr, s(d), s(bounds.0), s(bounds.1), fixed)?;
        t.see_f(end.orbit.radius_km.as_slice());
    }
    Ok(())
}


/// C05: propagating until the n-th occurrence of an event stops at that occurrence.
pub fn c05(tier: Tier) -> Space {
    let mut sp = Space::new(
        "grid: 3 orbits x 8 events (apsides, anomalies, altitude, node, velocity component, bounded range; in the state frame or \
         in another event frame) x n-th occurrence x search spans (including ones whose last partial step holds the event) x \
         forward/backward x integrators; oracle: all sign changes of the same event on the Keplerian motion, by bisection",
    );
    let el = |e| ScalarExpr::Element(e);
    let events: Vec<(&str, Event, bool)> = vec![
        ("apo", Event::apoapsis(), false),
        ("peri", Event::periapsis(), false),
        ("ta77", Event::new(el(OrbitalElement::TrueAnomaly), Condition::Equals(77.0)), false),
        ("rmag", Event::new(el(OrbitalElement::Rmag), Condition::Equals(0.0)), false), // value set per orbit below
        ("node", Event::new(el(OrbitalElement::Z), Condition::Equals(0.0)), false),
        ("node-ecl", Event::new(el(OrbitalElement::Z), Condition::Equals(0.0)), true),
        ("vy", Event::new(el(OrbitalElement::VY), Condition::GreaterThan(0.5)), false),
        // integrated in other axes than those of the state: the event stays that of the state
        ("node-int", Event::new(el(OrbitalElement::Z), Condition::Equals(0.0)), false),
        ("vy-int", Event::new(el(OrbitalElement::VY), Condition::GreaterThan(0.5)), false),
        ("x-between-ecl", Event::new(el(OrbitalElement::X), Condition::Between(-3000.0, 2500.0)), true),
    ];
    let ecl = EARTH_ECLIPJ2000.with_mu_km3_s2(MU);
    let orbs = [1usize, 3, 4];
    let methods = if tier.thorough() { vec![METHODS[0], METHODS[1], METHODS[2], METHODS[5]] } else { vec![METHODS[0], METHODS[2]] };
    for oi in orbs {
        let orb = zoo(oi);
        let period = orb.period().unwrap().to_seconds();
        for (ename, ev, in_ecl) in &events {
            let mut ev = ev.clone();
            if *ename == "rmag" {
                ev.condition = Condition::Equals(orb.sma_km().unwrap());
            }
            let in_ecl = *in_ecl;
            let in_int = ename.ends_with("-int");
            for (mname, method) in methods.iter().copied() {
                for back in [false, true] {
                    let sign = if back { -1.0 } else { 1.0 };
                    // All the crossings over 2.2 periods
                    let evr = ev.clone();
                    let eval = move |dt: f64| -> f64 {
                        let (r, v) = kepler(MU, orb.radius_km, orb.velocity_km_s, dt);
                        let o = Orbit::new(r.x, r.y, r.z, v.x, v.y, v.z, t0() + s(dt), earth());
                        let o = if in_ecl { almanac().transform_to(o, ecl, None).unwrap() } else { o };
                        evr.eval(o, &almanac()).unwrap()
                    };
                    let angle = ev.scalar.is_angle();
                    let mut cross = vec![];
                    let n = 1500;
                    let dt = 2.2 * period / n as f64;
                    let mut yp = eval(0.0);
                    for k in 1..=n {
                        let y = eval(sign * dt * k as f64);
                        if y * yp < 0.0 && (!angle || (y - yp).abs() < 180.0) {
                            let (mut a, mut b, ya) = (dt * (k - 1) as f64, dt * k as f64, yp);
                            for _ in 0..60 {
                                let m = 0.5 * (a + b);
                                if eval(sign * m) * ya > 0.0 { a = m } else { b = m }
                            }
                            cross.push(0.5 * (a + b));
                        }
                        yp = y;
                    }
                    let mut spans: Vec<(String, f64)> = vec![("2.2P".into(), 2.2 * period)];
                    // Ends 7 s after the n-th crossing, and 7 s before it.
                    for (i, c) in cross.iter().enumerate().take(3) {
                        spans.push((format!("{}+7s", i + 1), ((c + 7.0) * 1e3).round() / 1e3));
                        if *c > 30.0 {
                            spans.push((format!("{}-7s", i + 1), ((c - 7.0) * 1e3).round() / 1e3));
                        }
                    }
                    for (sname, span) in spans {
                        for nth in 1..=4usize {
                            let ev = ev.clone();
                            let cross = cross.clone();
                            let key = format!(
                                "{}/{ename}/{mname}/{}/span={sname}/nth={nth}",
                                ORBITS[oi].0,
                                if back { "back" } else { "fwd" }
                            );
                            sp.push(key, move |t| {
                                let max = 60.0;
                                if cross.windows(2).any(|w| w[1] - w[0] < 3.0 * max) {
                                    return Err("check error: crossings too close for the step size".into());
                                }
                                let mut opts =
                                    IntegratorOptions::builder().init_step(s(30.0)).min_step(s(0.01)).max_step(s(max)).tolerance(1e-11).build();
                                if in_int {
                                    opts.integration_frame = Some(ecl);
                                }
                                let p = Propagator::new(two_body(), method, opts);
                                let start = sc(orb);
                                let mut inst = p.with(start, almanac()).quiet();
                                let r = if nth == 1 {
                                    inst.until_event(s(sign * span), &ev, in_ecl.then_some(ecl))
                                } else {
                                    inst.until_nth_event(s(sign * span), &ev, in_ecl.then_some(ecl), nth)
                                };
                                t.step();
                                let inside: Vec<f64> = cross.iter().copied().filter(|c| *c < span).collect();
                                match r {
                                    Ok((st, tr)) => {
                                        t.ensure(inside.len() >= nth, || format!("found event #{nth} but only {} occur", inside.len()))?;
                                        let got = (st.epoch() - start.epoch()).to_seconds() * sign;
                                        t.close("event time", got, inside[nth - 1], 0.35)?;
                                        let (r, _) = kepler(MU, orb.radius_km, orb.velocity_km_s, got * sign);
                                        t.close("event state", (st.orbit.radius_km - r).norm(), 0.0, 0.05)?;
                                        t.ensure(st.orbit.frame.orient_origin_match(start.orbit.frame), || "event state frame".into())?;
                                        for w in tr.states.windows(2) {
                                            t.ensure(w[0].epoch() < w[1].epoch(), || "event trajectory is not in order".into())?;
                                        }
                                        t.ensure(tr.first().epoch() <= st.epoch() && tr.last().epoch() >= st.epoch(), || {
                                            "trajectory does not cover the event".into()
                                        })?;
                                        t.ensure((if back { tr.last() } else { tr.first() }).epoch() == start.epoch(), || {
                                            "trajectory does not start at the initial state".into()
                                        })?;
                                        t.see(&((got * 10.0) as i64, nth));
                                    }
                                    Err(PropagationError::NthEventError { nth: n, found }) => {
                                        t.ensure(inside.len() < nth, || {
                                            format!("event #{nth} not found (found {found}), although it occurs at {:.1} s of {span} s", inside[nth - 1])
                                        })?;
                                        t.ensure(n == nth && found == inside.len(), || format!("error reports {found} of {n}, {} occur", inside.len()))?;
                                        t.see(&(found, nth));
                                    }
                                    Err(e) => return Err(format!("unexpected error {e}")),
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    }
    sp
}


/// C04: the state transition matrix is the derivative of the flow, composes, and does not disturb the state.
pub fn c04(tier: Tier) -> Space {
    let mut sp = Space::new(
        "grid: orbits x dynamics (two body, point masses, gravity field, SRP) x integrators x step modes x spans x direction; the \
         9x9 STM is compared column by column with central differences of the nonlinear flow, propagation over every split of the \
         span composes, and the propagated state is the same with and without the STM",
    );
    sp.hang_s = 120.0;
    let spans: &[f64] = if tier.thorough() { &[60.0, -600.0, 3600.0, -7200.0] } else { &[600.0, -600.0, 3600.0] };
    for oi in 0..ORBITS.len() {
        for dname in ["two-body", "point-masses", "srp", "j2+srp"] {
            for (mname, method) in METHODS {
                if !tier.thorough() && !["RK89", "DP45", "RK4"].contains(&mname) {
                    continue;
                }
                for fixed in [true, false] {
                    if mname == "RK4" && !fixed {
                        continue;
                    }
                    for &span in spans {
                        let key = format!("{}/{dname}/{mname}/{}/{span}", ORBITS[oi].0, if fixed { "fixed" } else { "adaptive" });
                        sp.push(key, move |t| {
                            let dynamics = dyn_by_name(dname);
                            let opts = if fixed {
                                IntegratorOptions::with_fixed_step(s(if mname == "RK4" || mname == "DP45" { 5.0 } else { 30.0 }))
                            } else {
                                IntegratorOptions::builder().init_step(s(30.0)).min_step(s(0.01)).max_step(s(120.0)).tolerance(1e-12).build()
                            };
                            let p = Propagator::new(dynamics, method, opts);
                            let start = sc_full(zoo_full(oi));
                            let mut st = start;
                            st.enable_stm();
                            let run = |x: nyx_space::Spacecraft, d: f64| -> Result<nyx_space::Spacecraft, String> {
                                p.with(x, almanac()).quiet().for_duration(s(d)).map_err(|e| e.to_string())
                            };
                            let end = run(st, span)?;
                            t.step();
                            let phi = end.stm().map_err(|e| e.to_string())?;
                            // The state is not disturbed
                            let plain = run(start, span)?;
                            t.close("state with/without STM", (end.orbit.radius_km - plain.orbit.radius_km).norm(), 0.0, 1e-4)?;
                            // Composition
                            let mid = run(st, span * 0.4)?;
                            let mut mid2 = mid;
                            mid2.reset_stm();
                            let end2 = run(mid2, span * 0.6)?;
                            let comp = end2.stm().unwrap() * mid.stm().unwrap();
                            let through = run(mid, span * 0.6)?.stm().unwrap();
                            // Finite differences of the flow
                            let steps = [1e-1, 1e-1, 1e-1, 1e-4, 1e-4, 1e-4, 1e-2, 1e-2, 1e-2];
                            let scale = [1.0, 1.0, 1.0, 1e-3, 1e-3, 1e-3, 1.0, 1.0, 1.0];
                            for j in 0..9 {
                                let mut dv = nalgebra::SVector::<f64, 9>::zeros();
                                dv[j] = steps[j];
                                if j == 8 {
                                    continue; // prop mass: documented as held constant by the STM
                                }
                                let a = run(State::add(start, dv), span)?.to_vector();
                                let b = run(State::add(start, -dv), span)?.to_vector();
                                t.steps(2);
                                for i in 0..9 {
                                    let fd = (a[i] - b[i]) / (2.0 * steps[j]);
                                    // Nondimensionalise: length 1 km, speed 1e-3 km/s.
                                    let nd = scale[j] / scale[i];
                                    let colmax = (0..9).map(|k| (phi[(k, j)] * scale[j] / scale[k]).abs()).fold(0.0, f64::max);
                                    let tol = 2e-5 * colmax.max(1.0);
                                    t.close(&format!("d x{i}(t) / d x{j}(0)"), phi[(i, j)] * nd, fd * nd, tol)?;
                                    t.close(&format!("composition [{i},{j}]"), comp[(i, j)] * nd, phi[(i, j)] * nd, tol)?;
                                    t.close(&format!("continuation [{i},{j}]"), through[(i, j)] * nd, phi[(i, j)] * nd, tol)?;
                                }
                            }
                            t.see_f(&[phi[(0, 0)], phi[(1, 4)], phi[(5, 2)] * 1e3, phi[(0, 6)]]);
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    sp
}

/// Orbits in a frame with full constants.
pub fn zoo_full(i: usize) -> Orbit {
    let mut o = zoo(i);
    o.frame = almanac().frame_info(EARTH_J2000).unwrap();
    o
}
pub fn sc_full(o: Orbit) -> nyx_space::Spacecraft {
    nyx_space::Spacecraft::builder()
        .orbit(o)
        .mass(Mass::from_dry_and_prop_masses(300.0, 100.0))
        .srp(SRPData { area_m2: 20.0, coeff_reflectivity: 1.3 })
        .drag(DragData { area_m2: 10.0, coeff_drag: 2.1 })
        .build()
}
pub fn dyn_by_name(name: &str) -> SpacecraftDynamics {
    let pm = || Arc::new(PointMasses::new(vec![10, 301]));
    let srp = || SolarPressure::default_flux(EARTH_J2000, &almanac()).unwrap();
    match name {
        "two-body" => two_body(),
        "point-masses" => SpacecraftDynamics::new(OrbitalDynamics::new(vec![pm()])),
        "srp" => SpacecraftDynamics::from_model(OrbitalDynamics::new(vec![]), srp()),
        _ => SpacecraftDynamics::from_model(
            OrbitalDynamics::new(vec![
                GravityField::new(GravityFieldData::from_j2(-4.841_653_711_73e-4, almanac().frame_info(IAU_EARTH_FRAME).unwrap())),
                pm(),
            ]),
            srp(),
        ),
    }
}
