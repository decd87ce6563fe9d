//! C12..C13: tracking data arcs: arc algebra and persistence (Parquet, CCSDS TDM).
use crate::core::*;
use crate::traj::{bmap, bounds, in_bound};
use crate::world::*;
use hifitime::{Duration, Epoch, TimeScale, Unit};
use indexmap::IndexSet;
use nalgebra::{U3, U4};
use nyx_space::io::ExportCfg;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use std::collections::{BTreeMap, HashMap};
use std::ops::Bound;

use MeasurementType as M;
const TYPES: [M; 7] = [M::Range, M::Doppler, M::Azimuth, M::Elevation, M::X, M::Y, M::Z];

/// The reference: at most one record per (epoch, tracker), in chronological then alphabetical order.
#[derive(Clone, Default, PartialEq, Debug)]
struct Model {
    rec: BTreeMap<(Epoch, String), (BTreeMap<usize, f64>, bool)>,
    force_reject: bool,
}
fn ti(t: M) -> usize {
    TYPES.iter().position(|x| *x == t).unwrap()
}
impl Model {
    fn of(frags: &[Frag]) -> Self {
        let mut m = Model::default();
        for f in frags {
            let e = m.rec.entry((t0() + f.dt, f.trk.to_string())).or_default();
            for (t, v) in &f.data {
                e.0.insert(ti(*t), *v);
            }
            e.1 |= f.rejected;
        }
        m
    }
    fn retain(&mut self, f: impl Fn(&(Epoch, String)) -> bool) {
        self.rec.retain(|k, _| f(k));
    }
}
#[derive(Clone)]
struct Frag {
    dt: Duration,
    trk: &'static str,
    data: Vec<(M, f64)>,
    rejected: bool,
}
fn fr(dt: f64, trk: &'static str, data: &[(M, f64)]) -> Frag {
    Frag { dt: s(dt), trk, data: data.to_vec(), rejected: false }
}
fn arc_of(frags: &[Frag]) -> TrackingDataArc {
    let mut a = TrackingDataArc::default();
    for f in frags {
        let mut m = Measurement::new(f.trk.to_string(), t0() + f.dt);
        for (t, v) in &f.data {
            m = m.with(*t, *v);
        }
        m.rejected = f.rejected;
        a.measurements.push(m);
    }
    a.sort();
    a
}
fn see_arc(t: &mut Tally, a: &TrackingDataArc) {
    let mut v = vec![];
    for m in &a.measurements {
        v.push((m.epoch - t0()).to_seconds());
        v.push(m.tracker.len() as f64 + m.rejected as u8 as f64 * 0.5);
        for (k, x) in &m.data {
            v.push(ti(*k) as f64);
            v.push(*x);
        }
    }
    t.see_f(&v);
}
fn dump(a: &TrackingDataArc) -> String {
    a.measurements.iter().map(|m| format!("{:.3}:{}{}{:?}", (m.epoch - t0()).to_seconds(), m.tracker, if m.rejected { "!" } else { "" }, m.data)).collect::<Vec<_>>().join(" ")
}
/// Whole observable state of the arc against the model.
fn agree(t: &mut Tally, what: &str, a: &TrackingDataArc, m: &Model) -> Result<(), String> {
    t.step();
    see_arc(t, a);
    let want: Vec<_> = m.rec.iter().collect();
    let msg = |x: &str| format!("{what}: {x}; arc is [{}], want {:?}", dump(a), m.rec.iter().map(|(k, v)| format!("{:.3}:{}{}{:?}", (k.0 - t0()).to_seconds(), k.1, if v.1 { "!" } else { "" }, v.0)).collect::<Vec<_>>());
    t.ensure(a.len() == want.len() && a.measurements.len() == want.len(), || msg("number of measurements"))?;
    t.ensure(a.is_empty() == want.is_empty(), || msg("is_empty"))?;
    for (g, (k, (d, rej))) in a.measurements.iter().zip(&want) {
        t.ensure(g.epoch == k.0 && g.tracker == k.1, || msg("order of the measurements"))?;
        t.ensure(g.rejected == *rej, || msg("rejection flag"))?;
        t.ensure(g.data.len() == d.len() && g.data.iter().all(|(ty, v)| d.get(&ti(*ty)) == Some(v)), || msg("measurement data"))?;
        // Observation vector and availability in a fixed order of types, whatever the insertion order.
        let order: IndexSet<M> = [M::Elevation, M::Range, M::X, M::Doppler].into_iter().collect();
        let obs = g.observation::<U4>(&order);
        let av = g.availability(&order);
        for (i, ty) in order.iter().enumerate() {
            let w = d.get(&ti(*ty));
            t.ensure(av[i] == w.is_some() && obs[i] == *w.unwrap_or(&0.0), || msg("observation vector / availability"))?;
        }
        let one: IndexSet<M> = [M::Doppler].into_iter().collect();
        t.ensure(g.observation::<U3>(&one)[0] == *d.get(&1).unwrap_or(&0.0), || msg("observation vector with one type"))?;
    }
    t.ensure(a.force_reject == m.force_reject, || msg("force_reject"))?;
    let first = want.first().map(|x| x.0.0);
    let last = want.last().map(|x| x.0.0);
    t.ensure(a.start_epoch() == first && a.end_epoch() == last, || msg("start or end epoch"))?;
    t.ensure(a.duration() == first.map(|f| last.unwrap() - f), || msg("duration"))?;
    if want.len() > 1 {
        let sep = want.windows(2).map(|w| w[1].0.0 - w[0].0.0).min();
        t.ensure(a.min_duration_sep() == sep, || msg("minimum separation"))?;
    }
    let mut trk: Vec<String> = a.unique_aliases().into_iter().collect();
    trk.sort();
    let mut wt: Vec<String> = want.iter().map(|x| x.0.1.clone()).collect();
    wt.sort();
    wt.dedup();
    t.ensure(trk == wt, || msg("unique trackers"))?;
    let mut ty: Vec<usize> = a.unique_types().into_iter().map(ti).collect();
    ty.sort();
    let mut wty: Vec<usize> = want.iter().flat_map(|x| x.1.0.keys().copied()).collect();
    wty.sort();
    wty.dedup();
    t.ensure(ty == wty, || msg("unique types"))?;
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    FE(Bound<f64>, Bound<f64>),
    XE(Bound<f64>, Bound<f64>),
    RE(Bound<f64>, Bound<f64>),
    FO(Bound<f64>, Bound<f64>),
    FT(&'static str),
    XT(&'static str),
    RT(&'static str),
    FM(M),
    XM(M),
    Ref,
    Add(usize),
    AddAssign(usize),
    Chunk(f64),
}
fn base(i: usize) -> Vec<Frag> {
    match i {
        // Two trackers, partly simultaneous, partial records, one rejected.
        0 => {
            let mut v = vec![
                fr(0.0, "B", &[(M::Range, 1.0), (M::Doppler, 2.0)]),
                fr(0.0, "A", &[(M::Doppler, 3.0)]),
                fr(60.0, "A", &[(M::Range, 4.0)]),
                fr(120.0, "A", &[(M::Elevation, 5.0), (M::Azimuth, 6.0)]),
                fr(120.0, "B", &[(M::Doppler, -7.0)]),
                fr(180.000000001, "B", &[(M::Range, 8.0), (M::Elevation, 9.0)]),
            ];
            v[2].rejected = true;
            v
        }
        // A single tracker, regular.
        1 => (0..5).map(|k| fr(60.0 * k as f64, "A", &[(M::Range, 10.0 + k as f64), (M::Doppler, -(k as f64))])).collect(),
        // One measurement.
        2 => vec![fr(90.0, "C", &[(M::X, 1.0), (M::Y, 2.0), (M::Z, 3.0)])],
        // Interleaves with base 0 and completes one of its records with another type.
        _ => vec![fr(-60.0, "B", &[(M::Range, 20.0)]), fr(60.0, "A", &[(M::Doppler, 21.0)]), fr(90.0, "A", &[(M::Azimuth, 22.0)]), fr(300.0, "C", &[(M::Elevation, 23.0)])],
    }
}
fn apply(a: TrackingDataArc, m: &mut Model, op: &Op) -> Result<TrackingDataArc, String> {
    let ep = |x: f64| t0() + s(x);
    Ok(match op {
        Op::FE(lo, hi) => {
            let b = (bmap(lo, ep), bmap(hi, ep));
            m.retain(|k| in_bound(&b, &k.0));
            a.filter_by_epoch(b)
        }
        Op::XE(lo, hi) => {
            let b = (bmap(lo, ep), bmap(hi, ep));
            m.retain(|k| !in_bound(&b, &k.0));
            a.exclude_by_epoch(b)
        }
        Op::RE(lo, hi) => {
            let b = (bmap(lo, ep), bmap(hi, ep));
            for (k, v) in m.rec.iter_mut() {
                v.1 |= in_bound(&b, &k.0);
            }
            a.reject_by_epoch(b)
        }
        Op::FO(lo, hi) => {
            if let Some((k, _)) = m.rec.iter().next() {
                let z = k.0;
                let b = (bmap(lo, |x| z + s(x)), bmap(hi, |x| z + s(x)));
                m.retain(|k| in_bound(&b, &k.0));
            }
            a.filter_by_offset((bmap(lo, s), bmap(hi, s)))
        }
        Op::FT(x) => {
            m.retain(|k| k.1 == *x);
            a.filter_by_tracker(x.to_string())
        }
        Op::XT(x) => {
            m.retain(|k| k.1 != *x);
            a.exclude_tracker(x.to_string())
        }
        Op::RT(x) => {
            for (k, v) in m.rec.iter_mut() {
                v.1 |= k.1 == *x;
            }
            a.reject_by_tracker(x)
        }
        Op::FM(x) => {
            m.rec.retain(|_, v| {
                v.0.retain(|k, _| *k == ti(*x));
                !v.0.is_empty()
            });
            a.filter_by_measurement_type(*x)
        }
        Op::XM(x) => {
            m.rec.retain(|_, v| {
                v.0.retain(|k, _| *k != ti(*x));
                !v.0.is_empty()
            });
            a.exclude_measurement_type(*x)
        }
        Op::Ref => {
            m.force_reject = true;
            a.resid_vs_ref_check()
        }
        Op::Add(i) | Op::AddAssign(i) => {
            // Merge, adding only the observables that do not conflict with those already there.
            let mut other = base(*i);
            for f in other.iter_mut() {
                if let Some(r) = m.rec.get(&(t0() + f.dt, f.trk.to_string())) {
                    f.data.retain(|(ty, _)| !r.0.contains_key(&ti(*ty)));
                }
            }
            other.retain(|f| !f.data.is_empty());
            for (k, v) in Model::of(&other).rec {
                let e = m.rec.entry(k).or_default();
                e.0.extend(v.0);
                e.1 |= v.1;
            }
            m.force_reject = false;
            if matches!(op, Op::Add(_)) {
                a + arc_of(&other)
            } else {
                let mut a = a;
                a += arc_of(&other);
                a
            }
        }
        Op::Chunk(x) => {
            // The chunks partition the arc, in order, none longer than requested, none extensible.
            let chunks = a.chunk(s(*x));
            let mut back = TrackingDataArc { measurements: vec![], ..a.clone() };
            for (i, c) in chunks.iter().enumerate() {
                if c.is_empty() {
                    return Err(format!("chunk {i} is empty"));
                }
                if c.duration().unwrap() > s(*x) {
                    return Err(format!("chunk {i} lasts {}", c.duration().unwrap()));
                }
                if let Some(n) = chunks.get(i + 1)
                    && n.start_epoch().unwrap() - c.start_epoch().unwrap() <= s(*x)
                {
                    return Err(format!("chunk {} starts within chunk {i}", i + 1));
                }
                if c.force_reject != a.force_reject || c.moduli != a.moduli || c.source != a.source {
                    return Err(format!("chunk {i} loses the settings of the arc"));
                }
                back.measurements.extend(c.measurements.clone());
            }
            back
        }
    })
}
fn ops(small: bool) -> Vec<(String, Op)> {
    let mut v: Vec<Op> = vec![];
    let vals: &[f64] = if small { &[60.0] } else { &[60.0, 120.0, 150.0] };
    let bs = bounds(vals);
    for lo in &bs {
        for hi in &bs {
            if small && matches!((lo, hi), (Bound::Unbounded, Bound::Unbounded)) {
                continue;
            }
            v.push(Op::FE(*lo, *hi));
            v.push(Op::FO(*lo, *hi));
            v.push(Op::XE(*lo, *hi));
            v.push(Op::RE(*lo, *hi));
        }
    }
    for x in ["A", "B", "Z"] {
        if small && x == "Z" {
            continue;
        }
        v.extend([Op::FT(x), Op::XT(x), Op::RT(x)]);
    }
    for x in [M::Range, M::Doppler, M::Elevation, M::X] {
        if small && x == M::X {
            continue;
        }
        v.extend([Op::FM(x), Op::XM(x)]);
    }
    v.push(Op::Ref);
    for i in [0, 1, 3] {
        v.push(Op::Add(i));
    }
    v.push(Op::AddAssign(2));
    for x in [0.5, 60.0, 119.0, 120.0, 1e4] {
        if small && (x == 0.5 || x == 119.0) {
            continue;
        }
        v.push(Op::Chunk(x));
    }
    v.into_iter().map(|o| (format!("{o:?}").replace("Included", "I").replace("Excluded", "E").replace("Unbounded", "U").replace(' ', ""), o)).collect()
}

pub fn c12(tier: Tier) -> Space {
    let mut sp = Space::new("every permutation of fragments inserted in an arc, every sequence of arc operations (epoch and offset windows with every kind of bound, tracker and type filters and exclusions, rejections, merges, chunking) up to depth 2 (quick) or 3 (thorough) from four base arcs compared after each operation with a reference map of records, every modulus of an alphabet, and every downsampling ratio");
    // 1. Insertion order.
    let frags = {
        let mut f = vec![
            fr(0.0, "A", &[(M::Range, 1.0)]),
            fr(0.0, "A", &[(M::Doppler, 2.0)]),
            fr(0.0, "B", &[(M::Range, 3.0)]),
            fr(-10.0, "B", &[(M::Range, 4.0)]),
            fr(0.000000001, "A", &[(M::Elevation, 5.0)]),
            fr(-10.0, "B", &[(M::Elevation, 6.0), (M::Azimuth, 7.0)]),
        ];
        f[1].rejected = true;
        f
    };
    let n = tier.pick(5, 6);
    for p in permutations(n) {
        let frags = frags.clone();
        sp.push(format!("insert order {p:?}"), move |t| {
            let fs: Vec<Frag> = p.iter().map(|i| frags[*i].clone()).collect();
            let a = arc_of(&fs);
            agree(t, "after sort", &a, &Model::of(&fs))?;
            // Merging arcs built of every prefix/suffix split is the same arc.
            for k in 0..=fs.len() {
                let b = arc_of(&fs[..k]) + arc_of(&fs[k..]);
                agree(t, &format!("merge of the first {k} and of the others"), &b, &Model::of(&fs))?;
                t.ensure(a == b && b == a, || "merged arcs are not equal".into())?;
            }
            let mut again = a.clone();
            again.sort();
            agree(t, "sorted twice", &again, &Model::of(&fs))
        });
    }
    // 2. Operation sequences.
    for b in 0..4 {
        for (n1, o1) in ops(false) {
            let second = ops(tier.thorough());
            sp.push(format!("arc {b} ops {n1}"), move |t| {
                let mut m = Model::of(&base(b));
                let a = arc_of(&base(b));
                agree(t, "base", &a, &m)?;
                let a = apply(a, &mut m, &o1)?;
                agree(t, &n1, &a, &m)?;
                for (n2, o2) in &second {
                    let mut m2 = m.clone();
                    let a2 = apply(a.clone(), &mut m2, o2).map_err(|e| format!("{n1} then {n2}: {e}"))?;
                    agree(t, &format!("{n1} then {n2}"), &a2, &m2)?;
                    if tier.thorough() {
                        for (n3, o3) in &second {
                            let mut m3 = m2.clone();
                            let a3 = apply(a2.clone(), &mut m3, o3).map_err(|e| format!("{n1} then {n2} then {n3}: {e}"))?;
                            agree(t, &format!("{n1} then {n2} then {n3}"), &a3, &m3)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // 3. Moduli: only the types with a modulus are wrapped, and wrapped values are congruent and within [0, modulus).
    for (mi, mods) in [vec![], vec![(M::Range, 75_660.0)], vec![(M::Range, 10.0), (M::Doppler, 0.3)], vec![(M::Range, 0.0)], vec![(M::Range, f64::NAN)], vec![(M::Range, 10.0), (M::Range, 7.0)]].into_iter().enumerate() {
        for x in [0.0, 3.0, 9.999, 10.0, 75_659.5, 75_660.0, 75_661.0, 400_000.25] {
            let mods = mods.clone();
            sp.push(format!("moduli {mi} range {x}"), move |t| {
                let mut a = arc_of(&[fr(0.0, "A", &[(M::Range, x), (M::Elevation, 77.0)]), fr(1.0, "B", &[(M::Doppler, x * 1e-3)])]);
                for (ty, v) in &mods {
                    a.set_moduli(*ty, *v);
                }
                let modulus = |ty: M| mods.iter().rev().find(|y| y.0 == ty && y.1 > 0.0).map(|y| y.1);
                a.apply_moduli();
                t.step();
                see_arc(t, &a);
                let want = |ty: M, v: f64| modulus(ty).map_or(v, |m| v - (v / m).floor() * m);
                t.close("range", a.measurements[0].data[&M::Range], want(M::Range, x), 1e-9)?;
                t.close("elevation", a.measurements[0].data[&M::Elevation], 77.0, 0.0)?;
                t.close("doppler", a.measurements[1].data[&M::Doppler], want(M::Doppler, x * 1e-3), 1e-9)?;
                // The settings survive the operations that keep measurements.
                for (what, b) in [("filter", a.clone().filter_by_tracker("A".into())), ("exclude", a.clone().exclude_measurement_type(M::Elevation)), ("chunk", a.chunk(s(0.5))[0].clone()), ("downsample", a.downsample(s(10.0))), ("reject", a.clone().reject_by_tracker("A"))] {
                    t.step();
                    t.ensure(b.moduli == a.moduli, || format!("{what} changes the moduli from {:?} to {:?}", a.moduli, b.moduli))?;
                }
                Ok(())
            });
        }
    }
    // 4. Equality of measurements.
    let sets: Vec<Vec<usize>> = (0..8).map(|b: usize| (0..3).filter(|i| b >> i & 1 == 1).collect()).collect();
    for p in product(&[8, 8, 2, 2, 2]) {
        let (a, b) = (sets[p[0]].clone(), sets[p[1]].clone());
        let (trk, ep, val) = (p[2] == 1, p[3] == 1, p[4] == 1);
        sp.push(format!("equality {p:?}"), move |t| {
            let mk = |v: &[usize], trk: bool, ep: bool, off: f64| {
                let mut m = Measurement::new(if trk { "A" } else { "B" }.into(), t0() + if ep { ns(0) } else { ns(1) });
                for i in v {
                    m.push(TYPES[*i], *i as f64 + off);
                }
                m
            };
            let (x, y) = (mk(&a, true, true, 0.0), mk(&b, trk, ep, if val { 0.0 } else { 1e-3 }));
            let want = trk && ep && a == b && (val || a.is_empty());
            t.step();
            t.see_f(&[p[0] as f64, p[1] as f64, trk as u8 as f64, ep as u8 as f64, val as u8 as f64]);
            t.ensure((x == y) == want && (y == x) == want, || format!("{x:?} == {y:?} is {} and {}, want {want}", x == y, y == x))
        });
    }
    // 5. Downsampling.
    for (n, ratio, step, layout) in itertools4(&[1, 2, 9, 30], &tier.pick(vec![1.0, 2.0, 3.0, 10.0], vec![1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0, 40.0]), &[1.0, 10.0], &[0, 1, 2]) {
        sp.push(format!("downsample {n} of {step} s by {ratio} layout {layout}"), move |t| {
            // Layout 0: one tracker; 1: two trackers simultaneous; 2: two trackers, alternating.
            let val = |trk: &str, dt: f64| if trk == "A" { 100.0 + 2.0 * dt } else { -5000.0 - 3.0 * dt };
            let mut fs = vec![];
            for k in 0..n {
                let dt = k as f64 * step;
                fs.push(fr(dt, "A", &[(M::Range, val("A", dt)), (M::Doppler, 1.0)]));
                if layout > 0 {
                    let dt = dt + if layout == 2 { 0.5 * step } else { 0.0 };
                    fs.push(fr(dt, "B", &[(M::Range, val("B", dt))]));
                }
            }
            let a = arc_of(&fs);
            let d = a.downsample(s(ratio * step));
            t.step();
            see_arc(t, &d);
            for trk in ["A", "B"] {
                let orig: Vec<_> = a.measurements.iter().filter(|m| m.tracker == trk).collect();
                let down: Vec<_> = d.measurements.iter().filter(|m| m.tracker == trk).collect();
                let w = if orig.len() < 2 { 1 } else { ratio as usize };
                let want: Vec<_> = orig.iter().step_by(w).collect();
                t.ensure(want.len() == down.len(), || format!("{trk}: {} samples, want one in {w} of {}", down.len(), orig.len()))?;
                for (i, (x, y)) in down.iter().zip(&want).enumerate() {
                    t.ensure(x.epoch == y.epoch, || format!("{trk}: sample at {}, want {}", x.epoch, y.epoch))?;
                    t.ensure(x.data.len() == y.data.len(), || format!("{trk}: sample with {:?}", x.data))?;
                    let v = x.data[&M::Range];
                    let c = i * w;
                    let interior = c >= w && c + w < orig.len();
                    // A symmetric moving average of a line is the line; truncated windows stay within the window.
                    let slope = if trk == "A" { 2.0 } else { 3.0 };
                    t.close(&format!("{trk} range of sample {i}"), v, y.data[&M::Range], if w == 1 { 0.0 } else if interior { 1e-9 } else { slope * step * (w as f64) / 2.0 + 1e-9 })?;
                    if trk == "A" {
                        t.close("constant doppler", x.data[&M::Doppler], 1.0, 1e-12)?;
                    }
                }
            }
            Ok(())
        });
    }
    // Rejected measurements stay out of the averages of the others.
    for (n, ratio) in [(7usize, 2usize), (7, 3), (8, 4)] {
        for mask in 0..(1usize << n) {
            sp.push(format!("downsample rejected {n} by {ratio} mask {mask:b}"), move |t| {
                let fs: Vec<_> = (0..n).map(|k| fr(k as f64, "A", &[(M::Range, if mask >> k & 1 == 1 { 1e9 } else { 7.0 })])).collect();
                let mut a = arc_of(&fs);
                for (k, m) in a.measurements.iter_mut().enumerate() {
                    m.rejected = mask >> k & 1 == 1;
                }
                let d = a.downsample(s(ratio as f64));
                t.step();
                see_arc(t, &d);
                t.ensure(d.len() == n.div_ceil(ratio), || format!("{} samples", d.len()))?;
                for (i, m) in d.measurements.iter().enumerate() {
                    t.ensure(m.epoch == a.measurements[i * ratio].epoch, || format!("sample at {}", m.epoch))?;
                    t.ensure(m.rejected || (m.data[&M::Range] - 7.0).abs() < 1e-9, || format!("rejected measurements enter sample {i}: {}", m.data[&M::Range]))?;
                    t.ensure(!m.rejected || a.measurements[i * ratio].rejected, || format!("sample {i} is rejected, its measurement was not"))?;
                }
                Ok(())
            });
        }
    }
    // 6. Corrections.
    sp.push("correct", |t| {
        for ty in TYPES {
            for c in [-3.0, 0.0, 2.5] {
                let mut m = Measurement::new("A".into(), t0()).with(M::Range, 1.0).with(M::Elevation, 2.0).with(M::X, 3.0);
                m.correct(ty, c);
                t.step();
                t.close("range", m.data[&M::Range], 1.0 + if ty == M::Range { c } else { 0.0 }, 0.0)?;
                t.close("elevation", m.data[&M::Elevation], 2.0 + if ty == M::Elevation { c } else { 0.0 }, 0.0)?;
                t.close("x", m.data[&M::X], 3.0 + if ty == M::X { c } else { 0.0 }, 0.0)?;
                t.ensure(m.data.len() == 3, || "a correction added a type".into())?;
            }
        }
        Ok(())
    });
    sp
}
fn itertools4<A: Copy, B: Copy, C: Copy, D: Copy>(a: &[A], b: &[B], c: &[C], d: &[D]) -> Vec<(A, B, C, D)> {
    product(&[a.len(), b.len(), c.len(), d.len()]).into_iter().map(|p| (a[p[0]], b[p[1]], c[p[2]], d[p[3]])).collect()
}

fn same_arc(t: &mut Tally, what: &str, got: &TrackingDataArc, want: &TrackingDataArc, dt_tol: Duration, tol: f64) -> Result<(), String> {
    t.step();
    see_arc(t, got);
    let msg = |x: &str| format!("{what}: {x}; got [{}], want [{}]", dump(got), dump(want));
    t.ensure(got.len() == want.len(), || msg("number of measurements"))?;
    for (g, w) in got.measurements.iter().zip(&want.measurements) {
        t.ensure(!g.rejected, || msg("a measurement which was not rejected is read as rejected"))?;
        t.ensure(g.tracker == w.tracker, || msg("tracker"))?;
        t.ensure((g.epoch - w.epoch).abs() <= dt_tol, || msg("epoch"))?;
        t.ensure(g.data.len() == w.data.len(), || msg("types"))?;
        for (k, v) in &w.data {
            let x = g.data.get(k).copied().unwrap_or(f64::NAN);
            t.ensure((x - v).abs() <= tol, || msg(&format!("{k:?} is {x}, want {v}")))?;
        }
    }
    Ok(())
}
fn scaled(a: &TrackingDataArc, ts: TimeScale) -> TrackingDataArc {
    let mut b = a.clone();
    for m in &mut b.measurements {
        m.epoch = m.epoch.to_time_scale(ts);
    }
    b
}

pub fn c13(tier: Tier) -> Space {
    let mut sp = Space::new("every assignment of present/absent observables to the records of an arc, every time scale, every export window, written to and read from Parquet and CCSDS TDM; every CCSDS TDM file of a grammar (time system, path, participant alias, corrections, modulus, data types, frequency ramps); every malformed file of an alphabet");
    const TS: [TimeScale; 5] = [TimeScale::UTC, TimeScale::TAI, TimeScale::GPST, TimeScale::TT, TimeScale::TDB];
    // 1. Presence patterns: 2 trackers x 2 epochs x 3 observables, all 2^(12) or a projection.
    let kinds: [[M; 3]; 3] = [[M::Range, M::Doppler, M::Elevation], [M::Azimuth, M::Elevation, M::Range], [M::X, M::Y, M::Z]];
    let nbits = tier.pick(6, 9);
    for (ki, kind) in kinds.into_iter().enumerate() {
        for bits in 1..(1usize << nbits) {
            sp.push(format!("presence {ki} {bits:0w$b}", w = nbits), move |t| {
                let mut fs = vec![];
                for rec in 0..nbits / 3 {
                    let data: Vec<(M, f64)> = (0..3).filter(|k| bits >> (rec * 3 + k) & 1 == 1).map(|k| (kind[k], 1234.567890123 * (1.0 + rec as f64) / (k as f64 + 0.7) * if k == 1 { -1.0 } else { 1.0 })).collect();
                    if !data.is_empty() {
                        fs.push(fr([0.0, 0.0, 61.25][rec], ["North", "South"][rec % 2], &data));
                    }
                }
                let a = arc_of(&fs);
                let dir = scratch_dir(&format!("trk-{ki}-{bits}"));
                let p = dir.join("a.parquet");
                let r = a.to_parquet_simple(&p).map_err(|e| format!("to_parquet: {e}"))?;
                t.ensure(r == p, || format!("returned path {r:?}"))?;
                let b = TrackingDataArc::from_parquet(&p).map_err(|e| format!("from_parquet: {e}"))?;
                same_arc(t, "parquet", &b, &a, ns(0), 0.0)?;
                if ki < 2 {
                    let p = dir.join("a.tdm");
                    a.clone().to_tdm_file("SC".into(), None, &p, ExportCfg::default()).map_err(|e| format!("to_tdm: {e}"))?;
                    let b = TrackingDataArc::from_tdm(&p, None).map_err(|e| format!("from_tdm: {e}"))?;
                    same_arc(t, "tdm", &b, &a, ns(0), 1e-11)?;
                }
                Ok(())
            });
        }
    }
    // Long ones: a file is read in batches.
    for n in tier.pick(vec![1023, 1024, 1025, 2049], vec![512, 1023, 1024, 1025, 2047, 2048, 2049, 3073, 5000]) {
        for gap in 0..4usize {
            sp.push(format!("long {n} {gap}"), move |t| {
                let fs: Vec<Frag> = (0..n)
                    .map(|k| {
                        let mut data = vec![];
                        if gap == 0 || k % (gap + 1) != 1 {
                            data.push((M::Range, 1000.0 + k as f64 / 7.0));
                        }
                        if gap != 2 || k % 1024 != 0 {
                            data.push((M::Doppler, -3.0 + k as f64 / 700.0));
                        }
                        if data.is_empty() {
                            data.push((M::Range, 1.0));
                        }
                        fr(10.0 * (k / 2) as f64, ["North", "South"][k % 2], &data)
                    })
                    .collect();
                let a = arc_of(&fs);
                t.ensure(a.measurements.len() == n, || format!("{} records", a.measurements.len()))?;
                let dir = scratch_dir(&format!("trk-long-{n}-{gap}"));
                let p = dir.join("a.parquet");
                a.to_parquet_simple(&p).map_err(|e| e.to_string())?;
                same_arc(t, "parquet", &TrackingDataArc::from_parquet(&p).map_err(|e| e.to_string())?, &a, ns(0), 0.0)?;
                let p = dir.join("a.tdm");
                a.clone().to_tdm_file("SC".into(), None, &p, ExportCfg::default()).map_err(|e| e.to_string())?;
                same_arc(t, "tdm", &TrackingDataArc::from_tdm(&p, None).map_err(|e| e.to_string())?, &a, ns(0), 1e-11)
            });
        }
    }
    // 2. Time scales, sub-second epochs and export windows.
    let wins = bounds(&[0.0, 30.0, 61.25, 500.0]);
    for ts in TS {
        for (lo, hi) in wins.iter().filter(|b| !matches!(b, Bound::Excluded(_))).flat_map(|l| wins.iter().filter(|b| !matches!(b, Bound::Excluded(_))).map(move |h| (*l, *h))) {
            sp.push(format!("window {lo:?} {hi:?} in {ts:?}"), move |t| {
                let fs = vec![fr(0.0, "A", &[(M::Range, 1.5)]), fr(0.000001, "B", &[(M::Range, -2.5), (M::Doppler, 3.5)]), fr(61.25, "A", &[(M::Azimuth, 4.5)]), fr(400.123456, "A", &[(M::Range, 5.5), (M::Azimuth, 359.5)]), fr(31_000_000.0, "B", &[(M::Range, 6.5)])];
                let a = scaled(&arc_of(&fs), ts);
                let mut cfg = ExportCfg::default();
                let ep = |x: f64| t0() + s(x);
                // The end of an explicit window is compared off the samples only.
                let hi = if hi == Bound::Included(0.0) || hi == Bound::Included(61.25) { bmap(&hi, |x| x + 0.5) } else { hi };
                if let Bound::Included(x) = lo {
                    cfg.start_epoch = Some(ep(x));
                }
                if let Bound::Included(x) = hi {
                    cfg.end_epoch = Some(ep(x));
                }
                let b = (bmap(&lo, ep), bmap(&hi, ep));
                let mut want = a.clone();
                want.measurements.retain(|m| in_bound(&b, &m.epoch));
                let dir = scratch_dir(&format!("win-{ts:?}-{lo:?}-{hi:?}"));
                let tol = if ts == TimeScale::TDB { Unit::Microsecond * 1 } else { ns(0) };
                let p = dir.join("a.parquet");
                let w = a.to_parquet(&p, cfg.clone());
                if want.is_empty() {
                    t.step();
                } else {
                    w.map_err(|e| format!("to_parquet: {e}"))?;
                    let b = TrackingDataArc::from_parquet(&p).map_err(|e| format!("from_parquet: {e}"))?;
                    same_arc(t, "parquet", &b, &want, tol, 0.0)?;
                    let p = dir.join("a.tdm");
                    a.clone().to_tdm_file("SC".into(), None, &p, cfg).map_err(|e| format!("to_tdm: {e}"))?;
                    let b = TrackingDataArc::from_tdm(&p, None).map_err(|e| format!("from_tdm: {e}"))?;
                    let mut sorted = want.clone();
                    sorted.sort();
                    same_arc(t, "tdm", &b, &sorted, tol, 1e-11)?;
                }
                Ok(())
            });
        }
    }
    // 3. Aliases, modulus and metadata of TDM files.
    for (alias_w, alias_r, modulus) in product(&[3, 3, 3]).into_iter().map(|p| (p[0], p[1], p[2])) {
        sp.push(format!("tdm aliases {alias_w} {alias_r} modulus {modulus}"), move |t| {
            let mut a = arc_of(&[fr(0.0, "North", &[(M::Range, 70_000.125), (M::Elevation, 33.0)]), fr(10.0, "South", &[(M::Doppler, -1.25)])]);
            if modulus > 0 {
                a.set_moduli(M::Range, [0.0, 75_660.0, 0.1 + 0.2][modulus]);
            }
            let map = |i: usize| match i {
                0 => None,
                1 => Some(HashMap::from([("North".to_string(), "DSS-65".to_string())])),
                _ => Some(HashMap::from([("DSS-65".to_string(), "North".to_string()), ("South".to_string(), "S 2".to_string())])),
            };
            let ren = |i: usize, x: &str| map(i).and_then(|m| m.get(x).cloned()).unwrap_or(x.to_string());
            let p = scratch_dir(&format!("al-{alias_w}-{alias_r}-{modulus}")).join("a.tdm");
            let cfg = ExportCfg::from_metadata(vec![("originator".into(), "Verif".into()), ("TIMETAG_REF".into(), "RECEIVE".into())]);
            a.clone().to_tdm_file("SC".into(), map(alias_w), &p, cfg).map_err(|e| format!("to_tdm: {e}"))?;
            let b = TrackingDataArc::from_tdm(&p, map(alias_r)).map_err(|e| format!("from_tdm: {e}"))?;
            let mut want = a.clone();
            for m in &mut want.measurements {
                m.tracker = ren(alias_r, &ren(alias_w, &m.tracker));
            }
            same_arc(t, "tdm", &b, &want, ns(0), 1e-11)?;
            let got = b.moduli.as_ref().and_then(|m| m.get(&M::Range).copied());
            let w = a.moduli.as_ref().and_then(|m| m.get(&M::Range).copied());
            t.ensure(got.is_some() == w.is_some() && (got.unwrap_or(0.0) - w.unwrap_or(0.0)).abs() < 1e-9, || format!("range modulus {got:?}, want {w:?}"))?;
            let text = std::fs::read_to_string(&p).unwrap();
            t.ensure(text.contains("ORIGINATOR = Verif") && text.contains("TIMETAG_REF = RECEIVE") && text.contains("PARTICIPANT_2 = SC"), || "the metadata of the file are incomplete".into())?;
            t.ensure(b.source.as_deref() == Some(&*p.display().to_string()), || format!("source {:?}", b.source))
        });
    }
    // 4. Files of a grammar.
    for p in product(&[TS.len(), 2, 4, 2, 3]) {
        let (ts, two_way, corr, modulus, order) = (TS[p[0]], p[1] == 1, p[2], p[3] == 1, p[4]);
        sp.push(format!("tdm text {p:?}"), move |t| {
            let div = if two_way { 2.0 } else { 1.0 };
            let mut txt = format!("CCSDS_TDM_VERS = 2.0\n\nCOMMENT hi\nMETA_START\n TIME_SYSTEM = {}\n PARTICIPANT_1 = GS\n PARTICIPANT_2 = SC\n MODE = SEQUENTIAL\n PATH = {}\n", if ts == TimeScale::GPST { "GPS".to_string() } else { format!("{ts}") }, if two_way { "1,2,1" } else { "1,2" });
            if corr > 0 {
                txt += " CORRECTION_RANGE = 0.5\n CORRECTION_ANGLE_2 = -1.5\n";
                // Unless the file says otherwise, its values are corrected.
                txt += [" CORRECTIONS_APPLIED = NO\n", " CORRECTIONS_APPLIED = YES\n", ""][corr - 1];
            }
            if modulus {
                txt += " RANGE_MODULUS = 7.566E+04\n";
            }
            txt += "META_STOP\nDATA_START\n";
            let mut lines = vec![
                " RANGE = 2024-02-29T12:00:00.000 4000.5\n",
                " DOPPLER_INSTANTANEOUS = 2024-02-29T12:00:00.000 -3.25\n",
                " ANGLE_1 = 2024-02-29T12:00:10.5 181.5\n",
                " ANGLE_2 = 2024-02-29T12:00:10.5 45.25\n",
                " RANGE = 2024-02-29T12:00:20 4002.5\n",
                " DOPPLER_INTEGRATED = 2024-02-29T12:00:20 1e-3\n",
            ];
            match order {
                1 => lines.reverse(),
                2 => lines.rotate_left(3),
                _ => {}
            }
            txt += &lines.concat();
            txt += "DATA_STOP\n";
            let f = scratch_dir(&format!("txt-{p:?}")).join("a.tdm");
            std::fs::write(&f, &txt).unwrap();
            let got = TrackingDataArc::from_tdm(&f, None).map_err(|e| format!("from_tdm: {e}"))?;
            let e0 = Epoch::from_gregorian(2024, 2, 29, 12, 0, 0, 0, ts);
            let (cr, ce) = if corr == 1 { (0.5, -1.5) } else { (0.0, 0.0) };
            let mut want = TrackingDataArc::default();
            want.measurements.push(Measurement::new("GS".into(), e0).with(M::Range, (4000.5 + cr) / div).with(M::Doppler, -3.25 / div));
            want.measurements.push(Measurement::new("GS".into(), e0 + s(10.5)).with(M::Azimuth, 181.5).with(M::Elevation, 45.25 + ce));
            want.measurements.push(Measurement::new("GS".into(), e0 + s(20.0)).with(M::Range, (4002.5 + cr) / div).with(M::Doppler, 1e-3 / div));
            same_arc(t, "tdm text", &got, &want, ns(0), 1e-12)?;
            let m = got.moduli.as_ref().and_then(|m| m.get(&M::Range).copied());
            t.ensure(m == if modulus { Some(75_660.0) } else { None }, || format!("modulus {m:?}"))
        });
    }
    // 5. Frequencies: every history of ramp/transmit/receive events up to a depth.
    let depth = tier.pick(3, 4);
    for q in sequences(5, 1, depth) {
        for ta in 0..2 {
            let q = q.clone();
            sp.push(format!("tdm frequencies {q:?} turnaround {ta}"), move |t| {
                const C: f64 = 299_792.458;
                let mut txt = String::from("CCSDS_TDM_VERS = 2.0\nMETA_START\nTIME_SYSTEM = UTC\nPARTICIPANT_1 = GS\nPARTICIPANT_2 = SC\nPATH = 1,2,1\n");
                if ta == 0 {
                    txt += "TURNAROUND_NUMERATOR = 240\nTURNAROUND_DENOMINATOR = 221\n";
                }
                txt += "META_STOP\nDATA_START\n";
                let e0 = Epoch::from_gregorian_utc(2024, 2, 29, 12, 0, 0, 0);
                // Reference: piecewise linear transmit frequency.
                let mut f: Option<f64> = None;
                let mut rate = 0.0;
                let mut last = 0.0;
                let mut want = TrackingDataArc::default();
                let mut sensible = true;
                for (i, ev) in q.iter().enumerate() {
                    let dt = 5.0 * i as f64;
                    let st = format!("2024-02-29T12:00:{:06.3}", dt);
                    if let Some(x) = f.as_mut() {
                        *x += rate * (dt - last);
                    }
                    last = dt;
                    match ev {
                        0 => {
                            f = Some(2.1e9 + 1000.0 * i as f64);
                            // A new frequency without a new rate: not exercised once a ramp is on.
                            sensible &= rate == 0.0;
                            txt += &format!("TRANSMIT_FREQ = {st} {}\n", f.unwrap());
                        }
                        1 => {
                            sensible &= f.is_some();
                            rate = 1.0 + i as f64;
                            txt += &format!("TRANSMIT_FREQ_RATE_1 = {st} {rate}\n");
                        }
                        2 => {
                            f = Some(2.2e9);
                            rate = -3.0;
                            txt += &format!("TRANSMIT_FREQ = {st} {}\nTRANSMIT_FREQ_RATE = {st} {rate}\n", f.unwrap());
                        }
                        3 => {
                            let rx = 2.2805e9 + 100.0 * i as f64;
                            txt += &format!("RECEIVE_FREQ_2 = {st} {rx}\n");
                            if let Some(x) = f
                                && ta == 0
                            {
                                let k = x * 240.0 / 221.0;
                                want.measurements.push(Measurement::new("GS".into(), e0 + s(dt)).with(M::Doppler, (k - rx) * C / (2.0 * k)));
                            }
                        }
                        _ => {
                            txt += &format!("RANGE = {st} {}\n", 100.0 * i as f64);
                            want.measurements.push(Measurement::new("GS".into(), e0 + s(dt)).with(M::Range, 50.0 * i as f64));
                        }
                    }
                }
                txt += "DATA_STOP\n";
                if !sensible {
                    return Ok(());
                }
                let file = scratch_dir(&format!("fq-{q:?}-{ta}")).join("a.tdm");
                std::fs::write(&file, &txt).unwrap();
                let got = TrackingDataArc::from_tdm(&file, None);
                if want.is_empty() {
                    t.step();
                    return t.ensure(got.is_err(), || "a file without any usable measurement is read".into());
                }
                let got = got.map_err(|e| format!("from_tdm: {e}"))?;
                same_arc(t, "frequencies", &got, &want, ns(0), 1e-6)
            });
        }
    }
    // Several segments: the metadata of one does not apply to the data of another.
    for q in sequences(8, 2, tier.pick(2, 3)) {
        sp.push(format!("tdm segments {q:?}"), move |t| {
            const C: f64 = 299_792.458;
            let mut txt = String::from("CCSDS_TDM_VERS = 2.0\n");
            let mut want = TrackingDataArc::default();
            for (i, k) in q.iter().enumerate() {
                let st = |j: usize| format!("2024-02-29T12:{:02}:{:02}.000", 10 * i, j);
                let ts = if *k == 7 { TimeScale::TAI } else { TimeScale::UTC };
                let e = |j: usize| Epoch::from_gregorian(2024, 2, 29, 12, 10 * i as u8, j as u8, 0, ts);
                let gs = if *k == 3 { "GS2" } else { "GS1" };
                let div = if *k == 1 || *k == 5 || *k == 6 { 1.0 } else { 2.0 };
                txt += &format!("META_START\nTIME_SYSTEM = {}\nPARTICIPANT_1 = {gs}\nPARTICIPANT_2 = SC\n", if *k == 7 { "TAI" } else { "UTC" });
                txt += if div == 2.0 { "PATH = 1,2,1\n" } else { "PATH = 2,1\n" };
                let (mut cr, mut ce, mut ta) = (0.0, 0.0, None);
                match k {
                    1 | 2 => {
                        cr = 3.0;
                        txt += "CORRECTION_RANGE = 3.0\nCORRECTIONS_APPLIED = NO\n";
                    }
                    3 => {
                        ce = -0.5;
                        txt += "CORRECTION_ANGLE_2 = -0.5\nCORRECTIONS_APPLIED = NO\n";
                    }
                    4 => txt += "CORRECTION_RANGE = 7.0\nCORRECTIONS_APPLIED = YES\n",
                    5 => {
                        ta = Some(240.0 / 221.0);
                        txt += "TURNAROUND_NUMERATOR = 240\nTURNAROUND_DENOMINATOR = 221\n";
                    }
                    6 => {
                        ta = Some(880.0 / 749.0);
                        txt += "TURNAROUND_NUMERATOR = 880\nTURNAROUND_DENOMINATOR = 749\n";
                    }
                    _ => {}
                }
                txt += &format!("META_STOP\nDATA_START\nRANGE = {} {}\nANGLE_2 = {} 45.0\n", st(0), 1000.0 + i as f64, st(1));
                want.measurements.push(Measurement::new(gs.into(), e(0)).with(M::Range, (1000.0 + i as f64 + cr) / div));
                want.measurements.push(Measurement::new(gs.into(), e(1)).with(M::Elevation, 45.0 + ce));
                if *k == 5 || *k == 6 || *k == 7 {
                    // Segment 7 has no turn-around ratio.
                    let (tx, rx) = (7.1e9, 7.1e9 * 880.0 / 749.0 + 1e3);
                    txt += &format!("TRANSMIT_FREQ_1 = {} {tx}\nRECEIVE_FREQ_2 = {} {rx}\n", st(2), st(3));
                    if let Some(ta) = ta {
                        want.measurements.push(Measurement::new(gs.into(), e(3)).with(M::Doppler, (tx * ta - rx) * C / (2.0 * tx * ta)));
                    }
                }
                txt += "DATA_STOP\n";
            }
            let f = scratch_dir(&format!("seg-{q:?}")).join("a.tdm");
            std::fs::write(&f, &txt).unwrap();
            let got = TrackingDataArc::from_tdm(&f, None).map_err(|e| format!("from_tdm: {e}"))?;
            want.measurements.sort_by_key(|m| m.epoch);
            same_arc(t, "segments", &got, &want, ns(0), 1e-6)
        });
    }
    // 6. Malformed files are reported as errors.
    let good = "CCSDS_TDM_VERS = 2.0\nMETA_START\nTIME_SYSTEM = UTC\nPARTICIPANT_1 = GS\nPATH = 1,2,1\nMETA_STOP\nDATA_START\nRANGE = 2024-02-29T12:00:00 1.0\nDATA_STOP\n";
    for (i, (from, to)) in [("UTC", "XYZ"), ("1,2,1", "1,2,3,4"), ("RANGE =", "VLBI_DELAY ="), ("2024-02-29T", "2024-02-30T"), ("2024-02-29T12:00:00", "yesterday"), ("1.0\n", "one\n"), ("RANGE = 2024-02-29T12:00:00 1.0\n", "")].into_iter().enumerate() {
        sp.push(format!("malformed tdm {i}"), move |t| {
            let f = scratch_dir(&format!("bad-{i}")).join("a.tdm");
            std::fs::write(&f, good).unwrap();
            t.step();
            TrackingDataArc::from_tdm(&f, None).map_err(|e| format!("the well formed file fails: {e}"))?;
            std::fs::write(&f, good.replacen(from, to, 1)).unwrap();
            t.step();
            t.ensure(TrackingDataArc::from_tdm(&f, None).is_err(), || format!("{to:?} in place of {from:?} is accepted"))
        });
    }
    {
        // Torn files and damaged columns.
        let arc_file = |w: &str| -> Result<std::path::PathBuf, String> {
            let p = scratch_dir(&format!("badc-{w}")).join("a.parquet");
            let mut arc = TrackingDataArc::default();
            for k in 0..4 {
                let mut m = nyx_space::od::msr::Measurement::new(if k % 2 == 0 { "A" } else { "B" }.to_string(), t0() + s(60.0 * k as f64));
                m.push(MeasurementType::Range, 1000.0 + k as f64);
                m.push(MeasurementType::Doppler, 1.0 + k as f64);
                arc.measurements.push(m);
            }
            arc.to_parquet_simple(&p).map_err(|e| e.to_string())?;
            Ok(p)
        };
        sp.push("damaged/torn", move |t| {
            let p = arc_file("torn")?;
            crate::traj::torn(t, &p, tier.pick(3, 1), &|p| TrackingDataArc::from_parquet(p).is_ok())
        });
        for how in ["drop", "retype", "int", "null"] {
            sp.push(format!("damaged/{how}"), move |t| {
                let p = arc_file(how)?;
                for c in crate::traj::columns_of(&p)? {
                    let q = p.with_extension("bad");
                    crate::traj::damage_column(&p, &q, &c, how)?;
                    t.step();
                    let got = TrackingDataArc::from_parquet(&q);
                    if how != "null" && (how != "drop" || c == "Epoch (UTC)" || c == "Tracking device") && (c.contains("km") || c == "Epoch (UTC)" || c == "Tracking device") {
                        t.ensure(got.is_err(), || format!("loaded although {c} is damaged ({how})"))?;
                    } else if let Ok(got) = got {
                        t.see(&(c, got.measurements.len()));
                    }
                }
                Ok(())
            });
        }
        sp.push("damaged/torn-tdm", move |t| {
            let f = scratch_dir("torn-tdm").join("a.tdm");
            let p = arc_file("tdm")?;
            let arc = TrackingDataArc::from_parquet(&p).map_err(|e| e.to_string())?;
            arc.clone().to_tdm_file("SC".into(), None, &f, ExportCfg::default()).map_err(|e| e.to_string())?;
            let all = std::fs::read(&f).map_err(|e| e.to_string())?;
            for k in 0..all.len() {
                std::fs::write(&f, &all[..k]).map_err(|e| e.to_string())?;
                t.step();
                if let Ok(got) = TrackingDataArc::from_tdm(&f, None) {
                    t.ensure(got.measurements.iter().all(|m| arc.measurements.iter().any(|x| x.epoch == m.epoch && x.tracker == m.tracker)), || format!("the first {k} bytes give measurements which were not written"))?;
                    t.ensure(got.measurements.iter().all(|m| !m.rejected), || "rejected measurements are read".into())?;
                }
            }
            Ok(())
        });
    }
    for (i, bytes) in [vec![], b"PAR1".to_vec(), b"not a parquet file at all".to_vec()].into_iter().enumerate() {
        sp.push(format!("malformed parquet {i}"), move |t| {
            let f = scratch_dir(&format!("badp-{i}")).join("a.parquet");
            std::fs::write(&f, &bytes).unwrap();
            t.step();
            t.ensure(TrackingDataArc::from_parquet(&f).is_err(), || "accepted".into())?;
            t.ensure(TrackingDataArc::from_parquet(f.with_extension("none")).is_err(), || "missing file accepted".into())?;
            t.ensure(TrackingDataArc::from_tdm(f.with_extension("none"), None).is_err(), || "missing file accepted".into())?;
            let e = TrackingDataArc::default();
            t.ensure(e.to_parquet_simple(&f).is_err(), || "an empty arc is exported".into())?;
            t.ensure(e.to_tdm_file("SC".into(), None, &f, ExportCfg::default()).is_err(), || "an empty arc is exported".into())
        });
    }
    sp
}
