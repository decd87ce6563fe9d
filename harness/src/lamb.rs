//! C29: Lambert transfers. C30: B-plane.
use crate::core::*;
use crate::mc::b_plane;
use crate::world::*;
use anise::astro::orbit_gradient::OrbitGrad;
use anise::prelude::{Frame, Orbit};
use nalgebra::{Matrix2, Matrix3, Vector3};
use nyx_space::cosmic::{BPlane, BPlaneTarget, try_achieve_b_plane};
use nyx_space::md::StateParameter as SP;
use nyx_space::tools::lambert::{LambertInput, TransferKind, gooding, izzo};
use anise::analysis::prelude::OrbitalElement as OE;
use std::f64::consts::{PI, TAU};

const SLACK: f64 = 1e-3;

/// Time of flight of the elliptic transfers between both positions after n revolutions, from Lagrange's equation:
/// x in (-1, 1) spans the ellipses through both points, on either side of the one of minimum energy.
fn lagrange(mu: f64, r1: f64, r2: f64, c: f64, long: bool, n: usize, x: f64) -> f64 {
    let s = (r1 + r2 + c) / 2.0;
    let a = s / 2.0 / (1.0 - x * x);
    let alpha = 2.0 * x.acos();
    let beta = 2.0 * ((s - c) / (2.0 * a)).sqrt().asin() * if long { -1.0 } else { 1.0 };
    (a.powi(3) / mu).sqrt() * (alpha - alpha.sin() - (beta - beta.sin()) + TAU * n as f64)
}
fn shortest(mu: f64, r1: f64, r2: f64, c: f64, long: bool, n: usize) -> f64 {
    let f = |x: f64| lagrange(mu, r1, r2, c, long, n, x);
    // Unimodal in x
    let (mut a, mut b) = (-0.999, 0.999);
    for _ in 0..200 {
        let (p, q) = (a + (b - a) / 3.0, b - (b - a) / 3.0);
        if f(p) < f(q) {
            b = q
        } else {
            a = p
        }
    }
    f((a + b) / 2.0)
}

struct Transfer {
    mu: f64,
    r1: Vector3<f64>,
    r2: Vector3<f64>,
    tof: f64,
}
impl Transfer {
    fn input(&self, frame: Frame) -> LambertInput {
        let mut f = frame;
        f.mu_km3_s2 = Some(self.mu);
        let o = |r: Vector3<f64>, v: Vector3<f64>, dt: f64| Orbit { radius_km: r, velocity_km_s: v, epoch: t0() + s(dt), frame: f };
        LambertInput::from_planetary_states(o(self.r1, Vector3::new(1.0, -2.0, 0.5), 0.0), o(self.r2, Vector3::new(-0.3, 2.2, 1.5), self.tof)).unwrap()
    }
    fn tof_ns(&self) -> f64 {
        s(self.tof).to_seconds()
    }
    /// The velocities connect both positions in that time, in that direction, after that many revolutions.
    fn judge(&self, t: &mut Tally, who: &str, sol: &nyx_space::tools::lambert::LambertSolution, dir: Option<f64>, revs: usize, slip: f64) -> Result<(), String> {
        let (v1, v2) = (sol.v_init_km_s, sol.v_final_km_s);
        t.ensure((v1 + v2).iter().all(|x| x.is_finite()), || format!("{who}: velocities {v1:?} {v2:?}"))?;
        let (r, v) = kepler(self.mu, self.r1, v1, self.tof_ns());
        let size = self.r1.norm().max(self.r2.norm());
        // How far an error in the velocities of one part in so many gets.
        let sine = self.r1.cross(&self.r2).norm() / self.r1.norm() / self.r2.norm();
        let far = (v1.norm() * self.tof).max(size) * (1.0 + self.tof * v1.norm() / size) * (1.0 + 0.3 / sine.max(1e-9)) * (1.0 + size / self.r1.norm().min(self.r2.norm()) / 4.0);
        t.close(&format!("{who}: arrival"), (r - self.r2).norm(), 0.0, slip * v.norm() + 1e-9 * far)?;
        t.close(&format!("{who}: arrival velocity"), (v - v2).norm(), 0.0, slip * self.mu / self.r2.norm_squared() + 1e-9 * (v.norm() + v1.norm()) * far / size)?;
        let h = self.r1.cross(&v1);
        if let Some(dir) = dir {
            let c = self.r1.cross(&self.r2).dot(&h);
            t.ensure(c * dir > 0.0, || format!("{who}: goes the other way, along {h:?}"))?;
        }
        let alpha = 2.0 / self.r1.norm() - v1.norm_squared() / self.mu;
        let period = if alpha > 0.0 { TAU / (self.mu * alpha.powi(3)).sqrt() } else { f64::INFINITY };
        let done = (self.tof / period).floor() as usize;
        t.ensure(done == revs, || format!("{who}: {done} revolutions instead of {revs}"))?;
        Ok(())
    }
}

fn geometry(theta: f64, incl: f64, node: f64, mag: f64, ratio: f64) -> (Vector3<f64>, Vector3<f64>) {
    let rot = |p: Vector3<f64>| {
        let (si, ci) = incl.to_radians().sin_cos();
        let (sn, cn) = node.to_radians().sin_cos();
        let q = Vector3::new(p.x, p.y * ci - p.z * si, p.y * si + p.z * ci);
        Vector3::new(q.x * cn - q.y * sn, q.x * sn + q.y * cn, q.z)
    };
    let arg: f64 = 0.4;
    let a = arg + theta.to_radians();
    (rot(Vector3::new(arg.cos(), arg.sin(), 0.0)) * mag, rot(Vector3::new(a.cos(), a.sin(), 0.0)) * mag * ratio)
}

pub fn c29(tier: Tier) -> Space {
    let mut sp = Space::new("every combination of transfer angle, plane orientation, distance ratio, size and time of flight (from fast hyperbolas to slow ellipses) x direction and number of revolutions x solver; degenerate geometries");
    sp.hang_s = 60.0;
    let angles: Vec<f64> = tier.pick(vec![3.0, 40.0, 90.0, 135.0, 176.0], vec![0.5, 3.0, 20.0, 40.0, 65.0, 90.0, 110.0, 135.0, 160.0, 176.0, 179.0]);
    let incls: Vec<f64> = tier.pick(vec![0.0, 35.0, 90.0, 140.0, 180.0], vec![0.0, 10.0, 35.0, 70.0, 90.0, 105.0, 140.0, 170.0, 180.0]);
    let nodes: Vec<f64> = tier.pick(vec![0.0, 200.0], vec![0.0, 75.0, 150.0, 200.0, 300.0]);
    let ratios: Vec<f64> = tier.pick(vec![1.0, 0.4, 1.52, 12.0], vec![1.0, 0.999, 0.05, 0.4, 0.72, 1.52, 5.2, 12.0, 30.0]);
    // With respect to the parabola.
    let times: Vec<f64> = tier.pick(vec![0.3, 0.8, 1.0001, 1.5, 4.0, 20.0], vec![0.05, 0.1, 0.3, 0.6, 0.8, 0.97, 1.0001, 1.05, 1.2, 1.5, 2.5, 4.0, 9.0, 20.0, 60.0]);
    let sizes: [(&str, f64, f64); 2] = [("earth", MU, 8000.0), ("sun", MU_SUN, AU)];
    for (sname, mu, mag) in sizes {
        for v in product(&[angles.len(), incls.len(), nodes.len(), ratios.len()]) {
            let (th, inc, nd, ra) = (angles[v[0]], incls[v[1]], nodes[v[2]], ratios[v[3]]);
            let times = times.clone();
            sp.push(format!("{sname}/{th}/{inc}/{nd}/{ra}"), move |t| {
                let (r1, r2) = geometry(th, inc, nd, mag, ra);
                let c = (r2 - r1).norm();
                let sm = (r1.norm() + r2.norm() + c) / 2.0;
                let up = r1.cross(&r2).z;
                let flat = up.abs() < 1e-9 * r1.norm() * r2.norm();
                for long in [false, true] {
                    let sg = if long { -1.0 } else { 1.0 };
                    let parabola = (2.0f64 / mu).sqrt() / 3.0 * (sm.powf(1.5) - sg * (sm - c).powf(1.5));
                    for f in &times {
                        let tr = Transfer { mu, r1, r2, tof: parabola * f };
                        let inp = tr.input(earth());
                        let kind = || if long { TransferKind::LongWay } else { TransferKind::ShortWay };
                        t.step();
                        let sol = izzo(inp, kind()).map_err(|e| format!("Izzo, long {long}, {f} x parabola: {e}"))?;
                        tr.judge(t, &format!("Izzo, long {long}, {f} x parabola"), &sol, Some(sg), 0, 0.0)?;
                        t.see_f(&[sol.v_init_km_s.norm(), sol.v_final_km_s.norm()]);
                        // What is derived from it.
                        let dv = sol.v_init_km_s - inp.initial_state.velocity_km_s;
                        t.close("C3", sol.c3_km2_s2(), dv.norm_squared(), 1e-9 * dv.norm_squared())?;
                        t.close("declination", sol.v_inf_outgoing_declination_deg(), (dv.z / dv.norm()).asin().to_degrees(), 1e-6)?;
                        t.close("right ascension", sol.v_inf_outgoing_right_ascension_deg(), dv.y.atan2(dv.x).to_degrees(), 1e-6)?;
                        let (a, b) = (sol.transfer_orbit(), sol.arrival_orbit());
                        t.ensure(a.radius_km == r1 && a.velocity_km_s == sol.v_init_km_s && a.epoch == inp.initial_state.epoch, || format!("transfer orbit {a}"))?;
                        t.ensure(b.radius_km == r2 && b.velocity_km_s == sol.v_final_km_s && b.epoch == inp.final_state.epoch, || format!("arrival orbit {b}"))?;
                        t.close("arrival", (sol.v_inf_incoming_km_s() - (inp.final_state.velocity_km_s - sol.v_final_km_s)).norm(), 0.0, 1e-12)?;
                        // The other solver, which gives up on some of the hyperbolas and on slow transfers.
                        t.step();
                        match gooding(inp, kind()) {
                            Ok(g) => tr.judge(t, &format!("Gooding, long {long}, {f} x parabola"), &g, Some(sg), 0, 2e-4)?,
                            Err(e) => t.ensure(*f < 1.0 || *f > 3.0 || th < 10.0, || format!("Gooding, long {long}, {f} x parabola: {e}"))?,
                        }
                        // By default, counter-clockwise as seen from +Z.
                        if !flat && (up > 0.0) != long {
                            t.steps(2);
                            tr.judge(t, "Izzo, auto", &izzo(inp, TransferKind::Auto).map_err(|e| e.to_string())?, Some(sg), 0, 0.0)?;
                            if let Ok(g) = gooding(inp, TransferKind::Auto) {
                                tr.judge(t, "Gooding, auto", &g, Some(sg), 0, 2e-4)?;
                            }
                        }
                    }
                }
                Ok(())
            });
            sp.push(format!("revs/{sname}/{th}/{inc}/{nd}/{ra}"), move |t| {
                let (r1, r2) = geometry(th, inc, nd, mag, ra);
                let c = (r2 - r1).norm();
                let up = r1.cross(&r2).z;
                let flat = up.abs() < 1e-9 * r1.norm() * r2.norm();
                // Counter-clockwise as seen from +Z; either if the plane holds that axis.
                let long = up < 0.0;
                if flat {
                    return Ok(());
                }
                for n in 1..tier.pick(4usize, 7) {
                    let tmin = shortest(mu, r1.norm(), r2.norm(), c, long, n);
                    for f in [0.5, 0.9, 1.0 - SLACK, 1.0 + SLACK, 1.1, 1.5, 3.0] {
                        let tr = Transfer { mu, r1, r2, tof: tmin * f };
                        let inp = tr.input(earth());
                        t.step();
                        match izzo(inp, TransferKind::NRevs(n as u8)) {
                            Ok(sol) => {
                                t.ensure(f > 1.0, || format!("{n} revolutions cannot be done in {f} of the minimum time"))?;
                                tr.judge(t, &format!("{n} revolutions in {f} x minimum"), &sol, Some(if long { -1.0 } else { 1.0 }), n, 0.0)?;
                            }
                            Err(e) => t.ensure(f < 1.0, || format!("{n} revolutions in {f} x minimum: {e}"))?,
                        }
                        t.ensure(gooding(inp, TransferKind::NRevs(n as u8)).is_err(), || "Gooding does not do revolutions".into())?;
                    }
                }
                Ok(())
            });
        }
        // Degenerate problems: an error, or a transfer.
        for (gi, (a, b)) in [(Vector3::new(1.0, 0.2, 0.1), 1.0), (Vector3::new(1.0, 0.2, 0.1), 2.0), (Vector3::new(1.0, 0.0, 0.0), -1.0), (Vector3::new(1.0, 0.2, 0.1), -2.0), (Vector3::new(0.0, 0.0, 1.0), -1.0), (Vector3::new(0.0, 0.0, 1.0), 1.0), (Vector3::new(1.0, 1.0, 0.0), 0.0)].into_iter().enumerate() {
            for tof in [-1.0, 0.0, 1e-3, 1.0, 30.0] {
                sp.push(format!("degenerate/{sname}/{gi}/{tof}"), move |t| {
                    let tr = Transfer { mu, r1: a * mag, r2: a * mag * b, tof: tof * (mag.powi(3) / mu).sqrt() };
                    let inp = tr.input(earth());
                    for k in 0..4 {
                        let kind = || [TransferKind::Auto, TransferKind::ShortWay, TransferKind::LongWay, TransferKind::NRevs(1)].into_iter().nth(k).unwrap();
                        for (who, sol) in [("Izzo", izzo(inp, kind())), ("Gooding", gooding(inp, kind()))] {
                            t.step();
                            if let Ok(sol) = sol {
                                t.ensure(tof > 0.0, || format!("{who}: a transfer in {tof}"))?;
                                tr.judge(t, who, &sol, None, k / 3, 2e-4)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
        // Neither forward nor at all
        for v in product(&[angles.len(), incls.len(), 3]) {
            let (th, inc, k) = (angles[v[0]], incls[v[1]], v[2]);
            sp.push(format!("no-time/{sname}/{th}/{inc}/{k}"), move |t| {
                let (r1, r2) = geometry(th, inc, 10.0, mag, 1.3);
                let tr = Transfer { mu, r1, r2, tof: [0.0, -1.0, -1e5][k] };
                for (who, f) in [("Izzo", izzo as fn(LambertInput, TransferKind) -> _), ("Gooding", gooding as fn(LambertInput, TransferKind) -> _)] {
                    for kind in [TransferKind::Auto, TransferKind::ShortWay, TransferKind::LongWay] {
                        t.step();
                        let r: Result<nyx_space::tools::lambert::LambertSolution, nyx_space::errors::LambertError> = f(tr.input(earth()), kind);
                        t.ensure(r.is_err(), || format!("{who}: a transfer in {} s", tr.tof))?;
                    }
                }
                Ok(())
            });
        }
    }
    sp.push("frames", move |t| {
        let a = zoo(0);
        let mut b = zoo(1);
        t.step();
        t.ensure(LambertInput::from_planetary_states(a, b).is_ok(), || "same frame".into())?;
        b.frame = b.frame.with_orient(17);
        t.ensure(LambertInput::from_planetary_states(a, b).is_err(), || "different frames".into())?;
        let (mut a, mut b) = (zoo(0), zoo(1));
        a.frame.mu_km3_s2 = None;
        b.frame.mu_km3_s2 = None;
        t.ensure(LambertInput::from_planetary_states(a, b).is_err(), || "no gravitational parameter".into())
    });
    let _ = PI;
    sp
}

fn hyp(mu_frame: Frame, rp: f64, vinf: f64, incl: f64, node: f64, arg: f64, dt: f64) -> Orbit {
    let v = (2.0 * MU / rp + vinf * vinf).sqrt();
    let rot = |p: Vector3<f64>| {
        let (sw, cw) = arg.to_radians().sin_cos();
        let q = Vector3::new(p.x * cw - p.y * sw, p.x * sw + p.y * cw, p.z);
        let (si, ci) = incl.to_radians().sin_cos();
        let w = Vector3::new(q.x, q.y * ci - q.z * si, q.y * si + q.z * ci);
        let (sn, cn) = node.to_radians().sin_cos();
        Vector3::new(w.x * cn - w.y * sn, w.x * sn + w.y * cn, w.z)
    };
    let (r, v) = kepler(MU, rot(Vector3::new(rp, 0.0, 0.0)), rot(Vector3::new(0.0, v, 0.0)), dt);
    Orbit { radius_km: r, velocity_km_s: v, epoch: t0(), frame: mu_frame }
}

/// Derivatives of (B.R, B.T) with respect to the velocity; the steps are small compared to the excess velocity.
fn slopes(o: &Orbit) -> [[f64; 3]; 2] {
    let v = o.velocity_km_s.norm();
    let vinf2 = v * v - 2.0 * MU / o.radius_km.norm();
    let h = (1e-3 * v).min(5e-3 * vinf2 / v);
    let c = [4.0 / 5.0, -1.0 / 5.0, 4.0 / 105.0, -1.0 / 280.0];
    let mut g = [[0.0; 3]; 2];
    for k in 0..3 {
        let f = |d: f64| {
            let mut v = o.velocity_km_s;
            v[k] += d;
            b_plane(o.radius_km, v)
        };
        for j in 0..4 {
            let (a, b) = (f(h * (j + 1) as f64), f(-h * (j + 1) as f64));
            g[0][k] += c[j] * (a.0 - b.0) / h;
            g[1][k] += c[j] * (a.1 - b.1) / h;
        }
    }
    g
}

pub fn c30(tier: Tier) -> Space {
    let mut sp = Space::new("every combination of periapsis, excess velocity, orientation and time to periapsis of a hyperbola; targets around its B-plane point");
    let rps: Vec<f64> = tier.pick(vec![6600.0, 20000.0], vec![6600.0, 9000.0, 20000.0, 70000.0]);
    let vinfs: Vec<f64> = tier.pick(vec![0.8, 3.0, 12.0], vec![0.3, 0.8, 1.7, 3.0, 6.0, 12.0]);
    let incls: Vec<f64> = tier.pick(vec![0.01, 28.0, 90.0, 150.0], vec![0.01, 10.0, 28.0, 60.0, 90.0, 120.0, 150.0, 179.0]);
    let nodes: Vec<f64> = tier.pick(vec![0.0, 220.0], vec![0.0, 60.0, 130.0, 220.0, 310.0]);
    let args: Vec<f64> = tier.pick(vec![15.0, 130.0, 250.0], vec![15.0, 75.0, 130.0, 190.0, 250.0, 320.0]);
    let dts = [-200000.0, -20000.0, -300.0, 0.0, 40000.0];
    for v in product(&[rps.len(), vinfs.len(), incls.len(), nodes.len(), args.len()]) {
        let (rp, vi, inc, nd, ar) = (rps[v[0]], vinfs[v[1]], incls[v[2]], nodes[v[3]], args[v[4]]);
        sp.push(format!("plane/{rp}/{vi}/{inc}/{nd}/{ar}"), move |t| {
            let mut first: Option<(f64, f64)> = None;
            for dt in dts {
                let o = hyp(earth(), rp, vi, inc, nd, ar, dt);
                let b = BPlane::new(o).map_err(|e| e.to_string())?;
                t.step();
                let (wr, wt) = b_plane(o.radius_km, o.velocity_km_s);
                let mag = (wr * wr + wt * wt).sqrt();
                t.see_f(&[wr, wt]);
                t.close("B.R", b.b_dot_r_km(), wr, 1e-7 * mag)?;
                t.close("B.T", b.b_dot_t_km(), wt, 1e-7 * mag)?;
                // The same all along the hyperbola, and its magnitude is the impact parameter.
                let (fr, ft) = *first.get_or_insert((wr, wt));
                t.close("B.R along the orbit", b.b_dot_r_km(), fr, 1e-5 * mag)?;
                t.close("B.T along the orbit", b.b_dot_t_km(), ft, 1e-5 * mag)?;
                t.close("magnitude", b.magnitude_km(), rp * (1.0 + 2.0 * MU / (rp * vi * vi)).sqrt(), 1e-5 * mag)?;
                let d = (b.angle_deg() - wr.atan2(wt).to_degrees() + 180.0).rem_euclid(360.0) - 180.0;
                t.close("angle", d, 0.0, 1e-4)?;
                t.ensure(b.angle_deg().abs() <= 180.0, || format!("angle {}", b.angle_deg()))?;
                t.close("B has no component along S", b.ltof().to_seconds() * o.velocity_km_s.norm(), 0.0, 1e-7 * mag)?;
                let d = BPlane::from_dual(OrbitGrad::from(o)).map_err(|e| e.to_string())?;
                t.ensure(d.b_dot_r_km() == b.b_dot_r_km() && d.b_dot_t_km() == b.b_dot_t_km() && d.jacobian() == b.jacobian() && d.str_dcm == b.str_dcm, || "from a dual orbit".into())?;
                // S, T, R
                let m = b.inertial_to_bplane();
                t.close("orthonormal", (m * m.transpose() - Matrix3::identity()).norm(), 0.0, 1e-12)?;
                t.close("right handed", m.determinant(), 1.0, 1e-12)?;
                t.close("T is in the reference plane", m[(1, 2)], 0.0, 1e-12)?;
                let h = o.radius_km.cross(&o.velocity_km_s);
                let ev = o.velocity_km_s.cross(&h) / MU - o.radius_km.normalize();
                let sv = m.row(0).transpose();
                t.close("S is in the orbit plane", sv.dot(&h.normalize()), 0.0, 1e-9)?;
                t.close("S is the incoming asymptote", sv.dot(&ev.normalize()), 1.0 / ev.norm(), 1e-7)?;
                t.ensure(sv.dot(&h.cross(&ev)) > 0.0, || "S is the outgoing asymptote".into())?;
                let bv = m.transpose() * Vector3::new(0.0, b.b_dot_t_km(), b.b_dot_r_km());
                t.close("S x B is along the momentum", bv.cross(&sv).dot(&h.normalize()) - mag, 0.0, 1e-5 * mag)?;
                t.ensure(b.frame == o.frame && b.epoch == o.epoch, || "frame and epoch".into())?;
                // Derivatives
                let j = b.jacobian();
                let [gr, gt] = slopes(&o);
                // T is not defined if S is along the pole.
                for k in 0..if sv.z.abs() < 0.97 { 3 } else { 0 } {
                    let tol = 2e-4 * (gr.iter().chain(&gt).map(|x| x.abs()).fold(0.0, f64::max));
                    t.close(&format!("d(B.R)/dv{k}"), j[(0, k)], gr[k], tol)?;
                    t.close(&format!("d(B.T)/dv{k}"), j[(1, k)], gt[k], tol)?;
                }
                for (k, e) in [OE::VX, OE::VY, OE::VZ].into_iter().enumerate() {
                    let keep: Vec<usize> = (0..3).filter(|i| *i != k).collect();
                    let want = Matrix2::new(j[(0, keep[0])], j[(0, keep[1])], j[(1, keep[0])], j[(1, keep[1])]);
                    t.ensure(b.jacobian2(SP::Element(e)).map_err(|e| e.to_string())? == want, || format!("Jacobian at constant {e:?}"))?;
                }
                t.ensure(b.jacobian2(SP::Element(OE::X)).is_err() && b.jacobian2(SP::Cr()).is_err(), || "invariants are velocities".into())?;
            }
            Ok(())
        });
        sp.push(format!("target/{rp}/{vi}/{inc}/{nd}/{ar}"), move |t| {
            for dt in dts {
                let o = hyp(earth(), rp, vi, inc, nd, ar, dt);
                let (wr, wt) = b_plane(o.radius_km, o.velocity_km_s);
                let pole = BPlane::new(o).map_err(|e| e.to_string())?.inertial_to_bplane()[(0, 2)].abs();
                for (fr, ft) in [(0.0, 0.0), (0.01, 0.0), (0.0, -0.02), (0.05, 0.03), (-0.2, 0.1), (0.5, -0.5)] {
                    let mag = (wr * wr + wt * wt).sqrt();
                    let (tr, tt) = (wr + fr * mag, wt + ft * mag);
                    let mut tgt = BPlaneTarget::from_bt_br(tt, tr);
                    t.ensure(!tgt.ltof_target_set(), || "no time is targeted".into())?;
                    for tol in [1e-6, 1e-3] {
                        tgt.tol_b_r_km = tol;
                        tgt.tol_b_t_km = tol;
                        t.step();
                        match try_achieve_b_plane(o, tgt) {
                            Ok((dv, b)) => {
                                // The correction does reach the target.
                                let mut p = o;
                                p.velocity_km_s += dv;
                                let (gr, gt) = b_plane(p.radius_km, p.velocity_km_s);
                                let rnd = 1e-9 * mag * (1.0 + o.radius_km.norm() / rp);
                                t.close("reached B.R", gr, tr, tol + rnd)?;
                                t.close("reached B.T", gt, tt, tol + rnd)?;
                                t.close("reported B.R", b.b_dot_r_km(), gr, rnd)?;
                                t.close("reported B.T", b.b_dot_t_km(), gt, rnd)?;
                            }
                            // Newton's method converges from afar for small changes, unless T is hardly defined.
                            Err(e) => t.ensure((fr, ft) != (0.0, 0.0) && (fr.abs() + ft.abs() > 0.04 || dt > -1e4 || o.radius_km.norm() < 8.0 * rp || vi < 0.5 || pole > 0.9 || tol < 1e-5), || format!("{fr} {ft} of {mag} km from {dt} s: {e}"))?,
                        }
                    }
                    let all = tgt.to_all_objectives_with_tolerance(0.5);
                    t.ensure(format!("{:?}", &all[..2]) == format!("{:?}", tgt.to_objectives_with_tolerance(0.5)) && all[2].parameter == SP::BLTOF() && all[2].desired_value == tgt.ltof_s && all[2].tolerance >= tgt.tol_ltof_s, || format!("all objectives {all:?}"))?;
                    t.ensure(format!("{:?}", tgt.to_objectives()) == format!("{:?}", tgt.to_objectives_with_tolerance(1.0)), || "objectives to the kilometer".into())?;
                    // With a time of flight: the point is reached, or it is an error.
                    for tof in [0.0, 3600.0, -50.0, 1e9] {
                        let with = BPlaneTarget::from_targets(tt, tr, s(tof));
                        t.ensure((with.b_t_km, with.b_r_km, with.ltof_s) == (tt, tr, tof) && with.ltof_target_set() == (tof != 0.0), || format!("{with:?}"))?;
                        t.step();
                        if let Ok((dv, b)) = try_achieve_b_plane(o, with) {
                            let mut p = o;
                            p.velocity_km_s += dv;
                            let (gr, gt) = b_plane(p.radius_km, p.velocity_km_s);
                            let rnd = 1e-9 * mag * (1.0 + o.radius_km.norm() / rp);
                            t.close("reached B.R, with the time", gr, tr, with.tol_b_r_km + rnd)?;
                            t.close("reached B.T, with the time", gt, tt, with.tol_b_t_km + rnd)?;
                            t.ensure(tof == 0.0 || (b.ltof_s.real() - tof).abs() <= with.tol_ltof_s, || format!("time of flight {}", b.ltof_s.real()))?;
                        }
                    }
                    let objs = tgt.to_objectives_with_tolerance(0.25);
                    t.ensure(objs[0].parameter == SP::BdotR() && objs[0].desired_value == tr && objs[0].tolerance == 0.25 && objs[1].parameter == SP::BdotT() && objs[1].desired_value == tt && objs[1].tolerance == 0.25, || "objectives".into())?;
                }
            }
            Ok(())
        });
    }
    // Nothing to invert: an orbit moving straight away from the center, targets which are not numbers.
    for (k, tr, tt) in [("nan", f64::NAN, 1e4), ("inf", f64::INFINITY, 1e4), ("both", f64::NAN, f64::NAN), ("far", 1e12, -1e12), ("center", 0.0, 0.0)] {
        for j in 0..3 {
            sp.push(format!("refuse/{k}/{j}"), move |t| {
                let mut o = hyp(earth(), 6600.0, 3.0, 28.0, 220.0, 130.0, [-20000.0, 0.0, -20000.0][j]);
                if j == 2 {
                    o.velocity_km_s = o.radius_km.normalize() * -9.0;
                }
                t.step();
                match try_achieve_b_plane(o, BPlaneTarget::from_bt_br(tt, tr)) {
                    Ok((dv, _)) => {
                        o.velocity_km_s += dv;
                        let (gr, gt) = b_plane(o.radius_km, o.velocity_km_s);
                        t.close("reached B.R", gr, tr, 1e-3)?;
                        t.close("reached B.T", gt, tt, 1e-3)
                    }
                    Err(_) => Ok(()),
                }
            });
        }
    }
    for i in 0..5 {
        sp.push(format!("closed/{i}"), move |t| {
            t.step();
            t.ensure(BPlane::new(zoo(i)).is_err(), || "the B-plane of a closed orbit".into())?;
            t.ensure(try_achieve_b_plane(zoo(i), BPlaneTarget::from_bt_br(1.0, 2.0)).is_err(), || "the B-plane of a closed orbit".into())
        });
    }
    sp
}
