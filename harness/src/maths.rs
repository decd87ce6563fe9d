//! C34: the shared mathematics.
use crate::core::*;
use nalgebra::{Complex, DMatrix, Matrix3, SMatrix, Vector3, Vector6};
use nyx_space::polyfit::{CommonPolynomial, Polynomial};
use nyx_space::pseudo_inverse;
use nyx_space::utils::*;
use std::f64::consts::PI;

/// A small exact pattern of numbers, different for every index.
fn pat(i: usize) -> f64 {
    [1.0, -2.0, 0.5, 3.0, -0.25, 7.0, 0.0, -5.0, 11.0, 0.125, -13.0, 2.5][i % 12]
}

fn poly<const N: usize>(t: &mut Tally, k: usize) -> Result<(), String> {
    let mut c = [0.0; N];
    for (i, x) in c.iter_mut().enumerate() {
        *x = pat(i * 5 + k * 7 + k / 12);
    }
    let p = Polynomial::<N> { coefficients: c };
    let mut r = c;
    r.reverse();
    t.ensure(Polynomial::<N>::from_most_significant(r) == p && p.order() == N - 1, || "most significant first".into())?;
    t.ensure(Polynomial::<N>::zeros().coefficients == [0.0; N] && !p.is_nan(), || "zeros".into())?;
    for i in 0..N {
        let mut q = p;
        q.zero_power(i);
        t.ensure((0..N).all(|j| q.coefficients[j] == if i == j { 0.0 } else { c[j] }), || format!("without power {i}: {q:?}"))?;
        let mut q = p;
        q.coefficients[i] = f64::NAN;
        t.ensure(q.is_nan(), || format!("not a number in power {i}"))?;
    }
    let mut q = p;
    q.zero_power(N);
    t.ensure(q == p, || "a power it does not have".into())?;
    for tol in [0.0, 0.2, 0.5, 2.6, 100.0] {
        let mut q = p;
        q.zero_below_tolerance(tol);
        t.ensure((0..N).all(|j| q.coefficients[j] == if c[j].abs() < tol { 0.0 } else { c[j] }), || format!("without those below {tol}: {q:?}"))?;
    }
    for x in [-3.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0, 10.0] {
        t.step();
        let (mut v, mut d, mut big): (f64, f64, f64) = (0.0, 0.0, 1.0);
        for i in 0..N {
            v += c[i] * f64::powi(x, i as i32);
            big += (c[i] * f64::powi(x, i as i32)).abs() * (i + 1) as f64;
            if i > 0 {
                d += i as f64 * c[i] * f64::powi(x, i as i32 - 1);
                big += (i as f64 * c[i] * f64::powi(x, i as i32 - 1)).abs();
            }
        }
        t.see_f(&[v]);
        t.close("value", p.eval(x), v, 1e-14 * big)?;
        t.close("derivative", p.deriv(x), d, 1e-14 * big)?;
        t.ensure(p.eval_n_deriv(x) == (p.eval(x), p.deriv(x)), || "both".into())?;
        for w in [-2.0, 0.0, 0.5] {
            t.close("scaled", (p * w).eval(x), w * v, 1e-13 * big)?;
            t.ensure((p * w) == (&p * w) && (p * w) == (w * p), || "scaled either way".into())?;
            let mut q = p;
            q += w;
            t.close("shifted", q.eval(x), v + w, 1e-13 * (big + 2.0))?;
        }
        let o = Polynomial::<N> { coefficients: r };
        t.close("sum", (p + o).eval(x), p.eval(x) + o.eval(x), 1e-12 * big * (1.0 + f64::powi(x.abs(), N as i32)))?;
        t.close("difference", (p - o).eval(x), p.eval(x) - o.eval(x), 1e-12 * big * (1.0 + f64::powi(x.abs(), N as i32)))?;
        let one = Polynomial::<1> { coefficients: [4.0] };
        t.close("sum with a constant", (one + p).eval(x), v + 4.0, 1e-12 * big)?;
        t.close("difference with a constant", (p - one).eval(x), v - 4.0, 1e-12 * big)?;
    }
    Ok(())
}

fn vecs() -> Vec<Vector3<f64>> {
    let mut out = vec![];
    for v in product(&[3, 3, 3]) {
        for sc in [1.0, 7000.0, 1e-3] {
            let u = Vector3::new(v[0] as f64 - 1.0, 2.0 * (v[1] as f64 - 1.0), 0.5 * (v[2] as f64 - 1.0)) * sc;
            if u.norm() > 0.0 {
                out.push(u);
            }
        }
    }
    out
}

pub fn c34(tier: Tier) -> Space {
    let mut sp = Space::new("every pair of a grid of vectors, angle, polynomial of up to seven coefficients and small matrix");
    for k in 0..tier.pick(12, 60) {
        sp.push(format!("polynomial/{k}"), move |t| {
            poly::<1>(t, k)?;
            poly::<2>(t, k)?;
            poly::<3>(t, k)?;
            poly::<4>(t, k)?;
            poly::<7>(t, k)
        });
        sp.push(format!("common/{k}"), move |t| {
            let (a, b, c) = (pat(k), pat(k + 3), pat(k * 5 + 1));
            type CP = CommonPolynomial;
            for (p, co) in [(CP::Constant { a }, vec![a]), (CP::Linear { a, b }, vec![b, a]), (CP::Quadratic { a, b, c }, vec![c, b, a])] {
                t.step();
                for x in [-2.0, -0.5, 0.0, 1.0, 3.0] {
                    let v: f64 = co.iter().enumerate().map(|(i, c)| c * f64::powi(x, i as i32)).sum();
                    let d: f64 = co.iter().enumerate().skip(1).map(|(i, c)| i as f64 * c * f64::powi(x, i as i32 - 1)).sum();
                    t.close("value", p.eval(x), v, 1e-11)?;
                    t.close("derivative", p.deriv(x), d, 1e-11)?;
                }
                for o in 0..4 {
                    match (p.coeff_in_order(o), co.get(o)) {
                        (Ok(g), Some(w)) => t.ensure(g == *w, || format!("coefficient {o} is {g} instead of {w}"))?,
                        (Err(_), None) => (),
                        (g, w) => return Err(format!("coefficient {o}: {g:?} {w:?}")),
                    }
                }
                // Each position sets, or adds to, one coefficient of its own.
                let coefs = |q: &CP| (0..co.len()).map(|o| q.coeff_in_order(o).unwrap()).collect::<Vec<_>>();
                let mut hit = vec![];
                for o in 0..4 {
                    let (set, add) = (p.with_val_in_order(100.0, o), p.add_val_in_order(100.0, o));
                    t.ensure(set.is_ok() == (o < co.len()) && add.is_ok() == set.is_ok(), || format!("position {o} of {}", co.len()))?;
                    if let (Ok(set), Ok(add)) = (set, add) {
                        let (s, d) = (coefs(&set), coefs(&add));
                        let which: Vec<usize> = (0..co.len()).filter(|i| s[*i] != co[*i]).collect();
                        t.ensure(which.len() == 1 && s[which[0]] == 100.0 && !hit.contains(&which[0]), || format!("position {o} set {s:?}, from {co:?}"))?;
                        t.ensure((0..co.len()).all(|i| d[i] == co[i] + if i == which[0] { 100.0 } else { 0.0 }), || format!("position {o} added {d:?}, from {co:?}"))?;
                        hit.push(which[0]);
                    }
                }
            }
            Ok(())
        });
    }
    // Rotations
    for i in 0..tier.pick(25, 97) {
        let n = tier.pick(12, 48) as f64;
        sp.push(format!("rotate/{i}"), move |t| {
            let th = (i as f64 - n) * PI / n * 2.0;
            let axes = [Vector3::x(), Vector3::y(), Vector3::z()];
            let (a, b, c) = (r1(th), r2(th), r3(th));
            for (m, ax) in [a, b, c].into_iter().zip(axes) {
                t.step();
                t.close("orthonormal", (m * m.transpose() - Matrix3::identity()).norm(), 0.0, 1e-14)?;
                t.close("right handed", m.determinant(), 1.0, 1e-14)?;
                t.close("axis", (m * ax - ax).norm(), 0.0, 1e-15)?;
                for v in vecs() {
                    // The matrix rotates the frame, the function the vector.
                    t.close("frame against vector", (m.transpose() * v - rotv(&v, &ax, th)).norm(), 0.0, 1e-13 * v.norm())?;
                }
            }
            for p in 0..6 {
                let o = p as f64;
                t.close("composition", (r1(th) * r1(o) - r1(th + o)).norm() + (r2(th) * r2(o) - r2(th + o)).norm() + (r3(th) * r3(o) - r3(th + o)).norm(), 0.0, 1e-13)?;
            }
            for v in vecs() {
                for k in vecs().iter().step_by(7) {
                    t.step();
                    let w = rotv(&v, k, th);
                    t.see_f(w.as_slice());
                    let kh = k.normalize();
                    t.close("length", w.norm(), v.norm(), 1e-13 * v.norm())?;
                    t.close("along the axis", w.dot(&kh), v.dot(&kh), 1e-13 * v.norm())?;
                    let (pv, pw) = (v - kh * v.dot(&kh), w - kh * w.dot(&kh));
                    t.close("cosine", pv.dot(&pw), pv.norm_squared() * th.cos(), 1e-12 * v.norm_squared())?;
                    t.close("sine", kh.dot(&pv.cross(&pw)), pv.norm_squared() * th.sin(), 1e-12 * v.norm_squared())?;
                }
            }
            Ok(())
        });
    }
    // Vectors
    for (i, a) in vecs().into_iter().enumerate() {
        sp.push(format!("vector/{i}"), move |t| {
            for b in vecs() {
                t.step();
                t.close("cross product", (tilde_matrix(&a) * b - a.cross(&b)).norm(), 0.0, 1e-12 * a.norm() * b.norm())?;
                let (p, q) = (projv(&a, &b), perpv(&a, &b));
                t.see_f(p.as_slice());
                t.close("both parts", (p + q - a).norm(), 0.0, 1e-13 * a.norm())?;
                t.close("along", p.cross(&b).norm(), 0.0, 1e-13 * a.norm() * b.norm())?;
                t.close("across", q.dot(&b), 0.0, 1e-13 * a.norm() * b.norm())?;
                t.close("distance", rss_errors(&a, &b), (a - b).norm(), 1e-13 * (a.norm() + b.norm()))?;
                let (x, y) = (Vector6::new(a.x, a.y, a.z, b.x, b.y, b.z), Vector6::new(b.z, a.x, b.y, a.z, 1.0, a.y));
                let (er, ev) = rss_orbit_vec_errors(&x, &y);
                t.close("distance of positions", er, (x - y).fixed_rows::<3>(0).norm(), 1e-13 * (a.norm() + b.norm()))?;
                t.close("distance of velocities", ev, (x - y).fixed_rows::<3>(3).norm(), 1e-13 * (a.norm() + b.norm() + 1.0))?;
            }
            let (zero, z) = (Vector3::zeros(), perpv(&a, &Vector3::zeros()));
            t.ensure(z == a && projv(&a, &zero) == zero && perpv(&zero, &a) == zero && projv(&zero, &a).norm() == 0.0, || "with nothing".into())?;
            t.close("unit", (unitize(a) * a.norm() - a).norm() + unitize(a).norm() - 1.0, 0.0, 1e-12 * (1.0 + a.norm()))?;
            t.ensure(unitize(zero) == zero, || "the unit of nothing".into())?;
            // Spherical coordinates
            let (r, th, ph) = cartesian_to_spherical(&a);
            t.close("range", r, a.norm(), 1e-14 * a.norm())?;
            t.close("azimuth", (th - a.y.atan2(a.x)).abs(), 0.0, 1e-14)?;
            t.close("polar", ph.cos(), a.z / a.norm(), 1e-14)?;
            t.ensure((0.0..=PI).contains(&ph), || format!("polar angle {ph}"))?;
            t.close("there and back", (spherical_to_cartesian(r, th, ph) - a).norm(), 0.0, 1e-14 * a.norm() * 10.0)?;
            t.ensure(cartesian_to_spherical(&zero) == (0.0, 0.0, 0.0) && spherical_to_cartesian(0.0, th, ph) == zero && spherical_to_cartesian(-1.0, th, ph) == zero, || "of nothing".into())
        });
    }
    // Angles
    for i in 0..tier.pick(60, 600) {
        sp.push(format!("angle/{i}"), move |t| {
            for base in [0.0, 90.0, 180.0, 359.0, 45.5] {
                for sgn in [-1.0, 1.0] {
                    let x: f64 = sgn * (base + 37.25 * i as f64);
                    t.step();
                    let same = |y: f64, m: f64| ((x - y) / m - ((x - y) / m).round()).abs() < 1e-9;
                    let a = between_0_360(x);
                    t.see_f(&[a]);
                    t.ensure((0.0..360.0).contains(&a) && same(a, 360.0), || format!("{x} in 0 to 360: {a}"))?;
                    let a = between_pm_180(x);
                    t.ensure((-180.0..=180.0).contains(&a) && same(a, 360.0), || format!("{x} in -180 to 180: {a}"))?;
                    for b in [90.0, 1.0, PI, 180.0, 500.0] {
                        let a = between_pm_x(x, b);
                        t.ensure((-b..=b).contains(&a) && same(a, 2.0 * b), || format!("{x} in -{b} to {b}: {a}"))?;
                        let (n, d) = (normalize(x, -b, 3.0 * b), denormalize(x, -b, 3.0 * b));
                        t.close("normalized", n, (x + b) / (2.0 * b) - 1.0, 1e-12 * (1.0 + x.abs() / b))?;
                        t.close("there and back", denormalize(n, -b, 3.0 * b), x, 1e-11 * (1.0 + x.abs() + b))?;
                        t.close("back and there", normalize(d, -b, 3.0 * b), x, 1e-11 * (1.0 + x.abs() + b))?;
                    }
                    t.ensure(kronecker(x, x) == 1.0 && kronecker(x, x + 1e-3) == 0.0 && kronecker(x, -x) == if x == 0.0 { 1.0 } else { 0.0 }, || format!("Kronecker of {x}"))?;
                }
            }
            for e in -12..12 {
                let x = (1.0 + 8.9 * i as f64 / 600.0) * f64::powi(10.0, e);
                let d = x.log10() - x.log10().round();
                t.ensure(d.abs() < 1e-9 || (mag_order(x) == e && mag_order(-x) == e), || format!("order of {x}: {}", mag_order(x)))?;
            }
            Ok(())
        });
    }
    // Matrices
    for v in product(&[4, 4, tier.pick(6, 24)]) {
        let (r, c, k) = (v[0] + 1, v[1] + 1, v[2]);
        sp.push(format!("inverse/{r}x{c}/{k}"), move |t| {
            let m = DMatrix::from_fn(r, c, |i, j| pat(i * 7 + j * 3 + k * 5) + if i == j { 4.0 } else { 0.0 });
            t.step();
            let sv = m.clone().svd(false, false).singular_values;
            let cond = sv.min() / sv.max();
            let res: Result<DMatrix<f64>, nyx_space::md::TargetingError> = pseudo_inverse!(&m);
            match res {
                Ok(p) => {
                    if cond > 1e-3 {
                        t.ensure(p.shape() == (c, r), || format!("{:?}", p.shape()))?;
                        t.close("A P A", (&m * &p * &m - &m).norm(), 0.0, 1e-8 * m.norm())?;
                        t.close("P A P", (&p * &m * &p - &p).norm(), 0.0, 1e-8 * p.norm())?;
                        t.close("A P is symmetric", (&m * &p - (&m * &p).transpose()).norm(), 0.0, 1e-8)?;
                        t.close("P A is symmetric", (&p * &m - (&p * &m).transpose()).norm(), 0.0, 1e-8)?;
                    }
                    Ok(())
                }
                Err(e) => t.ensure(cond < 1e-3, || format!("of a regular matrix: {e}")),
            }
        });
        sp.push(format!("matrix/{r}/{c}/{k}"), move |t| {
            t.step();
            let mut d = Matrix3::from_diagonal(&Vector3::new(pat(k), pat(k + 1), pat(k + 2)));
            t.ensure(is_diagonal(&d), || "diagonal".into())?;
            let (i, j) = ((r - 1) % 3, (c - 1) % 3);
            if i != j {
                d[(i, j)] = 1e-3;
                t.ensure(!is_diagonal(&d), || format!("with ({i}, {j})"))?;
            }
            let ev = SMatrix::<Complex<f64>, 4, 1>::from_fn(|n, _| Complex::new(if n == r - 1 { [-1.0, -1e-9, 0.0, 1e-9][c - 1] } else { -2.0 }, pat(k)));
            t.ensure(are_eigenvalues_stable(&ev) == (c < 4), || format!("{ev}"))
        });
    }
    sp
}
