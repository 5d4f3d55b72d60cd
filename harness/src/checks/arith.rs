//! C05, C06: matrix and vector arithmetic against double precision.
use crate::engine::{Prop, G, R};
use crate::{ensure, within};
use crate::gen::*;
use crate::refm::*;
use linalg::matrix::Matrix;
use linalg::vector::Vector;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C05",
        quick: 9_000_000,
        thorough: 90_000_000,
        rule: "both operands have at least two elements and are not all zero",
        assumptions: &["operand magnitudes keep results representable", "a few units in the last place relative to the summed magnitudes are allowed"],
        run: c05,
    });
    v.push(Prop {
        id: "C06",
        quick: 14_400_000,
        thorough: 144_000_000,
        rule: "the vectors have at least two elements and are not all zero",
        assumptions: &["operand magnitudes keep results representable", "norms within 0.01% of the tolerance may read as either side"],
        run: c06,
    });
}

const TINY: f64 = 1e-37;

fn elem(g: &mut G, big: f64) -> f64 {
    let x = match g.below(4) {
        0 | 1 => val(g) as f64,
        2 => {
            let m = logmag(g, 1.0 / big, big);
            if g.bool() { -m } else { m }
        }
        _ => g.uniform(-1.0, 1.0),
    };
    x as f32 as f64
}

fn mat(g: &mut G, r: usize, c: usize) -> M {
    let big = g.pick(&[10.0, 1e3, 1e8]);
    let mut m = M::zero(r, c);
    for i in 0..r {
        for j in 0..c {
            m.a[i][j] = elem(g, big);
        }
    }
    m
}

fn near(got: &Matrix, want: &M, tol: &M, what: &str) -> R {
    let x = rd(got)?;
    ensure!(x.r == want.r && x.c == want.c, "{} is {}x{}, expected {}x{}", what, x.r, x.c, want.r, want.c);
    for i in 0..x.r {
        for j in 0..x.c {
            let d = (x.a[i][j] - want.a[i][j]).abs();
            within!(d, tol.a[i][j] + TINY, "{}: element ({},{}) is {:?}, exact value {:?} (difference {:e}, allowed {:e})", what, i, j, x.a[i][j] as f32, want.a[i][j], d, tol.a[i][j]);
        }
    }
    Ok(())
}

/// Exponent, whole or not, of either sign.
fn exponent(g: &mut G) -> f64 {
    match g.below(4) {
        0 => g.pick(&[0.0, 1.0, 2.0, 3.0, 0.5, -1.0, 1.5]),
        1 => g.range(-6, 9) as f64,
        2 => g.range(-9, 9) as f64 / 4.0,
        _ => g.uniform(-4.0, 4.0) as f32 as f64,
    }
}

fn scaled(tol: M, k: f64) -> M {
    tol.map(|x| x * k * EPS32)
}

fn c05(g: &mut G) -> R {
    let (r, c, k) = (g.size(1, 4) as usize, g.size(1, 4) as usize, g.size(1, 4) as usize);
    let a = mat(g, r, c);
    let b = mat(g, r, c);
    let p = mat(g, c, k);
    let s = elem(g, 1e4);
    let (xa, xb, xp) = (mk(&a)?, mk(&b)?, mk(&p)?);
    let snaps = (snapm(&xa), snapm(&xb), snapm(&xp));
    if r * c >= 2 && a.maxabs() > 0.0 && b.maxabs() > 0.0 {
        g.nontrivial();
    }
    let op = g.below(10);
    g.note(|| format!("op {} a={} b={} p={} s={:?}", op, a.show(), b.show(), p.show(), s));
    // Destination with unrelated contents.
    let dest = |g: &mut G, r: usize, c: usize| mk(&randm(g, r, c));
    match op {
        0 => {
            let w = a.map2(&b, |x, y| x + y);
            let t = scaled(a.map2(&b, |x, y| x.abs() + y.abs()), 1.0);
            let mut d = dest(g, r, c)?;
            es(d.add(&xa, &xb), "add")?;
            near(&d, &w, &t, "sum into destination")?;
            near(&es(xa.add_new(&xb), "add_new")?, &w, &t, "new sum")?;
            let mut d = es(xa.duplicate(), "duplicate")?;
            es(d.add_in_place(&xb), "add_in_place")?;
            near(&d, &w, &t, "sum in place")?;
        }
        1 => {
            let w = a.map2(&b, |x, y| x - y);
            let t = scaled(a.map2(&b, |x, y| x.abs() + y.abs()), 1.0);
            let mut d = dest(g, r, c)?;
            es(d.sub(&xa, &xb), "sub")?;
            near(&d, &w, &t, "difference into destination")?;
            near(&es(xa.sub_new(&xb), "sub_new")?, &w, &t, "new difference")?;
            let mut d = es(xa.duplicate(), "duplicate")?;
            es(d.sub_in_place(&xb), "sub_in_place")?;
            near(&d, &w, &t, "difference in place")?;
        }
        2 => {
            let w = a.map(|x| x + s);
            let t = scaled(a.map(|x| x.abs() + s.abs()), 1.0);
            let mut d = dest(g, r, c)?;
            es(d.add_scalar(&xa, s as f32), "add_scalar")?;
            near(&d, &w, &t, "scalar sum into destination")?;
            near(&es(xa.add_scalar_new(s as f32), "add_scalar_new")?, &w, &t, "new scalar sum")?;
            let mut d = es(xa.duplicate(), "duplicate")?;
            es(d.add_scalar_in_place(s as f32), "add_scalar_in_place")?;
            near(&d, &w, &t, "scalar sum in place")?;
        }
        3 => {
            let w = a.map(|x| x - s);
            let t = scaled(a.map(|x| x.abs() + s.abs()), 1.0);
            let mut d = dest(g, r, c)?;
            es(d.sub_scalar(&xa, s as f32), "sub_scalar")?;
            near(&d, &w, &t, "scalar difference into destination")?;
            near(&es(xa.sub_scalar_new(s as f32), "sub_scalar_new")?, &w, &t, "new scalar difference")?;
            let mut d = es(xa.duplicate(), "duplicate")?;
            es(d.sub_scalar_in_place(s as f32), "sub_scalar_in_place")?;
            near(&d, &w, &t, "scalar difference in place")?;
        }
        4 => {
            let w = a.map(|x| x * s);
            let t = scaled(w.abs(), 2.0);
            let mut d = es(xa.duplicate(), "duplicate")?;
            es(d.mul_by_scalar_in_place(s as f32), "mul_by_scalar_in_place")?;
            near(&d, &w, &t, "scalar multiple")?;
        }
        5 => {
            let e = exponent(g);
            let span = a.a.iter().flatten().filter(|x| **x != 0.0).fold(0.0f64, |m, x| m.max(x.abs().log10().abs()));
            let e = if e.abs() * span > 36.0 { 2.0 } else { e };
            let base = if e.fract() != 0.0 {
                a.map(|x| if x == 0.0 && e < 0.0 { 1.0 } else { x.abs() })
            } else if e < 0.0 {
                a.map(|x| if x == 0.0 { 1.0 } else { x })
            } else {
                a.clone()
            };
            let w = base.map(|x| x.powf(e));
            let t = w.map(|x| 2e-6 * x.abs());
            let mut d = mk(&base)?;
            es(d.power_elements(e as f32), "power_elements")?;
            near(&d, &w, &t, &format!("elements to the power {}", e))?;
        }
        6 | 7 => {
            let w = a.mul(&p);
            let t = scaled(a.abs().mul(&p.abs()), c as f64 + 1.0);
            let mut d = dest(g, r, k)?;
            es(d.mul(&xa, &xp), "mul")?;
            near(&d, &w, &t, "product into destination")?;
            near(&es(xa.mul_new(&xp), "mul_new")?, &w, &t, "new product")?;
        }
        8 => {
            let w = a.t();
            let z = M::zero(c, r);
            near(&es(xa.transpose_new(), "transpose_new")?, &w, &z, "new transpose")?;
            let mut d = es(xa.duplicate(), "duplicate")?;
            es(d.transpose(), "transpose")?;
            near(&d, &w, &z, "transpose in place")?;
        }
        _ => {
            let n = mat(g, r, r);
            let tr: f64 = (0..r).map(|i| n.a[i][i]).sum();
            let at: f64 = (0..r).map(|i| n.a[i][i].abs()).sum();
            let got = es(mk(&n)?.trace(), "trace")? as f64;
            within!((got - tr).abs(), 4.0 * EPS32 * at + TINY, "trace of {} is {}, exact {}", n.show(), got, tr);
            let f = es(xa.calculate_frobenius_norm(), "calculate_frobenius_norm")? as f64;
            within!((f - a.fro()).abs(), 3e-6 * a.fro() + 1e-15, "Frobenius norm of {} is {}, exact {}", a.show(), f, a.fro());
        }
    }
    ensure!((snapm(&xa), snapm(&xb), snapm(&xp)) == snaps, "an operand was changed");
    Ok(())
}

fn nearv(got: &Vector<f32>, want: &[f64], tol: &[f64], what: &str) -> R {
    let x = rdv(got)?;
    ensure!(x.len() == want.len(), "{} has length {}, expected {}", what, x.len(), want.len());
    for i in 0..x.len() {
        let d = (x[i] as f64 - want[i]).abs();
        within!(d, tol[i] + TINY, "{}: element {} is {:?}, exact {:?} (difference {:e}, allowed {:e})", what, i, x[i], want[i], d, tol[i]);
    }
    Ok(())
}

fn c06(g: &mut G) -> R {
    let n = g.size(1, 4) as usize;
    let m = g.size(1, 4) as usize;
    let big = g.pick(&[10.0, 1e3, 1e8]);
    let a: Vec<f64> = (0..n).map(|_| elem(g, big)).collect();
    let b: Vec<f64> = (0..n).map(|_| elem(g, big)).collect();
    let o: Vec<f64> = (0..m).map(|_| elem(g, big)).collect();
    let s = elem(g, 1e4);
    let f = |v: &[f64]| mkv(&v.iter().map(|&x| x as f32).collect::<Vec<_>>());
    let (xa, xb, xo) = (f(&a)?, f(&b)?, f(&o)?);
    let snaps = (snapv(&xa), snapv(&xb), snapv(&xo));
    if n >= 2 && a.iter().any(|&x| x != 0.0) && b.iter().any(|&x| x != 0.0) {
        g.nontrivial();
    }
    let op = g.below(12);
    g.note(|| format!("op {} a={:?} b={:?} o={:?} s={:?}", op, a, b, o, s));
    let junk: Vec<f64> = (0..n).map(|_| val(g) as f64).collect();
    let z2 = |h: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { a.iter().zip(&b).map(|(&x, &y)| h(x, y)).collect() };
    let z1 = |h: &dyn Fn(f64) -> f64| -> Vec<f64> { a.iter().map(|&x| h(x)).collect() };
    macro_rules! forms {
        ($w:expr, $t:expr, $dest:ident ( $($da:expr),* ), $place:ident, $new:ident ( $($na:expr),* )) => {{
            let (w, t) = ($w, $t);
            let mut d = f(&junk)?;
            es(d.$dest($($da),*), stringify!($dest))?;
            nearv(&d, &w, &t, stringify!($dest))?;
            let mut d = es(xa.duplicate(), "duplicate")?;
            es(d.$place($($na),*), stringify!($place))?;
            nearv(&d, &w, &t, stringify!($place))?;
            nearv(&es(xa.$new($($na),*), stringify!($new))?, &w, &t, stringify!($new))?;
        }};
    }
    let sf = s as f32;
    match op {
        0 => forms!(z2(&|x, y| x + y), z2(&|x, y| EPS32 * (x.abs() + y.abs())), add(&xa, &xb), add_in_place, add_new(&xb)),
        1 => forms!(z2(&|x, y| x - y), z2(&|x, y| EPS32 * (x.abs() + y.abs())), sub(&xa, &xb), sub_in_place, sub_new(&xb)),
        2 => forms!(z1(&|x| x + s), z1(&|x| EPS32 * (x.abs() + s.abs())), add_scalar(&xa, sf), add_scalar_in_place, add_scalar_new(sf)),
        3 => forms!(z1(&|x| x - s), z1(&|x| EPS32 * (x.abs() + s.abs())), sub_scalar(&xa, sf), sub_scalar_in_place, sub_scalar_new(sf)),
        4 => forms!(z1(&|x| x * s), z1(&|x| 2.0 * EPS32 * (x * s).abs()), mul_by_scalar(&xa, sf), mul_by_scalar_in_place, mul_by_scalar_new(sf)),
        5 => {
            let e = exponent(g);
            let span = a.iter().filter(|x| **x != 0.0).fold(0.0f64, |m, x| m.max(x.abs().log10().abs()));
            let e = if e.abs() * span > 36.0 { 2.0 } else { e };
            let base: Vec<f64> = a.iter().map(|&x| if e < 0.0 && x == 0.0 { 1.0 } else if e.fract() != 0.0 { x.abs() } else { x }).collect();
            let w: Vec<f64> = base.iter().map(|x| x.powf(e)).collect();
            let t: Vec<f64> = w.iter().map(|x| 2e-6 * x.abs()).collect();
            let mut d = f(&base)?;
            es(d.power_elements(e as f32), "power_elements")?;
            nearv(&d, &w, &t, &format!("elements to the power {}", e))?;
        }
        6 => {
            let got = es(xa.dot_product(&xb), "dot_product")? as f64;
            let scale: f64 = a.iter().zip(&b).map(|(x, y)| (x * y).abs()).sum();
            within!((got - dot(&a, &b)).abs(), 5.0 * EPS32 * scale + TINY, "dot product {} exact {}", got, dot(&a, &b));
        }
        7 => {
            let got = rd(&es(xa.outer_product(&xo), "outer_product")?)?;
            ensure!(got.r == n && got.c == m, "outer product of {} and {} is {}x{}", n, m, got.r, got.c);
            for i in 0..n {
                for j in 0..m {
                    let e = a[i] * o[j];
                    within!((got.a[i][j] - e).abs(), 2.0 * EPS32 * e.abs() + TINY, "outer product ({},{}) is {}, exact {}", i, j, got.a[i][j], e);
                }
            }
        }
        _ => {
            // Norm and normalisation, including lengths around the tolerance.
            let v: Vec<f64> = match g.below(4) {
                0 => {
                    let l = norm(&a);
                    let t = g.pick(&[0.2, 0.9, 0.99, 1.01, 1.1, 2.0, 10.0]) * TOL;
                    if l > 0.0 { a.iter().map(|x| (x / l * t) as f32 as f64).collect() } else { a.clone() }
                }
                1 => a.iter().map(|x| (x * 1e6) as f32 as f64).collect(),
                _ => a.clone(),
            };
            let l = norm(&v);
            let mut x = f(&v)?;
            let got = es(x.calculate_norm(), "calculate_norm")? as f64;
            let zero = l <= TOL * 0.9999;
            let full = l >= TOL * 1.0001;
            let as_zero = got == 0.0;
            let as_full = (got - l).abs() <= 1e-6 * l + TINY;
            ensure!((zero && as_zero) || (full && as_full) || (!zero && !full && (as_zero || as_full)), "norm of {:?} is {}, exact {}", v, got, l);
            nearv(&x, &v, &vec![0.0; n], "vector whose norm was taken")?;
            es(x.normalize(), "normalize")?;
            let u = rdv(&x)?;
            let is0 = u.iter().all(|&e| e == 0.0);
            let is1 = l > 0.0 && u.iter().zip(&v).all(|(&e, y)| (e as f64 - y / l).abs() <= 1e-6);
            ensure!((zero && is0) || (full && is1) || (!zero && !full && (is0 || is1)), "normalising {:?} (length {}) gave {:?}", v, l, u);
        }
    }
    ensure!((snapv(&xa), snapv(&xb), snapv(&xo)) == snaps, "an operand was changed");
    Ok(())
}
