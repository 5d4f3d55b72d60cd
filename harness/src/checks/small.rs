//! C33-C35: complex numbers, numeric helpers, synthetic attitudes.
use crate::engine::{Prop, G, R};
use crate::ensure;
#[cfg(feature = "std")]
use crate::within;
use crate::gen::*;
use crate::refm::*;
use dsp::complex::Complex;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C33",
        quick: 21_600_000,
        thorough: 216_000_000,
        rule: "the operands have non-zero imaginary parts, or a call must be refused",
        assumptions: &["results within the tolerance of zero may read as zero where the modulus or exponential is taken"],
        run: c33,
    });
    v.push(Prop {
        id: "C34",
        quick: 36_000_000,
        thorough: 360_000_000,
        rule: "always",
        assumptions: &["minimum, maximum and sign are compared on ordered (non-NaN) values"],
        run: c34::helpers,
    });
    #[cfg(feature = "std")]
    v.push(Prop {
        id: "C35",
        quick: 4_000,
        thorough: 40_000,
        rule: "the number is in the supported range (the generator is deterministic, so these are all its sequences)",
        assumptions: &["distance between attitudes is the angle between the quaternions"],
        run: c35,
    });
}

fn part(g: &mut G) -> f32 {
    match g.below(5) {
        0 | 1 => val(g),
        2 => {
            let m = logmag(g, 1e-3, 1e15) as f32;
            if g.bool() { -m } else { m }
        }
        3 => {
            let m = logmag(g, 1e-20, 3e38) as f32;
            if g.bool() { -m } else { m }
        }
        _ => g.uniform(-2.0, 2.0) as f32,
    }
}

/// An angle: within a turn, a multiple of an eighth of a turn, or many turns.
fn angle(g: &mut G) -> f32 {
    match g.below(4) {
        0 => g.range(-40, 41) as f32 * std::f32::consts::FRAC_PI_4,
        1 => {
            let m = logmag(g, 1e-6, 1e6) as f32;
            if g.bool() { -m } else { m }
        }
        _ => g.uniform(-7.0, 7.0) as f32,
    }
}

fn parts(z: &Complex) -> Result<(f64, f64), String> {
    Ok((es(z.get_real_part(), "get_real_part")? as f64, es(z.get_imaginary_part(), "get_imaginary_part")? as f64))
}

fn c33(g: &mut G) -> R {
    let (a, b, c, d) = (part(g), part(g), part(g), part(g));
    let (x, y, u, v) = (a as f64, b as f64, c as f64, d as f64);
    let z1 = es(Complex::new(a, b), "new")?;
    let mut z2 = es(Complex::new(c, d), "new")?;
    let mut r = es(Complex::new(part(g), part(g)), "new")?;
    ensure!(parts(&z1)? == (x, y), "new({:?}, {:?}) holds {:?}", a, b, parts(&z1)?);
    ensure!(parts(&z2)? == (u, v), "new({:?}, {:?}) holds {:?}", c, d, parts(&z2)?);
    let op = g.below(14);
    g.note(|| format!("op {} ({:?}, {:?}) ({:?}, {:?})", op, a, b, c, d));
    if y != 0.0 && v != 0.0 {
        g.nontrivial();
    }
    let near = |z: &Complex, re: f64, im: f64, tre: f64, tim: f64, what: &str| -> R {
        let (p, q) = parts(z)?;
        ensure!((p - re).abs() <= tre + 1e-37 && (q - im).abs() <= tim + 1e-37, "{} of ({:?}, {:?}) and ({:?}, {:?}) is ({}, {}), expected ({}, {})", what, a, b, c, d, p, q, re, im);
        Ok(())
    };
    let e = EPS32;
    // A refusal is right only when a partial result may exceed the largest number, and leaves the number alone.
    let start = parts(&r)?;
    let refused = |z: &Complex, part: f64, what: &str| -> R {
        ensure!(part > 0.99 * f32::MAX as f64, "{} of ({:?}, {:?}) and ({:?}, {:?}) was refused", what, a, b, c, d);
        ensure!(parts(z)? == start, "a refused {} changed the number from {:?} to {:?}", what, start, parts(z)?);
        Ok(())
    };
    match op {
        0 => {
            if r.add(&z1, &z2).is_err() {
                return refused(&r, (x + u).abs().max((y + v).abs()), "sum");
            }
            near(&r, x + u, y + v, e * (x.abs() + u.abs()), e * (y.abs() + v.abs()), "sum")?;
        }
        1 => {
            if r.sub(&z1, &z2).is_err() {
                return refused(&r, (x - u).abs().max((y - v).abs()), "difference");
            }
            near(&r, x - u, y - v, e * (x.abs() + u.abs()), e * (y.abs() + v.abs()), "difference")?;
        }
        2 | 3 => {
            if r.mul(&z1, &z2).is_err() {
                return refused(&r, ((x * u).abs() + (y * v).abs()).max((x * v).abs() + (y * u).abs()), "product");
            }
            near(&r, x * u - y * v, x * v + y * u, 6.0 * e * ((x * u).abs() + (y * v).abs()), 6.0 * e * ((x * v).abs() + (y * u).abs()), "product")?;
        }
        4 | 5 => {
            let n2 = u * u + v * v;
            let clear = u.abs() >= 1.1 * TOL || v.abs() >= 1.1 * TOL;
            if clear {
                let s = (x.abs() + y.abs()) * (u.abs() + v.abs()) / n2;
                if r.div(&z1, &z2).is_err() {
                    return refused(&r, n2.max((x * u).abs() + (y * v).abs()).max((x * v).abs() + (y * u).abs()).max(s), "quotient");
                }
                near(&r, (x * u + y * v) / n2, (y * u - x * v) / n2, 12.0 * e * s, 12.0 * e * s, "quotient")?;
            }
        }
        6 => {
            // Division by a number within the tolerance of zero.
            g.nontrivial();
            let k = [g.pick(&[0.0, 1e-6, -5e-5, 9e-5]), g.pick(&[0.0, 1e-6, -5e-5, 9e-5])];
            let small = es(Complex::new(k[0], k[1]), "new")?;
            let before = parts(&r)?;
            ensure!(r.div(&z1, &small).is_err(), "division by ({:?}, {:?}) succeeded", k[0], k[1]);
            ensure!(parts(&r)? == before, "a refused division changed the number");
        }
        7 => {
            r = es(Complex::new(a, b), "new")?;
            es(r.neg(), "neg")?;
            near(&r, -x, -y, 0.0, 0.0, "negation")?;
            r = es(Complex::new(a, b), "new")?;
            es(r.conjugate(), "conjugate")?;
            near(&r, x, -y, 0.0, 0.0, "conjugate")?;
        }
        8 => {
            r = es(Complex::new(a, b), "new")?;
            let w = x.hypot(y);
            let m = match r.calculate_module() {
                Ok(m) => m as f64,
                Err(_) => {
                    ensure!(w * w > 0.99 * f32::MAX as f64, "the modulus of ({:?}, {:?}) was refused", a, b);
                    ensure!(parts(&r)? == (x, y), "taking the modulus changed the number");
                    return Ok(());
                }
            };
            let ok = (m - w).abs() <= 6.0 * e * w + 1e-37 || (w <= 1.001 * TOL && m == 0.0);
            ensure!(ok, "modulus of ({:?}, {:?}) is {}, expected {}", a, b, m, w);
            ensure!(parts(&r)? == (x, y), "taking the modulus changed the number");
        }
        9 => {
            let m = match g.below(4) {
                0 => logmag(g, 1e-3, 1e6) as f32,
                1 => -logmag(g, 1e-3, 1e6) as f32,
                2 => g.pick(&[0.0f32, -0.0, 1.0, -1.0, 3.4e38, -3.4e38]),
                _ => val(g),
            };
            let t = angle(g);
            es(r.convert_from_polar(m, t), "convert_from_polar")?;
            let (mm, tt) = (m as f64, t as f64);
            let (p, q) = parts(&r)?;
            ensure!((p - mm * tt.cos()).abs() <= 6.0 * e * mm.abs() + 1e-37 && (q - mm * tt.sin()).abs() <= 6.0 * e * mm.abs() + 1e-37, "polar ({:?}, {:?}) is ({}, {})", m, t, p, q);
        }
        10 | 11 => {
            let p = match g.below(4) {
                0 => g.uniform(-95.0, 95.0) as f32,
                1 => val(g),
                _ => g.uniform(-12.0, 12.0) as f32,
            };
            let q = angle(g);
            let mut z = es(Complex::new(p, q), "new")?;
            let w = (p as f64).exp();
            if z.expo().is_err() {
                ensure!(w > 0.999 * f32::MAX as f64, "the exponential of ({:?}, {:?}) was refused", p, q);
                ensure!(parts(&z)? == (p as f64, q as f64), "a refused exponential changed the number");
                return Ok(());
            }
            let (re, im) = parts(&z)?;
            let d = (re - w * (q as f64).cos()).abs().max((im - w * (q as f64).sin()).abs());
            let zero = w <= 1.001 * TOL && re == 0.0 && im == 0.0;
            ensure!(d <= 8.0 * e * w || zero, "exponential of ({:?}, {:?}) is ({}, {})", p, q, re, im);
        }
        12 => {
            let mut z = es(Complex::new(a, b), "new")?;
            es(z.swap(&mut z2), "swap")?;
            ensure!(parts(&z)? == (u, v) && parts(&z2)? == (x, y), "swapping ({:?}, {:?}) and ({:?}, {:?}) gave {:?} and {:?}", a, b, c, d, parts(&z)?, parts(&z2)?);
        }
        _ => {
            // Setters and refusals.
            g.nontrivial();
            let n = nonfinite(g);
            ensure!(Complex::new(n, a).is_err() && Complex::new(a, n).is_err(), "a number with part {:?} was created", n);
            let mut z = es(Complex::new(a, b), "new")?;
            ensure!(z.set_real_part(n).is_err() && z.set_imaginary_part(n).is_err(), "part {:?} was set", n);
            let t = if g.bool() { (n, 1.0) } else { (1.0, n) };
            ensure!(z.convert_from_polar(t.0, t.1).is_err(), "polar {:?} accepted", t);
            ensure!(parts(&z)? == (x, y), "a refused call changed the number to {:?}", parts(&z)?);
            es(z.set_real_part(c), "set_real_part")?;
            ensure!(parts(&z)? == (u, y), "setting the real part gave {:?}", parts(&z)?);
            es(z.set_imaginary_part(d), "set_imaginary_part")?;
            ensure!(parts(&z)? == (u, v), "setting the imaginary part gave {:?}", parts(&z)?);
        }
    }
    ensure!(parts(&z1)? == (x, y), "an operand was changed");
    if op != 12 {
        ensure!(parts(&z2)? == (u, v), "an operand was changed");
    }
    Ok(())
}

mod c34 {
    use crate::engine::{G, R};
    use crate::ensure;
    use crate::gen::*;
    use crate::refm::*;
    use utils::utils::{allclose, clip, factorial, in_range, is_valid_value, max, maxf, min, minf, Sign, UtilsError};
    include!("helpers.in.rs");
}


#[cfg(feature = "std")]
fn c35(g: &mut G) -> R {
    use open_ahrs::common::generate_random_attitudes;
    let n = if g.chance(3, 4) { g.size(1, 4) } else { g.below(256) as u8 };
    g.note(|| format!("generate_random_attitudes({})", n));
    let r = generate_random_attitudes(n);
    if !(1..=4).contains(&n) {
        ensure!(r.is_err(), "{} attitudes were generated", n);
        return Ok(());
    }
    g.nontrivial();
    let m = rd(&es(r, "generate_random_attitudes")?)?;
    ensure!(m.r == 4 && m.c == n as usize, "{} attitudes gave a {}x{} matrix", n, m.r, m.c);
    let col = |m: &M, j: usize| -> Q { [m.a[0][j], m.a[1][j], m.a[2][j], m.a[3][j]] };
    let mut prev: Q = [1.0, 0.0, 0.0, 0.0];
    let mut dirs: Vec<[f64; 3]> = Vec::new();
    for j in 0..n as usize {
        let q = col(&m, j);
        within!((norm(&q) - 1.0).abs(), 1e-6, "attitude {} is not unit: {}", j, qshow(&q));
        let step = qmul(&qconj(&prev), &q);
        let ang = norm(&step[1..]).atan2(step[0]);
        within!(ang.abs(), PI / 64.0 + 1e-4, "attitude {} is {} rad from the previous one", j, ang);
        ensure!(qdist(&q, &prev) > 1e-4, "attitudes {} and the one before are the same: {}", j, qshow(&q));
        let l = norm(&step[1..]);
        dirs.push([step[1] / l, step[2] / l, step[3] / l]);
        prev = q;
    }
    for j in 1..dirs.len() {
        let a = angle3(&dirs[j], &dirs[j - 1]);
        ensure!(a > 0.05, "steps {} and {} have the same direction ({} rad apart)", j, j - 1, a);
    }
    for k in 1..n {
        let p = rd(&es(generate_random_attitudes(k), "generate_random_attitudes")?)?;
        for j in 0..k as usize {
            ensure!(col(&p, j) == col(&m, j), "the sequence of {} is not a prefix of the sequence of {}", k, n);
        }
    }
    Ok(())
}
