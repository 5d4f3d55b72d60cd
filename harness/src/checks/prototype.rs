//! C39-C41: the prototype program and helpers under /repo/temp, compiled in from their sources
//! (built with `--cfg prototype --cfg verif`).
use crate::engine::{Prop, G, R};
use crate::gen::*;
use crate::refm::*;
use crate::{ensure, within};

#[allow(dead_code, unused)]
mod program {
    include!("/repo/temp/dsp/src/main.rs");
}

#[allow(dead_code, unused, unused_attributes)]
#[path = "/repo/temp/utils/src/lib.rs"]
mod temp_utils;

mod helpers {
    use super::temp_utils::utils::{allclose, clip, factorial, in_range, is_valid_value, max, maxf, min, minf, Sign, UtilsError};
    use crate::engine::{G, R};
    use crate::ensure;
    use crate::gen::*;
    use crate::refm::*;
    include!("helpers.in.rs");
}

use program::{Complex, N_MAX};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C39",
        quick: 1_800_000,
        thorough: 18_000_000,
        rule: "at least two samples are not zero, or the transform overflows",
        assumptions: &["the angles of the transform are rounded to single precision over up to fourteen turns"],
        run: c39,
    });
    v.push(Prop {
        id: "C40",
        quick: 21_600_000,
        thorough: 216_000_000,
        rule: "the operands have non-zero imaginary parts, or a call must be refused",
        assumptions: &["divisors of magnitude up to 1e18, so that the squared modulus stays representable", "results within the tolerance of zero may read as zero where the modulus or exponential is taken"],
        run: c40,
    });
    v.push(Prop {
        id: "C41",
        quick: 18_000_000,
        thorough: 180_000_000,
        rule: "always",
        assumptions: &["minimum, maximum and sign are compared on ordered (non-NaN) values"],
        run: helpers::helpers,
    });
}

fn get(z: &Complex) -> Result<(f64, f64), String> {
    Ok((es(z.get_real_part(), "get_real_part")? as f64, es(z.get_imaginary_part(), "get_imaginary_part")? as f64))
}

fn c39(g: &mut G) -> R {
    let mut x = [(0.0f32, 0.0f32); N_MAX];
    let scale = match g.below(6) {
        0 => logmag(g, 1e-20, 1e30) as f32,
        1 => logmag(g, 1e35, 3e38) as f32,
        _ => 1.0,
    };
    let kind = g.below(4);
    let real = g.chance(1, 3);
    let tone = g.below(N_MAX as u32) as f64;
    for n in 0..N_MAX {
        let (re, im) = match kind {
            // An impulse or a few, a pure tone, small integers, anything.
            0 => if g.chance(1, 8) { (g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0)) } else { (0.0, 0.0) },
            1 => {
                let t = 2.0 * PI * tone * n as f64 / N_MAX as f64;
                (t.cos(), t.sin())
            }
            2 => (g.range(-4, 4) as f64 / 4.0, g.range(-4, 4) as f64 / 4.0),
            _ => (g.uniform(-1.0, 1.0), g.uniform(-1.0, 1.0)),
        };
        x[n] = (re as f32 * scale, if real { 0.0 } else { im as f32 * scale });
    }
    g.note(|| format!("{:?}", x));
    let mut z = [es(Complex::new(0.0, 0.0), "new")?; N_MAX];
    for n in 0..N_MAX {
        z[n] = es(Complex::new(x[n].0, x[n].1), "new")?;
    }
    let sum: f64 = x.iter().map(|p| p.0.abs() as f64 + p.1.abs() as f64).sum();
    if x.iter().filter(|p| **p != (0.0, 0.0)).count() >= 2 || sum > f32::MAX as f64 {
        g.nontrivial();
    }
    let r = program::verif_dft_naive(z);
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            ensure!(sum > 0.99 * f32::MAX as f64, "the transform of {:?} was refused: {:?}", x, e);
            return Ok(());
        }
    };
    if sum > 0.5 * f32::MAX as f64 {
        g.class("near overflow");
    }
    for k in 0..N_MAX {
        let (mut re, mut im) = (0.0, 0.0);
        for n in 0..N_MAX {
            let t = -2.0 * PI * ((k * n) % N_MAX) as f64 / N_MAX as f64;
            let (a, b) = (x[n].0 as f64, x[n].1 as f64);
            re += a * t.cos() - b * t.sin();
            im += a * t.sin() + b * t.cos();
        }
        let (p, q) = get(&r[k])?;
        within!((p - re).abs().max((q - im).abs()), 4e-5 * sum + 1e-36, "element {} of the transform of {:?} is ({}, {}), expected ({}, {})", k, x, p, q, re, im);
    }
    Ok(())
}

fn part(g: &mut G) -> f32 {
    match g.below(4) {
        0 | 1 => val(g),
        2 => {
            let m = logmag(g, 1e-20, 1e18) as f32;
            if g.bool() { -m } else { m }
        }
        _ => g.uniform(-2.0, 2.0) as f32,
    }
}

fn c40(g: &mut G) -> R {
    let (a, b, c, d) = (part(g), part(g), part(g), part(g));
    let (x, y, u, v) = (a as f64, b as f64, c as f64, d as f64);
    let z1 = es(Complex::new(a, b), "new")?;
    let mut z2 = es(Complex::new(c, d), "new")?;
    let mut r = es(Complex::new(part(g), part(g)), "new")?;
    ensure!(get(&z1)? == (x, y), "new({:?}, {:?}) holds {:?}", a, b, get(&z1)?);
    if y != 0.0 && v != 0.0 {
        g.nontrivial();
    }
    let op = g.below(12);
    g.note(|| format!("op {} ({:?}, {:?}) ({:?}, {:?})", op, a, b, c, d));
    let e = EPS32;
    let near = |z: &Complex, re: f64, im: f64, tre: f64, tim: f64, what: &str| -> R {
        let (p, q) = get(z)?;
        ensure!((p - re).abs() <= tre + 1e-37 && (q - im).abs() <= tim + 1e-37, "{} of ({:?}, {:?}) and ({:?}, {:?}) is ({}, {}), expected ({}, {})", what, a, b, c, d, p, q, re, im);
        Ok(())
    };
    // Both forms of an operation.
    let mut w = es(z1.duplicate(), "duplicate")?;
    match op {
        0 => {
            es(r.add(&z1, &z2), "add")?;
            es(w.add_in_place(&z2), "add_in_place")?;
            for z in [&r, &w] {
                near(z, x + u, y + v, e * (x.abs() + u.abs()), e * (y.abs() + v.abs()), "sum")?;
            }
        }
        1 => {
            es(r.sub(&z1, &z2), "sub")?;
            es(w.sub_in_place(&z2), "sub_in_place")?;
            for z in [&r, &w] {
                near(z, x - u, y - v, e * (x.abs() + u.abs()), e * (y.abs() + v.abs()), "difference")?;
            }
        }
        2 | 3 => {
            es(r.mul(&z1, &z2), "mul")?;
            es(w.mul_in_place(&z2), "mul_in_place")?;
            for z in [&r, &w] {
                near(z, x * u - y * v, x * v + y * u, 3.0 * e * ((x * u).abs() + (y * v).abs()), 3.0 * e * ((x * v).abs() + (y * u).abs()), "product")?;
            }
        }
        4 => {
            let n2 = u * u + v * v;
            if u.abs() >= 1.1 * TOL || v.abs() >= 1.1 * TOL {
                es(r.div(&z1, &z2), "div")?;
                let s = (x.abs() + y.abs()) * (u.abs() + v.abs()) / n2;
                near(&r, (x * u + y * v) / n2, (y * u - x * v) / n2, 6.0 * e * s, 6.0 * e * s, "quotient")?;
            }
        }
        5 => {
            g.nontrivial();
            let k = [g.pick(&[0.0, 1e-6, -5e-5, 9e-5]), g.pick(&[0.0, 1e-6, -5e-5, 9e-5])];
            let small = es(Complex::new(k[0], k[1]), "new")?;
            let before = get(&r)?;
            ensure!(r.div(&z1, &small).is_err(), "division by ({:?}, {:?}) succeeded", k[0], k[1]);
            ensure!(get(&r)? == before, "a refused division changed the number");
        }
        6 => {
            es(w.neg(), "neg")?;
            near(&w, -x, -y, 0.0, 0.0, "negation")?;
            es(r.copy_from(&z1), "copy_from")?;
            es(r.conjugate(), "conjugate")?;
            near(&r, x, -y, 0.0, 0.0, "conjugate")?;
        }
        7 => {
            let m = es(w.calculate_module(), "calculate_module")? as f64;
            let l = x.hypot(y);
            ensure!((m - l).abs() <= 2.0 * e * l + 1e-37 || (l <= 1.001 * TOL && m == 0.0), "modulus of ({:?}, {:?}) is {}, expected {}", a, b, m, l);
            near(&w, x, y, 0.0, 0.0, "the number after its modulus")?;
        }
        8 => {
            let t = if g.bool() { g.uniform(-40.0, 40.0) as f32 } else { g.range(-40, 41) as f32 * std::f32::consts::FRAC_PI_4 };
            es(r.convert_from_polar(a, t), "convert_from_polar")?;
            let tt = t as f64;
            near(&r, x * tt.cos(), x * tt.sin(), 2.0 * e * x.abs(), 2.0 * e * x.abs(), "polar form")?;
        }
        9 => {
            let (p, q) = (g.uniform(-12.0, 12.0) as f32, g.uniform(-40.0, 40.0) as f32);
            let mut z = es(Complex::new(p, q), "new")?;
            es(z.expo(), "expo")?;
            let m = (p as f64).exp();
            let (re, im) = get(&z)?;
            let dist = (re - m * (q as f64).cos()).abs().max((im - m * (q as f64).sin()).abs());
            ensure!(dist <= 3.0 * e * m || (m <= 1.001 * TOL && re == 0.0 && im == 0.0), "exponential of ({:?}, {:?}) is ({}, {})", p, q, re, im);
        }
        10 => {
            es(w.swap(&mut z2), "swap")?;
            ensure!(get(&w)? == (u, v) && get(&z2)? == (x, y), "swapping gave {:?} and {:?}", get(&w)?, get(&z2)?);
            return Ok(());
        }
        _ => {
            g.nontrivial();
            let n = nonfinite(g);
            ensure!(Complex::new(n, a).is_err() && Complex::new(a, n).is_err(), "a number with part {:?} was created", n);
            ensure!(w.set_real_part(n).is_err() && w.set_imaginary_part(n).is_err(), "part {:?} was set", n);
            let t = if g.bool() { (n, 1.0) } else { (1.0, n) };
            ensure!(w.convert_from_polar(t.0, t.1).is_err(), "polar {:?} accepted", t);
            ensure!(get(&w)? == (x, y), "a refused call changed the number to {:?}", get(&w)?);
            es(w.set_real_part(c), "set_real_part")?;
            ensure!(get(&w)? == (u, y), "setting the real part gave {:?}", get(&w)?);
            es(w.set_imaginary_part(d), "set_imaginary_part")?;
            ensure!(get(&w)? == (u, v), "setting the imaginary part gave {:?}", get(&w)?);
        }
    }
    ensure!(get(&z1)? == (x, y) && get(&z2)? == (u, v), "an operand was changed");
    Ok(())
}
