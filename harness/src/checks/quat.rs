//! C16-C21: quaternions.
use crate::engine::{Prop, G, R};
use crate::{ensure, within};
use crate::gen::*;
use crate::refm::*;
use linalg::vector::Vector;
use quaternion::quaternion::Quaternion;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C16",
        quick: 14_400_000,
        thorough: 144_000_000,
        rule: "no operand is real",
        assumptions: &["norms within 10% of the tolerance are not generated for the inverse"],
        run: c16,
    });
    v.push(Prop {
        id: "C17",
        quick: 14_400_000,
        thorough: 144_000_000,
        rule: "the quaternion is not zero",
        assumptions: &["real part within [-80,80], vector part of length at most 3000", "parts within the tolerance of zero may be treated as zero"],
        run: c17,
    });
    v.push(Prop {
        id: "C18",
        quick: 14_400_000,
        thorough: 144_000_000,
        rule: "the quaternion is not the identity",
        assumptions: &["quaternions are unit up to single-precision rounding"],
        run: c18,
    });
    v.push(Prop {
        id: "C19",
        quick: 4_800_000,
        thorough: 144_000_000,
        rule: "the rotation is not the identity",
        assumptions: &["for real parts below 0.01 the first method is allowed the error of its division by the real part", "conversion parameter of the third method in [-0.5,0.5]"],
        run: c19,
    });
    v.push(Prop {
        id: "C20",
        quick: 14_400_000,
        thorough: 144_000_000,
        rule: "the quaternion is not the identity",
        assumptions: &["the composed rotation is compared for pitch magnitudes up to 89.88 degrees"],
        run: c20,
    });
    v.push(Prop {
        id: "C21",
        quick: 10_800_000,
        thorough: 108_000_000,
        rule: "at least three operations, or a wrong length, or a classified quaternion",
        assumptions: &["components between half and one and a half tolerances from a deciding value are not generated"],
        run: c21,
    });
}

fn mq(q: &[f32; 4]) -> Result<Vector<f32>, String> {
    mkv(q)
}

fn comp(g: &mut G) -> f32 {
    match g.below(4) {
        0 => val(g),
        1 => g.uniform(-1.0, 1.0) as f32,
        2 => g.pick(&[0.0, 1.0, -1.0, 2.0]),
        _ => {
            let m = logmag(g, 1e-6, 1e8) as f32;
            if g.bool() { -m } else { m }
        }
    }
}
fn anyq(g: &mut G) -> [f32; 4] {
    if g.chance(1, 4) {
        unitq(g)
    } else {
        [comp(g), comp(g), comp(g), comp(g)]
    }
}

fn c16(g: &mut G) -> R {
    let (a, b, c) = (anyq(g), anyq(g), anyq(g));
    let (ra, rb, rc) = (q64(&a), q64(&b), q64(&c));
    if norm(&ra[1..]) > 0.0 && norm(&rb[1..]) > 0.0 {
        g.nontrivial();
    }
    g.note(|| format!("{:?} {:?} {:?}", a, b, c));
    let (na, nb, nc) = (norm(&ra), norm(&rb), norm(&rc));
    let (xa, xb, xc) = (mq(&a)?, mq(&b)?, mq(&c)?);
    let snaps = (snapv(&xa), snapv(&xb), snapv(&xc));
    let want = qmul(&ra, &rb);
    let tol = 4.0 * EPS32 * na * nb + 1e-30;
    let mut d = mq(&anyq(g))?;
    es(Quaternion::mul(&mut d, &xa, &xb), "mul")?;
    let got = rdq(&d)?;
    within!(qdist(&got, &want), tol, "{:?} * {:?} = {}, expected {}", a, b, qshow(&got), qshow(&want));
    let got2 = rdq(&es(Quaternion::mul_new(&xa, &xb), "mul_new")?)?;
    within!(qdist(&got2, &want), tol, "new product {:?} * {:?} = {}, expected {}", a, b, qshow(&got2), qshow(&want));
    // Associativity through the library itself.
    let ab = d;
    let l = rdq(&es(Quaternion::mul_new(&ab, &xc), "mul_new")?)?;
    let bc = es(Quaternion::mul_new(&xb, &xc), "mul_new")?;
    let r = rdq(&es(Quaternion::mul_new(&xa, &bc), "mul_new")?)?;
    within!(qdist(&l, &r), 16.0 * EPS32 * na * nb * nc + 1e-30, "product not associative: {} vs {}", qshow(&l), qshow(&r));
    // Conjugate.
    let cj = es(xa.conjugate_new(), "conjugate_new")?;
    ensure!(rdq(&cj)? == qconj(&ra), "conjugate of {:?} is {}", a, qshow(&rdq(&cj)?));
    let mut x = mq(&a)?;
    es(x.conjugate(), "conjugate")?;
    ensure!(rdq(&x)? == qconj(&ra), "in-place conjugate of {:?} is {}", a, qshow(&rdq(&x)?));
    // Identity.
    let mut one = mq(&[0.3, 0.1, 0.2, 0.4])?;
    es(Quaternion::fill_identity(&mut one), "fill_identity")?;
    let p = rdq(&es(Quaternion::mul_new(&xa, &one), "mul_new")?)?;
    within!(qdist(&p, &ra), 2.0 * EPS32 * na + 1e-30, "{:?} * identity = {}", a, qshow(&p));
    let p = rdq(&es(Quaternion::mul_new(&one, &xa), "mul_new")?)?;
    within!(qdist(&p, &ra), 2.0 * EPS32 * na + 1e-30, "identity * {:?} = {}", a, qshow(&p));
    // Inverse, sometimes near the zero tolerance.
    let q = if g.chance(1, 5) && na > 1e-3 {
        let k = g.pick(&[0.0, 0.1, 0.85, 1.2, 2.0, 10.0]) * TOL / na;
        [(ra[0] * k) as f32, (ra[1] * k) as f32, (ra[2] * k) as f32, (ra[3] * k) as f32]
    } else {
        a
    };
    let rq = q64(&q);
    let nq = norm(&rq);
    let mut x = mq(&q)?;
    es(Quaternion::invert(&mut x), "invert")?;
    let inv = rdq(&x)?;
    if nq <= 0.9 * TOL {
        ensure!(inv == [0.0; 4], "inverse of {:?} (within tolerance of zero) is {}", q, qshow(&inv));
    } else if nq >= 1.1 * TOL {
        for (p, side) in [(qmul(&rq, &inv), "right"), (qmul(&inv, &rq), "left")] {
            within!(qdist(&p, &[1.0, 0.0, 0.0, 0.0]), 2e-6, "{} inverse of {:?} is {}: product {}", side, q, qshow(&inv), qshow(&p));
        }
    }
    ensure!((snapv(&xa), snapv(&xb), snapv(&xc)) == snaps, "an operand was changed");
    Ok(())
}

fn c17(g: &mut G) -> R {
    let w = match g.below(5) {
        0 => 0.0,
        1 => g.pick(&[1.0, -1.0, 2.0, 5.0, -5.0, 0.5]),
        2 => (if g.bool() { -1.0 } else { 1.0 }) * logmag(g, 1e-6, 1e-2),
        3 => g.uniform(-80.0, 80.0),
        _ => g.uniform(-5.0, 5.0),
    };
    let d = dir3(g);
    let n = match g.below(6) {
        0 => 0.0,
        1 => logmag(g, 1e-6, 1e-2),
        2 => g.pick(&[0.5, 1.0, 2.0, PI / 2.0, PI, 2.0 * PI]),
        3 => logmag(g, 7.0, 3e3),
        _ => g.uniform(0.0, 7.0),
    };
    let q = [w as f32, (d[0] * n) as f32, (d[1] * n) as f32, (d[2] * n) as f32];
    let r = q64(&q);
    if r != [0.0; 4] {
        g.nontrivial();
    }
    g.note(|| format!("{:?}", q));
    let e = qexp(&r);
    let ew = r[0].exp();
    let mv = norm(&r[1..]);
    let loose = (r[0] != 0.0 && r[0].abs() <= 1.1 * TOL) || (mv != 0.0 && mv <= 2.0 * TOL);
    let tol = ew * (2e-6 + 4.0 * EPS32 * (mv + r[0].abs()) + if loose { 4e-4 } else { 0.0 });
    let x = mq(&q)?;
    let s = snapv(&x);
    let got_v = es(x.exp_new(), "exp_new")?;
    let got = rdq(&got_v)?;
    within!(qdist(&got, &e), tol, "exp of {:?} is {}, expected {} (allowed {:e})", q, qshow(&got), qshow(&e), tol);
    ensure!(snapv(&x) == s, "exp_new changed its operand");
    let mut y = mq(&q)?;
    es(y.exp(), "exp")?;
    let got = rdq(&y)?;
    within!(qdist(&got, &e), tol, "in-place exp of {:?} is {}, expected {} (allowed {:e})", q, qshow(&got), qshow(&e), tol);
    // exp(q) exp(-q) = 1.
    let m = mq(&[-q[0], -q[1], -q[2], -q[3]])?;
    let p = qmul(&rdq(&got_v)?, &rdq(&es(m.exp_new(), "exp_new")?)?);
    within!(qdist(&p, &[1.0, 0.0, 0.0, 0.0]), 5e-6 + 8.0 * EPS32 * (mv + r[0].abs()) + if loose { 1e-3 } else { 0.0 }, "exp(q) exp(-q) = {} for {:?}", qshow(&p), q);
    Ok(())
}

fn c18(g: &mut G) -> R {
    let (a, b) = (unitq(g), unitq(g));
    let ra = q64(&a);
    if norm(&ra[1..]) > 1e-7 {
        g.nontrivial();
    }
    let mag = if g.chance(1, 3) { logmag(g, 1e-15, 1e15) } else { logmag(g, 1e-2, 1e3) };
    let d = dir3(g);
    let v = [(d[0] * mag) as f32, (d[1] * mag) as f32, (d[2] * mag) as f32];
    g.note(|| format!("{:?} {:?} {:?}", a, b, v));
    let (xa, xb) = (mq(&a)?, mq(&b)?);
    let m = rd(&es(xa.convert_to_dcm(), "convert_to_dcm")?)?;
    ensure!(m.r == 3 && m.c == 3, "matrix is {}x{}", m.r, m.c);
    let want = qdcm(&ra);
    within!(m.dist(&want), 1e-6, "matrix of {:?} is {}, expected {}", a, m.show(), want.show());
    ensure!(m.t().mul(&m).dist(&M::eye(3)) <= 4e-6 && (m.det() - 1.0).abs() <= 4e-6, "matrix of {:?} is not a proper rotation: {}", a, m.show());
    let mneg = rd(&es(mq(&[-a[0], -a[1], -a[2], -a[3]])?.convert_to_dcm(), "convert_to_dcm")?)?;
    within!(mneg.dist(&m), 1e-6, "opposite quaternions give different matrices");
    let ab = es(Quaternion::mul_new(&xa, &xb), "mul_new")?;
    let mab = rd(&es(ab.convert_to_dcm(), "convert_to_dcm")?)?;
    let mb = rd(&es(xb.convert_to_dcm(), "convert_to_dcm")?)?;
    within!(mab.dist(&m.mul(&mb)), 4e-6, "matrix of the product differs from the product of the matrices");
    // Rotation of a vector, both forms.
    let xv = mkv(&v)?;
    let sv = snapv(&xv);
    let vv = [v[0] as f64, v[1] as f64, v[2] as f64];
    let w = qrot(&ra, &vv);
    let tol = 2e-6 * norm(&vv);
    let close = |r: &[f32]| r.len() == 3 && (0..3).all(|i| (r[i] as f64 - w[i]).abs() <= tol);
    let rot = es(xa.rotate(&xv), "rotate")?;
    let r1 = rdv(&rot)?;
    ensure!(close(&r1), "rotating {:?} by {:?} gives {:?}, expected {:?}", v, a, r1, w);
    let mut y = mkv(&v)?;
    es(xa.rotate_in_place(&mut y), "rotate_in_place")?;
    ensure!(close(&rdv(&y)?), "rotating {:?} in place by {:?} gives {:?}, expected {:?}", v, a, rdv(&y)?, w);
    let cj = es(xa.conjugate_new(), "conjugate_new")?;
    let back = rdv(&es(cj.rotate(&rot), "rotate")?)?;
    ensure!((0..3).all(|i| (back[i] - v[i]).abs() as f64 <= 2.0 * tol), "the conjugate does not undo the rotation: {:?} from {:?}", back, v);
    ensure!(snapv(&xv) == sv && rdq(&xa)? == ra, "an operand was changed");
    Ok(())
}

fn c19(g: &mut G) -> R {
    let d = dir3(g);
    let (q, half): (Q, bool) = match g.below(7) {
        6 => {
            // Small whole components: every rotation of the cube, with an exact matrix.
            let mut q = [g.below(2) as f64, 0.0, 0.0, 0.0];
            for k in 1..4 {
                q[k] = g.pick(&[0.0, 1.0, -1.0]);
            }
            if q == [0.0; 4] {
                q[0] = 1.0;
            }
            g.class("whole components");
            (qunit(&q), q[0] == 0.0)
        }
        0 => (axang(&d, PI), true),
        1 => ([1.0, 0.0, 0.0, 0.0], false),
        2 => (axang(&d, logmag(g, 1e-6, 1e-1)), false),
        3 => {
            // Close to a half turn.
            let w = if g.chance(1, 3) { logmag(g, 1e-8, 0.01) } else { logmag(g, 0.01, 0.3) };
            let s = (1.0 - w * w).sqrt();
            ([w, s * d[0], s * d[1], s * d[2]], false)
        }
        _ => {
            let mut q = q64(&unitq(g));
            if q[0] < 0.0 {
                q = qneg(&q);
            }
            if q[0] < 0.01 {
                q = axang(&d, 1.0);
            }
            (qunit(&q), false)
        }
    };
    let mut q = q;
    if half {
        q[0] = 0.0;
        g.class("half turn");
    }
    if norm(&q[1..]) > 0.0 {
        g.nontrivial();
    }
    let mut m = qdcm(&q).map(|x| if (x - x.round()).abs() < 1e-12 { x.round() } else { x });
    // Half turns are exactly symmetric.
    if half {
        for i in 0..3 {
            for j in 0..i {
                m.a[i][j] = m.a[j][i];
            }
        }
    }
    m.round32();
    let eta = if g.bool() { None } else { Some(g.uniform(-0.5, 0.5) as f32) };
    g.note(|| format!("quaternion {} matrix {} eta {:?}", qshow(&q), m.show(), eta));
    let x = mk(&m)?;
    let s = snapm(&x);
    let w = q[0];
    for method in 0..3 {
        let mut y = mq(&[0.5, 0.5, 0.5, 0.5])?;
        let name = ["hughes", "chiaverini", "sarabandi"][method];
        let r = match method {
            0 => y.hughes(&x),
            1 => y.chiaverini(&x),
            _ => y.sarabandi(&x, eta),
        };
        ensure!(r.is_ok(), "{} refused the matrix of {}: {:?}", name, qshow(&q), r);
        let got = rdq(&y)?;
        // Each component found as a root loses precision as it gets small.
        let root = |c: f64| 2e-6 + (3e-7 / c.abs().max(1e-12)).min(7e-4);
        let tols: [f64; 4] = if half || method == 1 || (method == 2 && w < 0.01) {
            [root(q[0]), root(q[1]), root(q[2]), root(q[3])]
        } else if method == 0 {
            // Divides by the real part, taken for zero up to ten tolerances.
            [if w < 0.01 { 2e-3 } else { 1e-6 } + (3e-7 / (w * w)).min(0.3); 4]
        } else {
            [2e-6 + 3e-7 / w; 4]
        };
        let s = if (0..4).map(|i| got[i] * q[i]).sum::<f64>() < 0.0 { -1.0 } else { 1.0 };
        for i in 0..4 {
            within!((s * got[i] - q[i]).abs(), tols[i], "{} of the matrix of {} gives {} (component {}, allowed {:e})", name, qshow(&q), qshow(&got), i, tols[i]);
        }
        let tol = 2.0 * tols.iter().fold(0.0f64, |a, &b| a.max(b));
        within!((norm(&got) - 1.0).abs(), tol, "{} result {} is not unit", name, qshow(&got));
        ensure!(got[0] >= -1e-6, "{} result {} has negative real part", name, qshow(&got));
    }
    ensure!(snapm(&x) == s, "a conversion changed the matrix");
    Ok(())
}

fn euler_m(phi: f64, theta: f64, psi: f64) -> M {
    let x = axang(&[1.0, 0.0, 0.0], phi);
    let y = axang(&[0.0, 1.0, 0.0], theta);
    let z = axang(&[0.0, 0.0, 1.0], psi);
    qdcm(&qmul(&qmul(&z, &y), &x))
}

fn c20(g: &mut G) -> R {
    let vertical = g.chance(1, 4);
    let q: [f32; 4] = if vertical {
        // Pitch of exactly a quarter turn with any roll and yaw.
        let s = if g.bool() { 1.0 } else { -1.0 };
        let (a, b) = if g.bool() { (g.uniform(-PI, PI), g.uniform(-PI, PI)) } else { (g.range(0, 8) as f64 * PI / 4.0, g.range(0, 8) as f64 * PI / 4.0) };
        let x = axang(&[1.0, 0.0, 0.0], a);
        let y = axang(&[0.0, 1.0, 0.0], s * PI / 2.0);
        let z = axang(&[0.0, 0.0, 1.0], b);
        g.class("vertical");
        roundq(&qunit(&qmul(&qmul(&z, &y), &x)))
    } else if g.chance(1, 4) {
        let x = axang(&[1.0, 0.0, 0.0], g.uniform(-PI, PI));
        let y = axang(&[0.0, 1.0, 0.0], (if g.bool() { 1.0 } else { -1.0 }) * (PI / 2.0 - logmag(g, 1e-6, 0.3)));
        let z = axang(&[0.0, 0.0, 1.0], g.uniform(-PI, PI));
        roundq(&qunit(&qmul(&qmul(&z, &y), &x)))
    } else {
        unitq(g)
    };
    let r = q64(&q);
    if norm(&r[1..]) > 1e-7 {
        g.nontrivial();
    }
    g.note(|| format!("{:?}", q));
    let x = mq(&q)?;
    let (a, b, c) = es(x.convert_to_euler(), "convert_to_euler")?;
    let (phi, theta, psi) = (a as f64, b as f64, c as f64);
    ensure!(a.is_finite() && b.is_finite() && c.is_finite(), "angles of {:?} are ({:?}, {:?}, {:?})", q, a, b, c);
    let e = 1e-6;
    ensure!(phi.abs() <= PI + e && theta.abs() <= PI / 2.0 + e && psi.abs() <= PI + e, "angles of {:?} out of range: ({}, {}, {})", q, a, b, c);
    let m = qdcm(&qunit(&r));
    let sin_t = -m.a[2][0];
    let cos_t = (1.0 - sin_t * sin_t).max(0.0).sqrt();
    if vertical {
        ensure!((theta.abs() - PI / 2.0).abs() <= 2e-3 && theta.signum() == sin_t.signum(), "pitch of vertical {:?} is {}", q, theta);
    }
    if cos_t > 2e-3 {
        let got = euler_m(phi, theta, psi);
        let tol = 2e-6 + 1e-6 / cos_t;
        within!(got.dist(&m), tol, "angles ({}, {}, {}) of {:?} compose to {}, expected {} (allowed {:e})", a, b, c, q, got.show(), m.show(), tol);
        let (a2, b2, c2) = es(mq(&[-q[0], -q[1], -q[2], -q[3]])?.convert_to_euler(), "convert_to_euler")?;
        let turn = |x: f64| (x - (x / (2.0 * PI)).round() * 2.0 * PI).abs();
        let t2 = 4e-6 / cos_t;
        ensure!(turn(a2 as f64 - phi) <= t2 && (b2 as f64 - theta).abs() <= t2 && turn(c2 as f64 - psi) <= t2, "opposite quaternions give ({}, {}, {}) and ({}, {}, {})", a, b, c, a2, b2, c2);
    } else {
        // Only the sum or difference of roll and yaw is determined; the rotation still has to be the same, to the root of the precision.
        let got = euler_m(phi, theta, psi);
        within!(got.dist(&m), 6e-3, "angles ({}, {}, {}) of {:?} compose to {}, expected {}", a, b, c, q, got.show(), m.show());
        within!((theta - sin_t.clamp(-1.0, 1.0).asin()).abs(), 2e-3, "pitch of {:?} is {}, expected {}", q, theta, sin_t.asin());
    }
    ensure!(rdq(&x)? == r, "the conversion changed the quaternion");
    Ok(())
}

fn c21(g: &mut G) -> R {
    match g.below(4) {
        0 => {
            // Another length, or not initialised: everything refused, nothing changed.
            g.nontrivial();
            let n = g.pick(&[0u8, 1, 2, 3]);
            let mut x: Vector<f32> = Vector::new();
            if n > 0 {
                let l: Vec<f32> = (0..n).map(|_| val(g)).collect();
                x = mkv(&l)?;
            }
            let s = snapv(&x);
            let u = mq(&unitq(g))?;
            let mut u2 = mq(&unitq(g))?;
            let s2 = snapv(&u2);
            let mut v3 = mkv(&[val(g), val(g), val(g)])?;
            let s3 = snapv(&v3);
            let dcm = mk(&M::eye(3))?;
            let ops: Vec<(&str, bool)> = vec![
                ("set_qw", x.set_qw(1.0).is_ok()),
                ("set_qx", x.set_qx(1.0).is_ok()),
                ("set_qy", x.set_qy(1.0).is_ok()),
                ("set_qz", x.set_qz(1.0).is_ok()),
                ("get_qw", x.get_qw().is_ok()),
                ("get_qx", x.get_qx().is_ok()),
                ("get_qy", x.get_qy().is_ok()),
                ("get_qz", x.get_qz().is_ok()),
                ("get_vector_part", x.get_vector_part().is_ok()),
                ("fillq", x.fillq(1.0, 2.0, 3.0, 4.0).is_ok()),
                ("fill_identity", Quaternion::fill_identity(&mut x).is_ok()),
                ("conjugate", x.conjugate().is_ok()),
                ("conjugate_new", x.conjugate_new().is_ok()),
                ("mul with wrong left operand", Quaternion::mul(&mut u2, &x, &u).is_ok()),
                ("mul with wrong right operand", Quaternion::mul(&mut u2, &u, &x).is_ok()),
                ("mul into wrong destination", Quaternion::mul(&mut x, &u, &u).is_ok()),
                ("mul_new by wrong operand", Quaternion::mul_new(&u, &x).is_ok()),
                ("mul_new of wrong operand", Quaternion::mul_new(&x, &u).is_ok()),
                ("invert", Quaternion::invert(&mut x).is_ok()),
                ("convert_to_dcm", x.convert_to_dcm().is_ok()),
                ("exp", x.exp().is_ok()),
                ("exp_new", x.exp_new().is_ok()),
                ("rotate", x.rotate(&v3).is_ok()),
                ("rotate_in_place", x.rotate_in_place(&mut v3).is_ok()),
                ("hughes", x.hughes(&dcm).is_ok()),
                ("chiaverini", x.chiaverini(&dcm).is_ok()),
                ("sarabandi", x.sarabandi(&dcm, None).is_ok()),
                ("convert_to_euler", x.convert_to_euler().is_ok()),
            ];
            for (name, ok) in ops {
                ensure!(!ok, "{} accepted a vector of length {}", name, n);
            }
            for (name, r) in [("is_real", x.is_real()), ("is_pure", x.is_pure()), ("is_versor", x.is_versor()), ("is_identity", x.is_identity())] {
                ensure!(!matches!(r, Ok(true)), "{} holds for a vector of length {}", name, n);
            }
            ensure!(!matches!(x.is_quaternion(), Ok(true)), "a vector of length {} is a quaternion", n);
            ensure!(snapv(&x) == s && snapv(&u2) == s2 && snapv(&v3) == s3, "a refused quaternion operation changed a vector of length {}", n);
            // A vector to turn that does not have three components, a matrix too small to be a rotation.
            if n != 3 {
                ensure!(u.rotate(&x).is_err() && u.rotate_in_place(&mut x).is_err(), "a vector of length {} was rotated", n);
                ensure!(u.rotate(&u2).is_err() && u.rotate_in_place(&mut u2).is_err(), "a vector of length 4 was rotated");
            }
            let (r, c) = (g.size(0, 3), g.size(0, 3));
            let small = if r == 0 || c == 0 { linalg::matrix::Matrix::new() } else { mk(&randm(g, r as usize, c as usize))? };
            if (r, c) != (3, 3) {
                ensure!(u2.hughes(&small).is_err() && u2.chiaverini(&small).is_err() && u2.sarabandi(&small, None).is_err(), "a rotation matrix of size {} x {} was accepted", r, c);
            }
            ensure!(snapv(&x) == s && snapv(&u2) == s2, "a refused rotation or conversion changed a vector");
        }
        1 | 2 => {
            // Classification.
            g.nontrivial();
            let below = |g: &mut G| g.pick(&[0.0, 1e-6, 2e-5, 5e-5]) * if g.bool() { -1.0 } else { 1.0 };
            let above = |g: &mut G| g.pick(&[1.6e-4, 1e-3, 0.1, 1.0, 30.0]) * if g.bool() { -1.0 } else { 1.0 };
            let small = [g.bool(), g.bool(), g.bool(), g.bool()];
            let mut q = [0f32; 4];
            let unit_case = g.chance(1, 3);
            if unit_case {
                let u = unitq(g);
                // Near one by a clear margin either way.
                let k = 1.0 + g.pick(&[0.0, 1e-6, 3e-5, -3e-5, 3e-4, -3e-4, 0.01, -0.01, 1.0, -0.5]);
                for i in 0..4 {
                    q[i] = (u[i] as f64 * k) as f32;
                }
                if g.chance(1, 3) {
                    let w = 1.0 + g.pick(&[0.0, 5e-5, -5e-5, 2e-4, -2e-4]);
                    q = [w as f32, below(g) as f32, below(g) as f32, below(g) as f32];
                    if g.chance(1, 4) {
                        q[0] = -q[0];
                    }
                    if g.chance(1, 3) {
                        q[1 + g.below(3) as usize] = above(g) as f32;
                    }
                }
            } else {
                for i in 0..4 {
                    q[i] = if small[i] { below(g) as f32 } else { above(g) as f32 };
                }
            }
            let r = q64(&q);
            g.note(|| format!("{:?}", q));
            let x = mq(&q)?;
            let s = snapv(&x);
            // Some(true): clearly, Some(false): clearly not, None: too close to call.
            let near = |v: f64| if v.abs() <= 0.6e-4 { Some(true) } else if v.abs() >= 1.5e-4 { Some(false) } else { None };
            let all = |v: &[Option<bool>]| if v.iter().any(|x| *x == Some(false)) { Some(false) } else if v.iter().all(|x| *x == Some(true)) { Some(true) } else { None };
            let vec0 = all(&[near(r[1]), near(r[2]), near(r[3])]);
            let w0 = near(r[0]);
            let real = vec0;
            let pure = w0;
            let n = norm(&r);
            let versor = near(n - 1.0);
            let ident = all(&[near(r[0] - 1.0), vec0]);
            ensure!(x.is_quaternion() == Ok(true), "{:?} is not a quaternion", q);
            for (name, got, want) in [("real", x.is_real(), real), ("pure", x.is_pure(), pure), ("unit", x.is_versor(), versor), ("identity", x.is_identity(), ident)] {
                if let Some(w) = want {
                    ensure!(got == Ok(w), "{:?} {} answered {:?}, expected {}", q, name, got, w);
                } else {
                    ensure!(got.is_ok(), "{:?} {} refused", q, name);
                }
            }
            ensure!(snapv(&x) == s, "a classification changed the quaternion");
        }
        _ => {
            // Component history.
            let mut m = [0f32; 4];
            let mut x: Vector<f32> = Vector::new();
            es(x.init(4), "init")?;
            let steps = 1 + g.below(10);
            if steps >= 3 {
                g.nontrivial();
            }
            for _ in 0..steps {
                let op = g.below(8);
                let v = if g.chance(1, 10) { nonfinite(g) } else { any_finite(g) };
                g.note(|| format!("op {} value {:?}", op, v));
                match op {
                    0..=3 => {
                        let r = match op {
                            0 => x.set_qw(v),
                            1 => x.set_qx(v),
                            2 => x.set_qy(v),
                            _ => x.set_qz(v),
                        };
                        ensure!(r.is_ok() == v.is_finite(), "setting component {} to {:?}: {:?}", op, v, r);
                        if v.is_finite() {
                            m[op as usize] = v;
                        }
                    }
                    4 | 5 => {
                        let mut n = [any_finite(g), any_finite(g), any_finite(g), any_finite(g)];
                        if !v.is_finite() {
                            n[g.below(4) as usize] = v;
                        }
                        let r = x.fillq(n[0], n[1], n[2], n[3]);
                        ensure!(r.is_ok() == v.is_finite(), "fillq({:?}): {:?}", n, r);
                        if v.is_finite() {
                            m = n;
                        }
                    }
                    6 => {
                        es(Quaternion::fill_identity(&mut x), "fill_identity")?;
                        m = [1.0, 0.0, 0.0, 0.0];
                    }
                    _ => {
                        let v = rdv(&es(x.get_vector_part(), "get_vector_part")?)?;
                        ensure!(v == m[1..], "vector part is {:?}, expected {:?}", v, &m[1..]);
                    }
                }
                let got = [es(x.get_qw(), "get_qw")?, es(x.get_qx(), "get_qx")?, es(x.get_qy(), "get_qy")?, es(x.get_qz(), "get_qz")?];
                ensure!(got == m, "components are {:?}, expected {:?}", got, m);
                ensure!(rdv(&x)? == m, "elements are {:?}, expected {:?}", rdv(&x)?, m);
            }
        }
    }
    Ok(())
}
