//! C42-C46: filters over whole trajectories, the role of the magnetometer, independence of instances and of the past, measurements without a direction.
use super::filters::*;
use super::sensors::*;
use crate::engine::{Prop, G, R};
use crate::gen::*;
use crate::refm::*;
use crate::{ensure, within};
use linalg::linalg::{eigen, lup, solve};
use linalg::matrix::Matrix;
use linalg::vector::Vector;
use open_ahrs::ar::AR;
use open_ahrs::aqua::Aqua;
use quaternion::quaternion::Quaternion;
use std::f64::consts::PI;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C42",
        quick: 600_000,
        thorough: 6_000_000,
        rule: "the device turns between the updates",
        assumptions: &[
            "rates and measurements follow the convention of the repository's measurement generator",
            "measurements are free of noise; the device turns at most 0.15 rad per update; the gain of the field is at most that of the acceleration (twice that when converging); the field dips at most 60 degrees",
        ],
        run: c42,
    });
    v.push(Prop {
        id: "C43",
        quick: 3_000_000,
        thorough: 30_000_000,
        rule: "the field readings given to the two filters differ",
        assumptions: &["pairs in which one of the two updates is refused are ended", "several consecutive updates are compared only at rest or without a gyrometer"],
        run: c43,
    });
    v.push(Prop {
        id: "C44",
        quick: 900_000,
        thorough: 9_000_000,
        rule: "at least two objects with at least two operations each, interleaved",
        assumptions: &["one thread at a time, except in one case of 200 where every object has a thread of its own"],
        run: c44,
    });
    v.push(Prop {
        id: "C45",
        quick: 3_000_000,
        thorough: 30_000_000,
        rule: "the past has at least three updates",
        assumptions: &["a long past repeats a pattern of up to eight updates", "the sensors' configurations are the same in the past and afterwards, or set again"],
        run: c45,
    });
    v.push(Prop {
        id: "C46",
        quick: 3_000_000,
        thorough: 30_000_000,
        rule: "at least one update whose corrected acceleration or field is zero within half a tolerance",
        assumptions: &["magnitudes between half and one and a half tolerances are not generated", "fields within 3 degrees of the vertical are not judged"],
        run: c46,
    });
}

const ZERO: [f32; 3] = [0.0; 3];

/// Angle of the rotation between two unit quaternions.
fn apart(a: &Q, b: &Q) -> f64 {
    let r = qmul(&qconj(&qunit(a)), &qunit(b));
    2.0 * norm(&r[1..]).atan2(r[0].abs())
}

fn c42(g: &mut G) -> R {
    let marg = !g.chance(1, 6);
    let mut truth = q64(&unitq(g));
    let dip = if g.bool() { 1.0 } else { g.uniform(-60.0, 60.0) * PI / 180.0 };
    let follow = g.bool();
    let dip: f64 = if follow { dip } else { dip * 0.7 };
    let (ga, gb) = (strength(g), strength(g));
    let north = [dip.cos(), 0.0, -dip.sin()];
    // Start: the true attitude or one away from it.
    let mut start = truth;
    if !follow {
        let t = g.uniform(0.0, 2.0 * PI);
        let tilt = g.uniform(0.0, 60.0 * PI / 180.0);
        let head = g.uniform(-PI, PI);
        start = qmul(&qmul(&truth, &axang(&[0.0, 0.0, 1.0], head)), &axang(&[t.cos(), t.sin(), 0.0], tilt));
    }
    let q0 = roundq(&qunit(&start));
    let mut p = P::plain(marg, &q0);
    if follow {
        // The heading correction rests on the tilt: it is not the stronger one.
        p.beta = gain(g);
        p.alpha = gain(g).max(p.beta);
    } else {
        p.alpha = g.uniform(0.1, 1.0) as f32;
        p.beta = (g.uniform(0.1, 1.0) as f32).min(p.alpha * 2.0);
    }
    p.ta = thr(g);
    p.tm = thr(g);
    p.ts = if g.bool() { 0.01 } else { logmag(g, 1e-5, 10.0) as f32 };
    if g.chance(1, 4) {
        p.adaptive = true;
        p.g = Some(ga as f32);
    }
    let top = g.pick(&[1e-4, 1e-3, 1e-2, 0.05, 0.15]);
    let wander = g.below(3);
    let slow = p.alpha.min(p.beta) as f64;
    let n = if !marg {
        1 + g.below(10)
    } else if follow {
        if g.chance(1, 30) { 400 } else { 1 + g.below(40) }
    } else {
        (30.0 / slow) as u32 + 10
    };
    g.note(|| format!("{:?} gravity {:e} field {:e} dip {} largest step {} kind {}", p, ga, gb, dip, top, wander));
    let mut f = p.make()?;
    let mut axis = dir3(g);
    let mut size = top * g.unit();
    let mut bound = 0.0;
    let mut worst: f64 = 0.0;
    for k in 0..n {
        match wander {
            0 => {}
            1 => {
                // Turning smoothly.
                let d = dir3(g);
                axis = unit3(&[axis[0] + 0.1 * d[0], axis[1] + 0.1 * d[1], axis[2] + 0.1 * d[2]]);
            }
            _ => {
                axis = dir3(g);
                size = top * g.unit();
            }
        }
        let w = f3(&axis, size / p.ts as f64);
        let th = norm(&d3(&w)) * p.ts as f64;
        if th > 1e-6 {
            g.nontrivial();
        }
        worst = worst.max(th);
        truth = qunit(&qmul(&truth, &qstep(&d3(&w), p.ts as f64)));
        let a = f3(&qrot(&truth, &[0.0, 0.0, -1.0]), ga);
        let m = f3(&qrot(&truth, &north), gb);
        let before = att_aq(&f)?;
        let r = upd(&mut f, marg, &w, &a, &m);
        if !follow && marg {
            let l = qrot(&qconj(&before), &unit3(&d3(&m)));
            if l[0].hypot(l[1]) < 0.2 {
                // The field is close to vertical as seen from the present attitude.
                return Ok(());
            }
        }
        es(r, "update")?;
        let q = att_aq(&f)?;
        if !marg {
            let d = apart(&q, &truth);
            within!(d, 2e-6 / north[0], "update {} without a gyrometer gives {}, the device is at {}", k, qshow(&q), qshow(&truth));
            continue;
        }
        if follow {
            bound += th * th * th / 12.0 + 2e-6;
            let d = apart(&q, &truth);
            within!(d, bound * (1.0 + 1.0 / north[0]), "after {} updates along the true motion the attitude is {}, the device is at {} ({:e} apart, steps up to {} rad)", k + 1, qshow(&q), qshow(&truth), d, worst);
        }
    }
    if marg && !follow {
        let q = att_aq(&f)?;
        let d = apart(&q, &truth);
        let tol = 2e-4 + 2.0 * (1.0 + 1.0 / north[0]) * (worst.powi(3) / 12.0) / slow;
        within!(d, tol, "after {} updates the attitude is {}, the device is at {} ({:e} apart)", n, qshow(&q), qshow(&truth), d);
    }
    Ok(())
}

fn c43(g: &mut G) -> R {
    let marg = !g.chance(1, 4);
    let q0 = unitq(g);
    let mut p = P::plain(marg, &q0);
    p.alpha = gain(g);
    p.beta = gain(g);
    p.ta = thr(g);
    p.tm = thr(g);
    p.ts = if g.bool() { 0.01 } else { logmag(g, 1e-4, 1.0) as f32 };
    p.adaptive = g.chance(1, 3);
    let mut p2 = p.clone();
    if g.bool() {
        p2.beta = gain(g);
        p2.tm = thr(g);
    }
    if g.chance(1, 4) {
        p2.mag = mild(g);
    }
    let still = g.bool();
    g.note(|| format!("{:?} and gain {} threshold {} calibration {:?}", p, p2.beta, p2.tm, p2.mag));
    let (mut f, mut h) = (p.make()?, p2.make()?);
    let n = if still || !marg { 1 + g.below(6) } else { 1 };
    for k in 0..n {
        let w = if still { ZERO } else { rate(g, 0.3 / p.ts as f64) };
        let s = if g.bool() { 9.81 } else { strength(g) };
        let ad = dir3(g);
        let a = f3(&ad, s);
        let m1 = f3(&field(g, &ad, 0.05), strength(g));
        let m2 = if g.chance(1, 4) { [m1[0] * 2.0, m1[1] * 2.0, m1[2] * 2.0] } else { f3(&field(g, &ad, 0.05), strength(g)) };
        if m1 != m2 {
            g.nontrivial();
        }
        g.note(|| format!("rate {:?} acceleration {:?} fields {:?} {:?}", w, a, m1, m2));
        let lean = angle3(&qrot(&qconj(&qunit(&att_aq(&f)?)), &ad), &[0.0, 0.0, -1.0]);
        if k > 0 && marg && (lean > 85.0 * PI / 180.0 || ((lean / 2.0).cos() - p.ta as f64).abs() < 1e-4) {
            // Beyond the horizontal the correction is not the shortest turn and depends on the heading.
            return Ok(());
        }
        let (r1, r2) = (upd(&mut f, marg, &w, &a, &m1), upd(&mut h, marg, &w, &a, &m2));
        if r1.is_err() || r2.is_err() {
            return Ok(());
        }
        let (q1, q2) = (qunit(&att_aq(&f)?), qunit(&att_aq(&h)?));
        let (v1, v2) = (qrot(&q1, &[0.0, 0.0, 1.0]), qrot(&q2, &[0.0, 0.0, 1.0]));
        within!(angle3(&v1, &v2), 2e-6 * (k + 1) as f64, "update {}: the vertical is {:?} with one field and {:?} with the other ({} and {})", k, v1, v2, qshow(&q1), qshow(&q2));
    }
    Ok(())
}

/// Result of one operation, in bits.
type Out = Vec<u32>;

fn outv(v: &Vector<f32>, o: &mut Out) {
    let s = snapv(v);
    if let Some((n, b)) = s {
        o.push(n as u32);
        o.extend(b);
    }
}
fn outm(v: &Matrix, o: &mut Out) {
    if let Some((r, c, b)) = snapm(v) {
        o.push(r as u32);
        o.push(c as u32);
        o.extend(b);
    }
}

/// Everything one object goes through.
#[derive(Clone, Debug)]
enum Life {
    Ar([f32; 4], Cfg, f32, u32, u8, Vec<[f32; 3]>),
    Aqua(P, Vec<[[f32; 3]; 3]>),
    Sensor(u32, Cfg, Vec<[f32; 3]>),
    Mat(M, Vec<f32>, Vec<u32>),
    Quat([f32; 4], [f32; 4], Vec<u32>),
}
impl Life {
    fn steps(&self) -> usize {
        match self {
            Life::Ar(.., v) | Life::Sensor(.., v) => v.len(),
            Life::Aqua(_, v) => v.len(),
            Life::Mat(.., v) | Life::Quat(.., v) => v.len(),
        }
    }
    fn born(&self) -> Result<Obj, String> {
        Ok(match self {
            Life::Ar(q, c, ts, m, o, _) => Obj::Ar(new_ar(q, c, *ts, nim(*m), *o)?),
            Life::Aqua(p, _) => Obj::Aqua(p.make()?),
            Life::Sensor(k, c, _) => {
                let mut s = Sensor::new(*k)?;
                ensure!(s.init(c), "sensor init");
                Obj::Sensor(s)
            }
            Life::Mat(m, ..) => Obj::Mat(mk(m)?),
            Life::Quat(a, b, _) => Obj::Quat(mkv(a)?, mkv(b)?),
        })
    }
    fn step(&self, o: &mut Obj, k: usize) -> Result<Out, String> {
        let mut out = Vec::new();
        match (self, o) {
            (Life::Ar(.., v), Obj::Ar(f)) => {
                out.push(f.update(v[k][0], v[k][1], v[k][2]).is_ok() as u32);
                outv(&es(f.get_attitude(), "get_attitude")?, &mut out);
            }
            (Life::Aqua(p, v), Obj::Aqua(f)) => {
                out.push(upd(f, p.marg, &v[k][0], &v[k][1], &v[k][2]).is_ok() as u32);
                outv(&es(f.get_attitude(), "get_attitude")?, &mut out);
            }
            (Life::Sensor(.., v), Obj::Sensor(s)) => {
                out.push(s.update(&v[k]) as u32);
                for x in s.read() {
                    out.push(x.map_or(7, |x| x.to_bits()));
                }
            }
            (Life::Mat(_, b, v), Obj::Mat(m)) => pure_m(m, b, v[k], &mut out)?,
            (Life::Quat(.., v), Obj::Quat(a, b)) => pure_q(a, b, v[k], &mut out)?,
            _ => return Err("mismatched object".into()),
        }
        Ok(out)
    }
}
enum Obj {
    Ar(AR),
    Aqua(Aqua),
    Sensor(Sensor),
    Mat(Matrix),
    Quat(Vector<f32>, Vector<f32>),
}

fn res<T, E>(r: Result<T, E>, o: &mut Out) -> Option<T> {
    o.push(r.is_ok() as u32);
    r.ok()
}

fn num<E>(r: Result<u32, E>, o: &mut Out) {
    let x = res(r, o);
    o.extend(x);
}

fn pure_m(m: &Matrix, b: &[f32], op: u32, o: &mut Out) -> R {
    match op {
        0 => num(m.det().map(f32::to_bits), o),
        1 => {
            let mut x = es(m.duplicate(), "duplicate")?;
            let _ = res(x.invert(), o);
            outm(&x, o);
        }
        2 => {
            if let Some((q, r)) = res(m.qr_decomp(), o) {
                outm(&q, o);
                outm(&r, o);
            }
        }
        3 => {
            if let Some((l, x)) = res(eigen(m, 30, true), o) {
                outv(&l, o);
                outm(&x, o);
            }
        }
        4 => {
            if let Some((lu, p)) = res(lup(m), o) {
                outm(&lu, o);
                if let Some(x) = res(solve(&lu, &mkv(b)?, &p), o) {
                    outv(&x, o);
                }
            }
        }
        5 => {
            if let Some(c) = res(m.chol(), o) {
                outm(&c, o);
            }
        }
        6 => {
            if let Some(c) = res(m.log(), o) {
                outm(&c, o);
            }
        }
        7 => {
            if let Some((l, u)) = res(m.lu_crout(), o) {
                outm(&l, o);
                outm(&u, o);
            }
        }
        8 => {
            if let Some(x) = res(m.mul_new(m), o) {
                outm(&x, o);
            }
        }
        9 => {
            let mut x = es(m.duplicate(), "duplicate")?;
            let _ = res(x.transpose(), o);
            let _ = res(x.power_elements(3.0), o);
            outm(&x, o);
        }
        10 => {
            if let Some(x) = res(m.transpose_new(), o) {
                outm(&x, o);
            }
        }
        _ => {
            num(m.is_orthogonal().map(|b| b as u32), o);
            num(m.is_symmetric().map(|b| b as u32), o);
            num(m.calculate_frobenius_norm().map(f32::to_bits), o);
        }
    }
    Ok(())
}

fn pure_q(a: &Vector<f32>, b: &Vector<f32>, op: u32, o: &mut Out) -> R {
    match op {
        0 => {
            if let Some(x) = res(Quaternion::mul_new(a, b), o) {
                outv(&x, o);
            }
        }
        1 => {
            if let Some(x) = res(Quaternion::exp_new(a), o) {
                outv(&x, o);
            }
        }
        2 => {
            if let Some(d) = res(a.convert_to_dcm(), o) {
                outm(&d, o);
                let mut x = mkv(&[0.0; 4])?;
                let _ = res(x.hughes(&d), o);
                outv(&x, o);
                let _ = res(x.chiaverini(&d), o);
                outv(&x, o);
                let _ = res(x.sarabandi(&d, None), o);
                outv(&x, o);
            }
        }
        3 => {
            if let Some((r, p, y)) = res(a.convert_to_euler(), o) {
                o.extend([r.to_bits(), p.to_bits(), y.to_bits()]);
            }
        }
        4 => {
            let mut x = es(a.duplicate(), "duplicate")?;
            let _ = res(Quaternion::invert(&mut x), o);
            outv(&x, o);
        }
        5 => {
            let mut x = es(a.duplicate(), "duplicate")?;
            let _ = res(x.normalize(), o);
            outv(&x, o);
        }
        _ => {
            let v = mkv(&[1.0, -2.0, 0.5])?;
            if let Some(x) = res(a.rotate(&v), o) {
                outv(&x, o);
            }
        }
    }
    Ok(())
}

fn life(g: &mut G) -> Life {
    let n = 1 + g.below(6) as usize;
    match g.below(5) {
        0 => {
            let (q, c) = (unitq(g), if g.bool() { PLAIN } else { mild(g) });
            let ts = g.pick(&[0.01, 0.1, 1.0]);
            let (m, o) = (g.below(3), g.below(6) as u8);
            Life::Ar(q, c, ts, m, o, (0..n).map(|_| rate(g, 20.0)).collect())
        }
        1 => {
            let mut p = P::plain(g.bool(), &unitq(g));
            p.alpha = gain(g);
            p.beta = gain(g);
            p.ta = thr(g);
            p.tm = thr(g);
            p.adaptive = g.bool();
            if p.marg && g.bool() {
                p.gyr = Some(mild(g));
            }
            let s = (0..n)
                .map(|_| {
                    let ad = dir3(g);
                    [rate(g, 20.0), f3(&ad, g.pick(&[9.81, 8.5, 12.0, 1.0])), f3(&field(g, &ad, 0.05), 50.0)]
                })
                .collect();
            Life::Aqua(p, s)
        }
        2 => {
            let (k, c) = (g.below(3), cfg(g));
            Life::Sensor(k, c, (0..n).map(|_| [val(g), val(g), val(g)]).collect())
        }
        3 => {
            let s = 1 + g.below(4) as usize;
            let mut m = if g.chance(1, 4) { singular(g, s) } else { well_conditioned(g, s, 0.05, 20.0) };
            m.round32();
            let b = (0..s).map(|_| val(g)).collect();
            Life::Mat(m, b, (0..n).map(|_| g.below(12)).collect())
        }
        _ => {
            let (a, b) = (unitq(g), unitq(g));
            Life::Quat(a, b, (0..n).map(|_| g.below(7)).collect())
        }
    }
}

fn alone(l: &Life) -> Result<Vec<Out>, String> {
    let mut o = l.born()?;
    (0..l.steps()).map(|k| l.step(&mut o, k)).collect()
}

fn c44(g: &mut G) -> R {
    let n = 2 + g.below(3) as usize;
    let first = life(g);
    // Often several objects of the same kind, also equal ones.
    let mut lives = vec![first];
    for _ in 1..n {
        lives.push(if g.chance(1, 5) { lives[0].clone() } else { life(g) });
    }
    for l in &lives {
        g.note(|| format!("{:?}", l));
    }
    if lives.iter().filter(|l| l.steps() >= 2).count() >= 2 {
        g.nontrivial();
    }
    let solo: Vec<Vec<Out>> = lives.iter().map(alone).collect::<Result<_, _>>()?;
    if g.chance(1, 200) {
        g.class("one thread each");
        let got: Vec<Result<Vec<Out>, String>> = std::thread::scope(|s| {
            let h: Vec<_> = lives.iter().map(|l| s.spawn(move || alone(l))).collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect()
        });
        for (i, r) in got.into_iter().enumerate() {
            let r = r?;
            ensure!(r == solo[i], "in a thread beside others {:?} gave {:?}, alone {:?}", lives[i], r, solo[i]);
        }
        return Ok(());
    }
    let mut objs: Vec<Option<Obj>> = lives.iter().map(|_| None).collect();
    let mut at = vec![0; n];
    loop {
        let open: Vec<usize> = (0..n).filter(|&i| at[i] < lives[i].steps()).collect();
        if open.is_empty() {
            return Ok(());
        }
        let i = open[g.below(open.len() as u32) as usize];
        if objs[i].is_none() {
            objs[i] = Some(lives[i].born()?);
        }
        if let Some(o) = objs[i].as_mut() {
            let r = lives[i].step(o, at[i])?;
            ensure!(r == solo[i][at[i]], "operation {} of object {} gave {:?} between operations of others and {:?} alone ({:?})", at[i], i, r, solo[i][at[i]], lives[i]);
        }
        at[i] += 1;
    }
}

/// Length of a past: mostly short, sometimes past the range of a byte or of two.
fn past(g: &mut G) -> u32 {
    if g.chance(1, 10_000) {
        g.class("more than 65,536 updates");
        65_500 + g.below(200)
    } else if g.chance(1, 200) {
        g.class("more than 250 updates");
        250 + g.below(300)
    } else {
        1 + g.below(12)
    }
}

fn f3q(a: &[f64; 4]) -> [f32; 4] {
    [a[0] as f32, a[1] as f32, a[2] as f32, a[3] as f32]
}

fn c45(g: &mut G) -> R {
    let n = past(g);
    if n >= 3 {
        g.nontrivial();
    }
    let m = 1 + g.below(8) as usize;
    match g.below(4) {
        0 => {
            let (q, c) = (unitq(g), if g.bool() { PLAIN } else { mild(g) });
            let ts = if g.bool() { 0.01 } else { logmag(g, 1e-4, 1.0) as f32 };
            let (k, o) = (g.below(3), g.below(8) as u8);
            let mut f = new_ar(&q, &c, ts, nim(k), o)?;
            let pat: Vec<[f32; 3]> = (0..m).map(|_| if g.chance(1, 5) { meas(g, 3.0) } else { rate(g, 20.0) }).collect();
            g.note(|| format!("{:?} order {} ts {:?} from {:?} calibration {:?}: {} updates of {:?}", nim(k), o, ts, q, c, n, pat));
            let mut shadow: Option<AR> = None;
            for i in 0..n as usize {
                let w = &pat[i % m];
                // Long pasts are compared all the way, against a filter renewed every sixteen updates.
                if n > 12 && i % 16 == 0 {
                    let a = att_ar(&f)?;
                    shadow = Some(new_ar(&f3q(&a), &c, ts, nim(k), o)?);
                }
                let r1 = f.update(w[0], w[1], w[2]);
                if let Some(h) = shadow.as_mut() {
                    let r2 = h.update(w[0], w[1], w[2]);
                    let (x, y) = (att_ar(&f)?, att_ar(h)?);
                    ensure!(r1.is_ok() == r2.is_ok(), "update {} by {:?} gives {:?}, in a new filter at the same attitude {:?}", i + 1, w, r1, r2);
                    within!(qdist(&x, &y), 1e-5, "update {} by {:?} leads to {}, in a new filter at the same attitude to {}", i + 1, w, qshow(&x), qshow(&y));
                }
            }
            let a = es(rdv(&es(f.get_attitude(), "get_attitude")?), "attitude")?;
            let mut h = new_ar(&[a[0], a[1], a[2], a[3]], &c, ts, nim(k), o)?;
            for i in 0..1 + g.below(4) {
                let w = if i > 0 && g.chance(1, 5) { meas(g, 3.0) } else { rate(g, 20.0) };
                let (r1, r2) = (f.update(w[0], w[1], w[2]), h.update(w[0], w[1], w[2]));
                let (x, y) = (att_ar(&f)?, att_ar(&h)?);
                ensure!(r1.is_ok() == r2.is_ok(), "after {} updates a rate {:?} gives {:?}, in a new filter at the same attitude {:?}", n, w, r1, r2);
                within!(qdist(&x, &y), 1e-5, "after {} updates a rate {:?} leads to {}, in a new filter at the same attitude to {}", n, w, qshow(&x), qshow(&y));
            }
        }
        1 | 2 => {
            let mut p = P::plain(!g.chance(1, 4), &unitq(g));
            p.alpha = gain(g);
            p.beta = gain(g);
            p.ta = thr(g);
            p.tm = thr(g);
            p.adaptive = g.bool();
            if g.chance(1, 3) {
                p.acc = mild(g);
                p.mag = mild(g);
                if p.marg {
                    p.gyr = Some(mild(g));
                }
            }
            let step = |g: &mut G| {
                if g.chance(1, 6) {
                    return [meas(g, 3.0), meas(g, 9.81), meas(g, 48.0)];
                }
                let ad = dir3(g);
                let s = if g.chance(1, 4) { strength(g) } else { g.pick(&[9.81, 10.5, 11.0, 11.5, 8.3]) };
                [rate(g, 20.0), f3(&ad, s), f3(&field(g, &ad, 0.05), 50.0)]
            };
            let pat: Vec<[[f32; 3]; 3]> = (0..m).map(|_| step(g)).collect();
            g.note(|| format!("{:?}: {} updates of {:?}", p, n, pat));
            let mut f = p.make()?;
            let mut shadow: Option<Aqua> = None;
            for i in 0..n as usize {
                let w = &pat[i % m];
                if n > 12 && i % 16 == 0 {
                    let a = f3q(&att_aq(&f)?);
                    let mut p2 = p.clone();
                    p2.q = [Some(a[0]), Some(a[1]), Some(a[2]), Some(a[3])];
                    shadow = Some(p2.make()?);
                }
                let r1 = upd(&mut f, p.marg, &w[0], &w[1], &w[2]);
                if let Some(h) = shadow.as_mut() {
                    let r2 = upd(h, p.marg, &w[0], &w[1], &w[2]);
                    let (x, y) = (att_aq(&f)?, att_aq(h)?);
                    ensure!(r1.is_ok() == r2.is_ok(), "update {} by {:?} gives {:?}, in a new filter at the same attitude {:?}", i + 1, w, r1, r2);
                    within!(qdist(&x, &y), 1e-5, "update {} by {:?} leads to {}, in a new filter at the same attitude to {}", i + 1, w, qshow(&x), qshow(&y));
                }
            }
            let a = es(rdv(&es(f.get_attitude(), "get_attitude")?), "attitude")?;
            let mut p2 = p.clone();
            p2.q = [Some(a[0]), Some(a[1]), Some(a[2]), Some(a[3])];
            let mut h = p2.make()?;
            for _ in 0..1 + g.below(4) {
                let w = step(g);
                g.note(|| format!("then {:?}", w));
                let (r1, r2) = (upd(&mut f, p.marg, &w[0], &w[1], &w[2]), upd(&mut h, p.marg, &w[0], &w[1], &w[2]));
                let (x, y) = (att_aq(&f)?, att_aq(&h)?);
                ensure!(r1.is_ok() == r2.is_ok(), "after {} updates {:?} gives {:?}, in a new filter at the same attitude {:?}", n, w, r1, r2);
                within!(qdist(&x, &y), 1e-5, "after {} updates {:?} leads to {}, in a new filter at the same attitude to {}", n, w, qshow(&x), qshow(&y));
            }
        }
        _ => {
            let k = g.below(3);
            let mut s = Sensor::new(k)?;
            let mut c = cfg(g);
            ensure!(s.init(&c), "sensor refused {:?}", c);
            let pat: Vec<[f32; 3]> = (0..m).map(|_| if g.chance(1, 5) { meas(g, 50.0) } else { [val(g), val(g), val(g)] }).collect();
            let other = cfg(g);
            let swap = 1 + g.below(20) as usize;
            g.note(|| format!("sensor {} {:?}: {} updates of {:?}, configuration {:?} at every {}", k, c, n, pat, other, swap));
            let mut shadow: Option<Sensor> = None;
            let mut now = c;
            for i in 0..n as usize {
                if n > 12 && i % swap == 1 % swap {
                    let mut h = Sensor::new(k)?;
                    ensure!(h.init(&now), "sensor refused {:?}", now);
                    shadow = Some(h);
                }
                let r1 = s.update(&pat[i % m]);
                if let Some(h) = shadow.as_mut() {
                    let r2 = h.update(&pat[i % m]);
                    let (x, y) = (s.read(), h.read());
                    ensure!(r1 == r2, "update {} with {:?} accepted: {}, by a new sensor: {}", i + 1, pat[i % m], r1, r2);
                    ensure!(!r1 || x == y, "update {} with {:?} reads {:?}, from a new sensor {:?}", i + 1, pat[i % m], x, y);
                }
                if i % (2 * swap) == swap {
                    s.set(&other);
                    now = other;
                } else if i % (2 * swap) == 0 {
                    s.set(&c);
                    now = c;
                }
            }
            if g.bool() {
                c = other;
            }
            ensure!(s.set(&c), "sensor refused {:?}", c);
            let mut h = Sensor::new(k)?;
            ensure!(h.init(&c), "sensor refused {:?}", c);
            for _ in 0..1 + g.below(4) {
                let r = [val(g), val(g), val(g)];
                let (r1, r2) = (s.update(&r), h.update(&r));
                ensure!(r1 == r2, "after {} updates a reading {:?} accepted: {}, by a new sensor: {}", n, r, r1, r2);
                let (x, y) = (s.read(), h.read());
                ensure!(!r1 || x == y, "after {} updates a reading {:?} is {:?}, from a new sensor {:?}", n, r, x, y);
            }
        }
    }
    Ok(())
}

/// Measurements without a direction correct nothing.
fn c46(g: &mut G) -> R {
    let marg = g.chance(2, 3);
    let mut p = P::plain(marg, &unitq(g));
    p.alpha = gain(g);
    p.beta = gain(g);
    p.ta = thr(g);
    p.tm = thr(g);
    p.ts = if g.bool() { 0.01 } else { logmag(g, 1e-4, 1.0) as f32 };
    p.adaptive = g.chance(1, 3);
    if p.adaptive && g.bool() {
        // Thresholds so wide that no acceleration at all is within them.
        p.t1 = g.pick(&[0.0, 0.5, 1.0, 3.0]);
        p.t2 = p.t1 + g.pick(&[0.5, 1.5, 4.0]);
    }
    // The zero may be that of the readings or of the corrected readings.
    let biased = g.chance(1, 3);
    if biased {
        for k in 9..12 {
            p.acc[k] = g.uniform(-10.0, 10.0) as f32;
            p.mag[k] = g.uniform(-50.0, 50.0) as f32;
        }
    }
    let mut f = p.make()?;
    g.note(|| format!("{:?}", p));
    let with_bias = |c: &Cfg, v: [f32; 3]| [v[0] + c[9], v[1] + c[10], v[2] + c[11]];
    let none = |g: &mut G| match if biased { 0 } else { g.below(3) } {
        0 => ZERO,
        _ => f3(&dir3(g), g.pick(&[1e-7, 1e-6, 1e-5, 5e-5])),
    };
    for _ in 0..1 + g.below(6) {
        let (no_a, no_m) = g.pick(&[(true, false), (true, false), (true, false), (false, true), (true, true), (false, false)]);
        let ad = dir3(g);
        let a = if no_a { none(g) } else { f3(&ad, 9.81) };
        let m = if no_m { none(g) } else { f3(&field(g, &ad, 0.1), 50.0) };
        let w = if g.chance(1, 3) { ZERO } else { rate(g, 20.0) };
        if no_a || no_m {
            g.nontrivial();
        }
        let before = att_aq(&f)?;
        let r = upd(&mut f, marg, &w, &with_bias(&p.acc, a), &with_bias(&p.mag, m));
        let q = att_aq(&f)?;
        g.note(|| format!("rate {:?} acceleration {:?} field {:?}: {:?} -> {}", w, a, m, r, qshow(&q)));
        if !no_a && !no_m {
            continue;
        }
        if r.is_err() {
            g.class("refused");
            ensure!(q == before, "a refused update moved the attitude from {} to {}", qshow(&before), qshow(&q));
            continue;
        }
        g.class("accepted");
        if !marg {
            ensure!(qdist_pm(&q, &before) < 1e-6, "without {} the attitude went from {} to {}", if no_a { "an acceleration" } else { "a field" }, qshow(&before), qshow(&q));
            continue;
        }
        let pr = predict_ref(&before, &d3(&w), p.ts as f64);
        // The strength of an ordinary acceleration is that of gravity, so its gain is the configured one.
        let tilted = if no_a { Some(pr) } else { tilt_ref(&pr, &d3(&a), p.alpha as f64, p.ta as f64) };
        let want = match tilted {
            Some(t) if no_m => Some(t),
            Some(t) => heading_ref(&t, &d3(&m), p.beta as f64, p.tm as f64),
            None => None,
        };
        if let Some(want) = want {
            within!(qdist_pm(&q, &want), 1.2e-5, "rate {:?}, acceleration {:?}, field {:?}: the attitude went from {} to {}, expected {}", w, a, m, qshow(&before), qshow(&q), qshow(&want));
        }
    }
    Ok(())
}
