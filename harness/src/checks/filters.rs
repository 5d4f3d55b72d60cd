//! C24-C32: the attitude filters.
use super::sensors::*;
use crate::engine::{Prop, G, R};
use crate::{ensure, within};
use crate::gen::*;
use crate::refm::*;
use open_ahrs::aqua::{Aqua, Mode};
use open_ahrs::ar::AR;
use open_ahrs::common::{NumericalIntegrationMethod as Nim, OpenAHRSError};
use open_ahrs::davenport::Davenport;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C24",
        quick: 2_160_000,
        thorough: 21_600_000,
        rule: "at least two updates with a rate above the tolerance",
        assumptions: &["rates within 10% of the tolerance are not generated", "the initial attitude is a unit quaternion"],
        run: c24,
    });
    v.push(Prop {
        id: "C25",
        quick: 3_600_000,
        thorough: 36_000_000,
        rule: "at least one update with a rate above the tolerance",
        assumptions: &["the truncation bound is only compared while it is below one half", "half the rotation per update is at most 2 rad"],
        run: c25,
    });
    v.push(Prop {
        id: "C26",
        quick: 5_400_000,
        thorough: 54_000_000,
        rule: "the history has at least three updates",
        assumptions: &["the initial attitude is a unit quaternion"],
        run: c26,
    });
    v.push(Prop {
        id: "C27",
        quick: 3_600_000,
        thorough: 36_000_000,
        rule: "an initialisation was attempted and refused, or repeated after an accepted one",
        assumptions: &["a filter given only the valid initialisation is the oracle"],
        run: c27,
    });
    v.push(Prop {
        id: "C28",
        quick: 5_400_000,
        thorough: 54_000_000,
        rule: "always (every case has a determined attitude)",
        assumptions: &["acceleration and field are at least 0.2 degrees from parallel and have magnitudes from 2e-4 to 1e15"],
        run: c28,
    });
    v.push(Prop {
        id: "C29",
        quick: 5_400_000,
        thorough: 54_000_000,
        rule: "the case is not within rounding of a branch of the method (horizontal predicted gravity, interpolation threshold, field opposite or vertical)",
        assumptions: &["published two-step formulation with single-precision rounding"],
        run: c29,
    });
    v.push(Prop {
        id: "C30",
        quick: 432_000,
        thorough: 4_320_000,
        rule: "the initial attitude differs from the measured one",
        assumptions: &["gains at least 0.05; the tilt error is only claimed to fall steadily once below 86 degrees", "histories in which the field becomes vertical are ended early"],
        run: c30,
    });
    v.push(Prop {
        id: "C31",
        quick: 2_160_000,
        thorough: 21_600_000,
        rule: "at least two updates with different acceleration magnitudes, or invalid thresholds",
        assumptions: &["thresholds at least 0.05 apart when valid", "cases within rounding of a branch of the method are ended early"],
        run: c31,
    });
    v.push(Prop {
        id: "C32",
        quick: 2_160_000,
        thorough: 21_600_000,
        rule: "a calibration differs from the transparent one",
        assumptions: &["corrected acceleration and field at least 10 degrees from parallel", "cases within rounding of a branch of the method are ended early"],
        run: c32,
    });
}

pub(super) fn att_ar(f: &AR) -> Result<Q, String> {
    rdq(&es(f.get_attitude(), "AR get_attitude")?)
}
pub(super) fn att_aq(f: &Aqua) -> Result<Q, String> {
    rdq(&es(f.get_attitude(), "Aqua get_attitude")?)
}

pub fn nim(k: u32) -> Nim {
    match k {
        0 => Nim::ClosedForm,
        1 => Nim::TaylorSeries,
        2 => Nim::Euler,
        3 => Nim::AdamsBashforth,
        _ => Nim::RungeKutta,
    }
}

pub(super) fn new_ar(q: &[f32; 4], c: &Cfg, ts: f32, m: Nim, order: u8) -> Result<AR, String> {
    let mut f = es(AR::new(), "AR::new")?;
    es(f.init(q[0], q[1], q[2], q[3], &gyr_cfg(c), ts, m, order), "AR init")?;
    Ok(f)
}

/// Rate whose magnitude is clearly above or clearly below the tolerance (or zero).
pub(super) fn rate(g: &mut G, top: f64) -> [f32; 3] {
    let d = dir3(g);
    let m = match g.below(6) {
        0 => 0.0,
        1 => TOL * g.pick(&[0.1, 0.5, 0.85]),
        2 => TOL * g.pick(&[1.2, 2.0, 10.0]),
        3 => 1.0,
        _ => logmag(g, 1e-2, top),
    };
    [(d[0] * m) as f32, (d[1] * m) as f32, (d[2] * m) as f32]
}

fn c24(g: &mut G) -> R {
    let q0 = unitq(g);
    let ts = match g.below(3) {
        0 => 0.01,
        1 => 1.0,
        _ => logmag(g, 1e-5, 10.0) as f32,
    };
    let calibrated = g.chance(1, 3);
    let c = if calibrated { mild(g) } else { PLAIN };
    let order = g.below(256) as u8;
    let mut f = new_ar(&q0, &c, ts, Nim::ClosedForm, order)?;
    let mut q = q64(&q0);
    let mut tol = 1e-6;
    g.note(|| format!("start {:?} ts {:?} calibration {:?}", q0, ts, c));
    if g.chance(1, 3) {
        // One constant rate: in one go, split, and undone.
        let k = 1 + g.below(8);
        let w = rate(g, 5e3);
        let n = norm(&[w[0] as f64, w[1] as f64, w[2] as f64]);
        if n <= TOL {
            return Ok(());
        }
        if k >= 2 {
            g.nontrivial();
        }
        g.note(|| format!("rate {:?} x {}", w, k));
        let mut split = new_ar(&q0, &PLAIN, ts, Nim::ClosedForm, order)?;
        for _ in 0..k {
            es(split.update(w[0], w[1], w[2]), "update")?;
        }
        let mut whole = new_ar(&q0, &PLAIN, ts * k as f32, Nim::ClosedForm, order)?;
        es(whole.update(w[0], w[1], w[2]), "update")?;
        let tol = k as f64 * 5e-7 * (1.0 + n * ts as f64);
        let (a, b) = (att_ar(&split)?, att_ar(&whole)?);
        within!(qdist_pm(&a, &b), tol, "{} updates of {} s give {}, one of {} s gives {}", k, ts, qshow(&a), ts * k as f32, qshow(&b));
        for _ in 0..k {
            es(split.update(-w[0], -w[1], -w[2]), "update")?;
        }
        let a = att_ar(&split)?;
        within!(qdist_pm(&a, &q64(&q0)), 2.0 * tol, "the opposite rate leads back to {} instead of {:?}", qshow(&a), q0);
        return Ok(());
    }
    // Occasionally a long history.
    let steps = if g.chance(1, 400) { 300 + g.below(500) } else { 1 + g.below(20) };
    let mut moving = 0;
    for _ in 0..steps {
        let w = rate(g, 5e3);
        g.note(|| format!("rate {:?}", w));
        let (cw, s) = correct(&c, &w);
        let n = norm(&cw);
        if n > 0.9 * TOL && n < 1.1 * TOL {
            return Ok(());
        }
        let before = es(f.get_attitude(), "get_attitude")?;
        es(f.update(w[0], w[1], w[2]), "update")?;
        let a = att_ar(&f)?;
        if n <= TOL {
            ensure!(a == rdq(&before)?, "a rate of {} moved the attitude", n);
            continue;
        }
        moving += 1;
        q = qmul(&q, &qstep(&cw, ts as f64));
        tol += 3e-7 * (1.0 + n * ts as f64) + 8.0 * EPS32 * norm(&s) * ts as f64;
        within!(qdist_pm(&a, &q), tol, "attitude {} after rate {:?} for {} s, expected {} (allowed {:e})", qshow(&a), w, ts, qshow(&q), tol);
    }
    if moving >= 2 {
        g.nontrivial();
    }
    Ok(())
}

/// A believable calibration.
pub(super) fn mild(g: &mut G) -> Cfg {
    let mut c = PLAIN;
    for k in 0..3 {
        c[k] = g.uniform(0.5, 2.0) as f32;
    }
    for k in 3..9 {
        c[k] = g.uniform(-0.2, 0.2) as f32;
    }
    for k in 9..12 {
        c[k] = g.uniform(-1.0, 1.0) as f32;
    }
    c
}

fn c25(g: &mut G) -> R {
    let q0 = unitq(g);
    let kind = 1 + g.below(4).min(3);
    let order = match g.below(4) {
        0 => g.below(4) as u8,
        1 => 4 + g.below(8) as u8,
        2 => g.pick(&[20, 21, 22, 34, 35, 50, 64, 100, 200, 255]),
        _ => 1 + g.below(6) as u8,
    };
    let ts = if g.bool() { 0.01 } else { logmag(g, 1e-5, 30.0) as f32 };
    let mut f = es(AR::new(), "AR::new")?;
    let r = f.init(q0[0], q0[1], q0[2], q0[3], &gyr_cfg(&PLAIN), ts, nim(kind), order);
    g.note(|| format!("{:?} order {} ts {:?} start {:?}", nim(kind), order, ts, q0));
    if r.is_err() {
        // Refusing an order or a method outright is an answer, but the supported ones must work.
        ensure!(kind >= 3 || (kind == 1 && order == 0), "{:?} of order {} was refused: {:?}", nim(kind), order, r);
        return Ok(());
    }
    if kind >= 3 {
        g.class("unavailable method");
        for _ in 0..1 + g.below(3) {
            let w = rate(g, 5e3);
            let n = norm(&[w[0] as f64, w[1] as f64, w[2] as f64]);
            if n > TOL {
                g.nontrivial();
            }
            let r = f.update(w[0], w[1], w[2]);
            ensure!(!(n > 1.1 * TOL && r.is_ok()), "{:?} is not available but an update succeeded", nim(kind));
            ensure!(att_ar(&f)? == q64(&q0), "{:?} is not available but changed the attitude", nim(kind));
        }
        return Ok(());
    }
    let mut q = q64(&q0);
    let mut tol = 1e-6;
    for _ in 0..1 + g.below(4) {
        let d = dir3(g);
        let half = logmag(g, 1e-4, 2.0);
        let n = (2.0 * half / ts as f64).max(1.2e-4);
        let w = [(d[0] * n) as f32, (d[1] * n) as f32, (d[2] * n) as f32];
        let wd = [w[0] as f64, w[1] as f64, w[2] as f64];
        let th = norm(&wd) * ts as f64 / 2.0;
        let ord = if kind == 2 { 1.0 } else { order as f64 };
        // theta^(n+1)/(n+1)!, doubled for the normalisation.
        let mut rem = th;
        let mut k = 1.0;
        while k <= ord {
            k += 1.0;
            rem *= th / k;
        }
        if rem >= 0.5 {
            return Ok(());
        }
        g.nontrivial();
        g.note(|| format!("rate {:?} (half angle {:e}, truncation {:e})", w, th, rem));
        es(f.update(w[0], w[1], w[2]), "update")?;
        q = qmul(&q, &qstep(&wd, ts as f64));
        tol += 2.0 * rem + 1e-6 * th.exp();
        let a = att_ar(&f)?;
        within!(qdist_pm(&a, &q), tol, "{:?} of order {}: attitude {} after rate {:?} for {} s, exact {} (difference {:e}, allowed {:e})", nim(kind), order, qshow(&a), w, ts, qshow(&q), qdist_pm(&a, &q), tol);
    }
    Ok(())
}

// ---------------------------------------------------------------- Aqua

#[derive(Clone, Debug)]
pub struct P {
    pub marg: bool,
    pub q: [Option<f32>; 4],
    pub gyr: Option<Cfg>,
    pub acc: Cfg,
    pub mag: Cfg,
    pub ts: f32,
    pub adaptive: bool,
    pub alpha: f32,
    pub beta: f32,
    pub t1: f32,
    pub t2: f32,
    pub ta: f32,
    pub tm: f32,
    pub g: Option<f32>,
    pub h: Option<f32>,
}
impl P {
    pub fn plain(marg: bool, q: &[f32; 4]) -> P {
        P {
            marg,
            q: [Some(q[0]), Some(q[1]), Some(q[2]), Some(q[3])],
            gyr: if marg { Some(PLAIN) } else { None },
            acc: PLAIN,
            mag: PLAIN,
            ts: 0.01,
            adaptive: false,
            alpha: 0.1,
            beta: 0.1,
            t1: 0.1,
            t2: 0.2,
            ta: 0.9,
            tm: 0.9,
            g: None,
            h: None,
        }
    }
    pub fn init(&self, f: &mut Aqua) -> Result<(), OpenAHRSError> {
        let gc = self.gyr.map(|c| gyr_cfg(&c));
        f.init(
            if self.marg { Mode::MARG } else { Mode::AM },
            self.q[0],
            self.q[1],
            self.q[2],
            self.q[3],
            gc.as_ref(),
            &acc_cfg(&self.acc),
            &mag_cfg(&self.mag),
            self.ts,
            self.adaptive,
            self.alpha,
            self.beta,
            self.t1,
            self.t2,
            self.ta,
            self.tm,
            self.g,
            self.h,
        )
    }
    pub fn make(&self) -> Result<Aqua, String> {
        let mut f = es(Aqua::new(), "Aqua::new")?;
        es(self.init(&mut f), "Aqua init")?;
        Ok(f)
    }
}
pub(super) fn upd(f: &mut Aqua, marg: bool, w: &[f32; 3], a: &[f32; 3], m: &[f32; 3]) -> Result<(), OpenAHRSError> {
    let o = |x: f32| if marg { Some(x) } else { None };
    f.update(o(w[0]), o(w[1]), o(w[2]), a[0], a[1], a[2], m[0], m[1], m[2])
}
pub(super) fn f3(v: &[f64; 3], k: f64) -> [f32; 3] {
    [(v[0] * k) as f32, (v[1] * k) as f32, (v[2] * k) as f32]
}
pub(super) fn d3(v: &[f32; 3]) -> [f64; 3] {
    [v[0] as f64, v[1] as f64, v[2] as f64]
}
const ZERO: [f32; 3] = [0.0; 3];

fn wild(g: &mut G) -> f32 {
    match g.below(8) {
        0 => nonfinite(g),
        1 | 2 => any_finite(g),
        3 => g.pick(&[0.0, 1e-5, 1e-3, -1e-5]),
        _ => val(g),
    }
}
/// Mostly sensible measurement, sometimes with one or all axes wild.
pub(super) fn meas(g: &mut G, scale: f64) -> [f32; 3] {
    let d = dir3(g);
    let mut v = f3(&d, scale);
    match g.below(6) {
        0 => v[g.below(3) as usize] = wild(g),
        1 => v = [wild(g), wild(g), wild(g)],
        2 => v = [0.0; 3],
        _ => {}
    }
    v
}

fn c26(g: &mut G) -> R {
    let q0 = unitq(g);
    let steps = if g.chance(1, 400) { 300 + g.below(300) } else { 1 + g.below(8) };
    if steps >= 3 {
        g.nontrivial();
    }
    let odd = |g: &mut G, base: f32| if g.chance(1, 5) { g.pick(&[0.0, 1.0, -1.0, 0.5, 1e-6, 1e10, 1e30, 1e38, -0.01, f32::NAN, f32::INFINITY]) } else { base };
    if g.chance(1, 3) {
        let kind = g.below(5);
        let (ts, order) = (odd(g, 0.01), g.below(256) as u8);
        let c = if g.bool() { PLAIN } else { cfg(g) };
        let mut f = es(AR::new(), "AR::new")?;
        let r = f.init(q0[0], q0[1], q0[2], q0[3], &gyr_cfg(&c), ts, nim(kind), order);
        g.note(|| format!("AR {:?} order {} ts {:?} start {:?} calibration {:?}: {:?}", nim(kind), order, ts, q0, c, r));
        if r.is_err() {
            return Ok(());
        }
        for _ in 0..steps {
            let w = meas(g, 3.0);
            let before = att_ar(&f)?;
            let r = f.update(w[0], w[1], w[2]);
            let a = att_ar(&f)?;
            g.note(|| format!("update {:?}: {:?} -> {}", w, r, qshow(&a)));
            within!((norm(&a) - 1.0).abs(), 1e-6, "attitude {} after update {:?} ({:?})", qshow(&a), w, r);
            if r.is_err() {
                ensure!(a == before, "a refused update moved the attitude from {} to {}", qshow(&before), qshow(&a));
            }
        }
        return Ok(());
    }
    let marg = g.chance(2, 3);
    let mut p = P::plain(marg, &q0);
    p.ts = odd(g, 0.01);
    p.alpha = odd(g, 0.1);
    p.beta = odd(g, 0.1);
    p.ta = odd(g, 0.9);
    p.tm = odd(g, 0.9);
    p.adaptive = g.chance(1, 3);
    p.t1 = odd(g, 0.1);
    p.t2 = odd(g, 0.2);
    p.g = if g.bool() { None } else { Some(odd(g, 9.81)) };
    p.h = if g.bool() { None } else { Some(odd(g, 48.0)) };
    if g.chance(1, 3) {
        p.acc = cfg(g);
        p.mag = cfg(g);
        if marg {
            p.gyr = Some(cfg(g));
        }
    }
    if g.chance(1, 6) {
        p.q = [None; 4];
    }
    let mut f = es(Aqua::new(), "Aqua::new")?;
    let r = p.init(&mut f);
    g.note(|| format!("{:?}: {:?}", p, r));
    if r.is_err() {
        return Ok(());
    }
    for _ in 0..steps {
        let (w, a, m) = (meas(g, 1.0), meas(g, 9.81), meas(g, 48.0));
        let before = att_aq(&f)?;
        let given = if g.chance(1, 10) { g.below(8) } else if marg { 7 } else { 0 };
        let o = |i: usize| if given >> i & 1 == 1 { Some(w[i]) } else { None };
        let r = f.update(o(0), o(1), o(2), a[0], a[1], a[2], m[0], m[1], m[2]);
        let q = att_aq(&f)?;
        g.note(|| format!("update {:?} {:?} {:?}: {:?} -> {}", w, a, m, r, qshow(&q)));
        within!((norm(&q) - 1.0).abs(), 1e-6, "attitude {} after update {:?} {:?} {:?} ({:?})", qshow(&q), w, a, m, r);
        if r.is_err() {
            ensure!(q == before, "a refused update ({:?}) moved the attitude from {} to {}", r, qshow(&before), qshow(&q));
        }
    }
    Ok(())
}

fn c27(g: &mut G) -> R {
    match g.below(5) {
        0 | 1 => c27_ar(g),
        2 | 3 => c27_aqua(g),
        _ => c27_davenport(g),
    }
}

fn c27_ar(g: &mut G) -> R {
    let mut f = es(AR::new(), "AR::new")?;
    let mut twin: Option<AR> = None;
    for _ in 0..2 + g.below(9) {
        match g.below(4) {
            0 | 1 => {
                let mut q = unitq(g);
                let mut c = if g.bool() { PLAIN } else { cfg(g) };
                let ts = g.pick(&[0.01f32, 0.1, 1.0]);
                let (kind, order) = (g.below(3), 1 + g.below(5) as u8);
                let bad = g.bool();
                if bad {
                    if g.bool() {
                        q[g.below(4) as usize] = nonfinite(g);
                    } else {
                        c[g.below(12) as usize] = nonfinite(g);
                    }
                }
                let snap = if twin.is_some() { Some(att_ar(&f)?) } else { None };
                let r = f.init(q[0], q[1], q[2], q[3], &gyr_cfg(&c), ts, nim(kind), order);
                g.note(|| format!("AR init {:?} {:?} {:?} {:?} {}: {:?}", q, c, ts, nim(kind), order, r));
                if bad || twin.is_some() {
                    g.nontrivial();
                    ensure!(r.is_err(), "AR initialisation ({}) accepted", if twin.is_some() { "second" } else { "non-finite" });
                    if let Some(s) = snap {
                        ensure!(att_ar(&f)? == s, "a refused initialisation moved the attitude");
                    }
                } else {
                    ensure!(r.is_ok(), "valid AR initialisation refused after earlier refusals: {:?}", r);
                    twin = Some(new_ar(&q, &c, ts, nim(kind), order)?);
                }
            }
            _ => {
                let mut w = rate(g, 10.0);
                let bad = g.chance(1, 6);
                if bad {
                    w[g.below(3) as usize] = nonfinite(g);
                }
                let r = f.update(w[0], w[1], w[2]);
                ensure!(!bad || r.is_err(), "an update with a non-finite reading was accepted");
                g.note(|| format!("AR update {:?}: {:?}", w, r));
                match &mut twin {
                    None => ensure!(r.is_err(), "update accepted before initialisation"),
                    Some(t) => {
                        let rt = t.update(w[0], w[1], w[2]);
                        ensure!(r == rt, "update gives {:?}, a fresh filter {:?}", r, rt);
                    }
                }
            }
        }
        match &twin {
            None => ensure!(f.get_attitude().is_err(), "attitude reported before initialisation"),
            Some(t) => ensure!(att_ar(&f)? == att_ar(t)?, "attitude {} differs from a fresh filter's {}", qshow(&att_ar(&f)?), qshow(&att_ar(t)?)),
        }
    }
    Ok(())
}

fn c27_aqua(g: &mut G) -> R {
    let mut f = es(Aqua::new(), "Aqua::new")?;
    let mut twin: Option<(Aqua, bool)> = None;
    for _ in 0..2 + g.below(9) {
        match g.below(4) {
            0 | 1 => {
                let marg = g.bool();
                let mut p = P::plain(marg, &unitq(g));
                if g.chance(1, 4) {
                    p.q = [None; 4];
                }
                p.adaptive = g.bool();
                p.alpha = g.unit() as f32;
                p.beta = g.unit() as f32;
                p.ts = g.pick(&[0.01f32, 0.1]);
                if g.bool() {
                    p.g = Some(g.uniform(1.0, 20.0) as f32);
                }
                if g.bool() {
                    p.h = Some(g.uniform(1.0, 80.0) as f32);
                }
                if g.bool() {
                    p.acc = mild(g);
                    p.mag = mild(g);
                }
                if !marg && g.chance(1, 4) {
                    p.gyr = Some(mild(g));
                }
                let bad = g.bool();
                if bad {
                    match g.below(5) {
                        0 => {
                            p.acc[g.below(12) as usize] = nonfinite(g);
                        }
                        1 => {
                            p.mag[g.below(12) as usize] = nonfinite(g);
                        }
                        2 => {
                            p.q = [Some(0.5); 4];
                            p.q[g.below(4) as usize] = None;
                        }
                        3 => {
                            p.q = [Some(0.5); 4];
                            p.q[g.below(4) as usize] = Some(nonfinite(g));
                        }
                        _ => {
                            p.marg = true;
                            p.gyr = None;
                            if g.bool() {
                                let mut c = PLAIN;
                                c[g.below(12) as usize] = nonfinite(g);
                                p.gyr = Some(c);
                            }
                        }
                    }
                }
                let snap = if twin.is_some() { Some(att_aq(&f)?) } else { None };
                let r = p.init(&mut f);
                g.note(|| format!("Aqua init {:?}: {:?}", p, r));
                if bad || twin.is_some() {
                    g.nontrivial();
                    ensure!(r.is_err(), "Aqua initialisation ({}) accepted", if twin.is_some() { "second" } else { "missing or non-finite argument" });
                    if let Some(s) = snap {
                        ensure!(att_aq(&f)? == s, "a refused initialisation moved the attitude");
                    }
                } else {
                    ensure!(r.is_ok(), "valid Aqua initialisation refused after earlier refusals: {:?}", r);
                    twin = Some((p.make()?, marg));
                }
            }
            _ => {
                let (mut w, mut a, mut m) = (rate(g, 3.0), f3(&dir3(g), 9.81), f3(&dir3(g), 48.0));
                let bad = if g.chance(1, 5) { 1 + g.below(3) } else { 0 };
                match bad {
                    1 => a[g.below(3) as usize] = nonfinite(g),
                    2 => m[g.below(3) as usize] = nonfinite(g),
                    3 => w[g.below(3) as usize] = nonfinite(g),
                    _ => {}
                }
                let marg = twin.as_ref().map(|t| t.1).unwrap_or(true);
                // Which gyrometer readings are given.
                let given = if g.chance(1, 4) { g.below(8) } else if marg { 7 } else { 0 };
                let o = |i: usize| if given >> i & 1 == 1 { Some(w[i]) } else { None };
                let r = f.update(o(0), o(1), o(2), a[0], a[1], a[2], m[0], m[1], m[2]);
                g.note(|| format!("Aqua update {:?} (given {:03b}) {:?} {:?}: {:?}", w, given, a, m, r));
                match &mut twin {
                    None => ensure!(r.is_err(), "update accepted before initialisation"),
                    Some((t, marg)) => {
                        if *marg && given != 7 {
                            g.nontrivial();
                            ensure!(r.is_err(), "a MARG update with gyrometer readings missing was accepted");
                        } else {
                            // Without a gyrometer in use, its readings make no difference.
                            let rt = upd(t, *marg, &w, &a, &m);
                            ensure!(r == rt, "update gives {:?}, a fresh filter {:?}", r, rt);
                            ensure!(r.is_err() || bad == 0 || (bad == 3 && !*marg), "an update with a non-finite reading was accepted");
                        }
                    }
                }
            }
        }
        match &mut twin {
            None => {
                ensure!(f.get_attitude().is_err(), "attitude reported before initialisation");
                ensure!(f.get_accelerometer_config().is_err() && f.get_magnetometer_config().is_err() && f.get_gyrometer_config().is_err(), "a refused initialisation left a sensor configured");
            }
            Some((t, _)) => {
                ensure!(att_aq(&f)? == att_aq(t)?, "attitude {} differs from a fresh filter's {}", qshow(&att_aq(&f)?), qshow(&att_aq(t)?));
                let a = (f.get_accelerometer_config().map(|c| from_acc(&c)), f.get_magnetometer_config().map(|c| from_mag(&c)), f.get_gyrometer_config().map(|c| from_gyr(&c)));
                let b = (t.get_accelerometer_config().map(|c| from_acc(&c)), t.get_magnetometer_config().map(|c| from_mag(&c)), t.get_gyrometer_config().map(|c| from_gyr(&c)));
                ensure!(a == b, "sensor configurations {:?} differ from a fresh filter's {:?}", a, b);
            }
        }
    }
    Ok(())
}

fn c27_davenport(g: &mut G) -> R {
    let mut f = es(Davenport::new(), "Davenport::new")?;
    let mut init = false;
    for _ in 0..2 + g.below(6) {
        if g.bool() {
            let bad = g.bool();
            let mut w = [g.uniform(0.01, 1.0) as f32, g.uniform(0.01, 1.0) as f32];
            if bad {
                w[g.below(2) as usize] = g.pick(&[0.0, -0.5, 1.5, f32::NAN, f32::INFINITY]);
            }
            let r = f.init(w[0], w[1], if g.bool() { None } else { Some(9.8) }, None);
            g.note(|| format!("Davenport init {:?}: {:?}", w, r));
            if bad || init {
                g.nontrivial();
                ensure!(r.is_err(), "Davenport initialisation with {:?} accepted", w);
            } else {
                ensure!(r.is_ok(), "valid Davenport initialisation refused after earlier refusals: {:?}", r);
                init = true;
            }
        } else {
            let (a, m) = (f3(&dir3(g), 9.81), f3(&dir3(g), 48.0));
            let r = f.update(a[0], a[1], a[2], m[0], m[1], m[2]);
            g.note(|| format!("Davenport update: {:?}", r));
            if !init {
                ensure!(r.is_err(), "Davenport update accepted before initialisation");
            } else if r == Err(OpenAHRSError::AccNotInit) {
                g.known_finding("davenport-update-after-init:AccNotInit");
            } else {
                ensure!(r.is_ok(), "Davenport update refused after initialisation: {:?}", r);
            }
        }
    }
    Ok(())
}

/// The rotation with vertical along the acceleration and field forward: columns are the reference axes seen from the device.
pub(super) fn am_dcm(a: &[f64; 3], m: &[f64; 3]) -> M {
    let u = unit3(a);
    let e3 = [-u[0], -u[1], -u[2]];
    let k = dot(m, &e3);
    let e1 = unit3(&[m[0] - k * e3[0], m[1] - k * e3[1], m[2] - k * e3[2]]);
    let e2 = cross(&e3, &e1);
    let mut r = M::zero(3, 3);
    for i in 0..3 {
        r.a[i][0] = e1[i];
        r.a[i][1] = e2[i];
        r.a[i][2] = e3[i];
    }
    r
}

/// A field direction at least `min` radians from the line of the acceleration.
pub(super) fn field(g: &mut G, a: &[f64; 3], min: f64) -> [f64; 3] {
    let m = dir3(g);
    let t = angle3(a, &m);
    if t > min && t < PI - min {
        return m;
    }
    // Replace by a direction at a chosen angle.
    let other = if a[0].abs() < 0.7 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
    let p = unit3(&cross(a, &other));
    let q = cross(a, &p);
    let (s, c) = g.uniform(0.0, 2.0 * PI).sin_cos();
    let t = g.uniform(min * 1.01, PI - min * 1.01);
    let mut v = [0.0; 3];
    for i in 0..3 {
        v[i] = t.cos() * a[i] + t.sin() * (c * p[i] + s * q[i]);
    }
    v
}

/// The magnitude of a measurement: ordinary, or anything the library does not take for zero.
pub(super) fn strength(g: &mut G) -> f64 {
    if g.chance(2, 3) {
        logmag(g, 0.02, 1e3)
    } else {
        logmag(g, 2e-4, 1e15)
    }
}

fn c28(g: &mut G) -> R {
    g.nontrivial();
    let min = 0.2 * PI / 180.0;
    let mut p = P::plain(false, &unitq(g));
    p.alpha = g.unit() as f32;
    p.beta = g.unit() as f32;
    p.adaptive = g.chance(1, 4);
    p.ts = g.pick(&[0.01f32, 1.0]);
    let mut f = p.make()?;
    for _ in 0..1 + g.below(3) {
        let ad = match g.below(4) {
            0 => {
                // Near level, near inverted, near horizontal.
                let e = logmag(g, 1e-6, 0.1);
                let t = g.uniform(0.0, 2.0 * PI);
                match g.below(3) {
                    0 => unit3(&[e * t.cos(), e * t.sin(), -1.0]),
                    1 => unit3(&[e * t.cos(), e * t.sin(), 1.0]),
                    _ => unit3(&[t.cos(), t.sin(), if g.bool() { e } else { -e }]),
                }
            }
            _ => dir3(g),
        };
        let md = field(g, &ad, min);
        let a = f3(&ad, strength(g));
        let m = f3(&md, strength(g));
        g.note(|| format!("acceleration {:?} field {:?}", a, m));
        es(upd(&mut f, false, &ZERO, &a, &m), "update")?;
        let q = att_aq(&f)?;
        let want = am_dcm(&d3(&a), &d3(&m));
        let sin = angle3(&ad, &md).sin();
        let tol = 4e-6 + 1.2e-6 / sin;
        let d = qdcm(&q).dist(&want);
        within!(d, tol, "attitude {} for acceleration {:?} and field {:?}: matrix {}, expected {} (difference {:e}, allowed {:e})", qshow(&q), a, m, qdcm(&q).show(), want.show(), d, tol);
        // The two defining directions, directly.
        let up = qrot(&qconj(&q), &unit3(&d3(&a)));
        ensure!((up[2] + 1.0).abs() <= tol && up[0].abs() <= tol && up[1].abs() <= tol, "measured acceleration {:?} maps to {:?}", a, up);
        let fw = qrot(&qconj(&q), &unit3(&d3(&m)));
        ensure!(fw[0] > 0.0 && fw[1].abs() <= tol, "measured field {:?} maps to {:?}", m, fw);
        // Gyrometer data is irrelevant in this mode.
        let (o1, o2, o3) = (Some(val(g)), Some(val(g)), Some(val(g)));
        if g.chance(1, 4) {
            es(f.update(o1, o2, o3, a[0], a[1], a[2], m[0], m[1], m[2]), "update with rates")?;
            within!(qdist_pm(&att_aq(&f)?, &q), tol, "rates changed the attitude");
        }
    }
    Ok(())
}

fn interp(q: &Q, t: f64, thr: f64) -> Q {
    if q[0] > thr {
        qunit(&[1.0 - t + t * q[0], t * q[1], t * q[2], t * q[3]])
    } else {
        let th = q[0].clamp(-1.0, 1.0).acos();
        if th < 1e-9 {
            return *q;
        }
        let (a, b) = (((1.0 - t) * th).sin() / th.sin(), (t * th).sin() / th.sin());
        [a + b * q[0], b * q[1], b * q[2], b * q[3]]
    }
}

/// One update of the full-sensor mode in double precision; None within rounding of a branch.
fn marg_ref(q: &Q, w: &[f64; 3], a: &[f64; 3], m: &[f64; 3], ts: f64, alpha: f64, beta: f64, ta: f64, tm: f64) -> Option<Q> {
    if norm(a) < 1.5e-4 || norm(m) < 1.5e-4 {
        return None;
    }
    let q1 = tilt_ref(&predict_ref(q, w, ts), a, alpha, ta)?;
    heading_ref(&q1, m, beta, tm)
}
/// The attitude after the rates alone.
pub(super) fn predict_ref(q: &Q, w: &[f64; 3], ts: f64) -> Q {
    let d = qmul(q, &[0.0, 0.5 * ts * w[0], 0.5 * ts * w[1], 0.5 * ts * w[2]]);
    qunit(&[q[0] + d[0], q[1] + d[1], q[2] + d[2], q[3] + d[3]])
}
/// Correction of the tilt by the direction of an acceleration.
pub(super) fn tilt_ref(gq: &Q, a: &[f64; 3], alpha: f64, ta: f64) -> Option<Q> {
    let s = qrot(&qconj(gq), &unit3(a));
    if s[2].abs() < 2e-5 {
        return None;
    }
    let aq: Q = if s[2] < 0.0 {
        let l = ((1.0 - s[2]) / 2.0).sqrt();
        [l, s[1] / (2.0 * l), -s[0] / (2.0 * l), 0.0]
    } else {
        let l = ((1.0 + s[2]) / 2.0).sqrt();
        [s[1] / (2.0 * l), l, 0.0, -s[0] / (2.0 * l)]
    };
    if (aq[0] - ta).abs() < 5e-6 {
        return None;
    }
    Some(qmul(gq, &interp(&aq, alpha, ta)))
}
/// Correction of the heading by the direction of a field.
pub(super) fn heading_ref(q1: &Q, m: &[f64; 3], beta: f64, tm: f64) -> Option<Q> {
    let l = qrot(&qconj(q1), &unit3(m));
    let gm = l[0].hypot(l[1]);
    if gm < 0.05 || (l[0] < 0.0 && l[1].abs() < 2e-4 * gm) {
        return None;
    }
    // Rotation about the vertical by the heading angle.
    let psi = l[1].atan2(l[0]);
    let mq: Q = [(psi / 2.0).cos(), 0.0, 0.0, (psi / 2.0).sin()];
    if (mq[0] - tm).abs() < 5e-6 {
        return None;
    }
    Some(qunit(&qmul(q1, &interp(&mq, beta, tm))))
}

pub(super) fn gain(g: &mut G) -> f32 {
    match g.below(5) {
        0 => 0.0,
        1 => 1.0,
        2 => g.pick(&[0.01, 0.5, 0.02]),
        _ => g.unit() as f32,
    }
}
pub(super) fn thr(g: &mut G) -> f32 {
    match g.below(4) {
        0 => g.pick(&[0.0, 1.0, 0.5]),
        1 => g.unit() as f32,
        _ => 0.9,
    }
}

fn c29(g: &mut G) -> R {
    let q0 = unitq(g);
    let mut p = P::plain(true, &q0);
    p.alpha = gain(g);
    p.beta = gain(g);
    p.ta = thr(g);
    p.tm = thr(g);
    p.ts = if g.bool() { 0.01 } else { logmag(g, 1e-5, 10.0) as f32 };
    if g.bool() {
        p.g = Some(strength(g) as f32);
        p.h = Some(strength(g) as f32);
    }
    let ad = dir3(g);
    let md = field(g, &ad, 0.2);
    let (ka, km) = (strength(g), strength(g));
    let (a, m) = (f3(&ad, ka), f3(&md, km));
    let w = if g.chance(1, 3) { ZERO } else { f3(&dir3(g), logmag(g, 1e-5, 3e3)) };
    let mode = g.below(4);
    if mode == 0 {
        p.alpha = 0.0;
        p.beta = 0.0;
    } else if mode == 1 {
        p.alpha = 1.0;
        p.beta = 1.0;
    }
    let w = if mode == 1 { ZERO } else { w };
    g.note(|| format!("{:?} rate {:?} acceleration {:?} field {:?}", p, w, a, m));
    if g.chance(1, 12) {
        // Gains and interpolation thresholds outside [0, 1].
        g.nontrivial();
        let bad = g.pick(&[-1e-3f32, 1.001, -0.5, 2.0, 1e9, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
        match g.below(4) {
            0 => p.alpha = bad,
            1 => p.beta = bad,
            2 => p.ta = bad,
            _ => p.tm = bad,
        }
        g.note(|| format!("{:?}", p));
        let mut f = es(Aqua::new(), "Aqua::new")?;
        if p.init(&mut f).is_ok() {
            ensure!(upd(&mut f, true, &w, &a, &m).is_err(), "an update with a gain or interpolation threshold of {} was accepted", bad);
            ensure!(att_aq(&f)? == q64(&q0), "the refused update moved the attitude");
        }
        return Ok(());
    }
    let (dw, da, dm) = (d3(&w), d3(&a), d3(&m));
    let want = match marg_ref(&q64(&q0), &dw, &da, &dm, p.ts as f64, p.alpha as f64, p.beta as f64, p.ta as f64, p.tm as f64) {
        Some(x) => x,
        None => return Ok(()),
    };
    g.nontrivial();
    let tol = 1.2e-5;
    let mut f = p.make()?;
    es(upd(&mut f, true, &w, &a, &m), "update")?;
    let q = att_aq(&f)?;
    within!(qdist_pm(&q, &want), tol, "attitude {} after the update, expected {} (difference {:e})", qshow(&q), qshow(&want), qdist_pm(&q, &want));
    if mode == 0 {
        g.class("gyro only");
        let d = qmul(&q64(&q0), &[0.0, 0.5 * p.ts as f64 * dw[0], 0.5 * p.ts as f64 * dw[1], 0.5 * p.ts as f64 * dw[2]]);
        let s = q64(&q0);
        let pr = qunit(&[s[0] + d[0], s[1] + d[1], s[2] + d[2], s[3] + d[3]]);
        within!(qdist_pm(&q, &pr), 1e-6, "with both gains zero the attitude is {}, the gyro prediction {}", qshow(&q), qshow(&pr));
    }
    if mode == 1 {
        g.class("full gains");
        let mut am = P::plain(false, &q0).make()?;
        es(upd(&mut am, false, &ZERO, &a, &m), "AM update")?;
        let b = att_aq(&am)?;
        within!(qdist_pm(&q, &b), 2.0 * tol, "with both gains one the attitude is {}, accelerometer/magnetometer mode gives {}", qshow(&q), qshow(&b));
    }
    // Magnitudes do not matter.
    let (k1, k2) = (strength(g) / ka, strength(g) / km);
    let mut f2 = p.make()?;
    es(upd(&mut f2, true, &w, &f3(&ad, ka * k1), &f3(&md, km * k2)), "update with scaled measurements")?;
    let q2 = att_aq(&f2)?;
    within!(qdist_pm(&q, &q2), 2.0 * tol, "scaling acceleration by {} and field by {} changed the attitude from {} to {}", k1, k2, qshow(&q), qshow(&q2));
    // Each further update continues from the attitude before it, and a refused one changes nothing.
    for _ in 0..g.below(6) {
        let ad = dir3(g);
        let md = field(g, &ad, 0.2);
        let (a, m) = (f3(&ad, strength(g)), f3(&md, strength(g)));
        let w = if g.chance(1, 3) { w } else { f3(&dir3(g), logmag(g, 1e-5, 3e3)) };
        let q = att_aq(&f)?;
        if g.chance(1, 6) {
            let mut bad = [w, a, m];
            bad[g.below(3) as usize][g.below(3) as usize] = nonfinite(g);
            g.note(|| format!("refused {:?}", bad));
            ensure!(upd(&mut f, true, &bad[0], &bad[1], &bad[2]).is_err(), "a non-finite measurement was accepted");
            ensure!(att_aq(&f)? == q, "a refused update moved the attitude");
        }
        g.note(|| format!("rate {:?} acceleration {:?} field {:?}", w, a, m));
        let want = match marg_ref(&q, &d3(&w), &d3(&a), &d3(&m), p.ts as f64, p.alpha as f64, p.beta as f64, p.ta as f64, p.tm as f64) {
            Some(x) => x,
            None => return Ok(()),
        };
        es(upd(&mut f, true, &w, &a, &m), "further update")?;
        let q = att_aq(&f)?;
        within!(qdist_pm(&q, &want), tol, "attitude {} after a further update, expected {}", qshow(&q), qshow(&want));
    }
    Ok(())
}

fn c30(g: &mut G) -> R {
    let ad = dir3(g);
    let md = field(g, &ad, 0.3);
    let (a, m) = (f3(&ad, strength(g)), f3(&md, strength(g)));
    // Measured attitude from the accelerometer/magnetometer mode itself.
    let mut am = P::plain(false, &[1.0, 0.0, 0.0, 0.0]).make()?;
    es(upd(&mut am, false, &ZERO, &a, &m), "AM update")?;
    let target = qunit(&att_aq(&am)?);
    // Initial error: heading about the vertical, then a tilt about a horizontal axis.
    let head = match g.below(4) {
        0 => PI,
        1 => g.pick(&[0.0, PI / 2.0, -PI / 2.0]),
        _ => g.uniform(-PI, PI),
    };
    let tilt = match g.below(6) {
        0 | 1 => 0.0,
        2 => g.pick(&[PI / 2.0, PI, 3.0]),
        _ => g.uniform(0.0, PI),
    };
    let t = g.uniform(0.0, 2.0 * PI);
    let mut e = axang(&[0.0, 0.0, 1.0], head);
    if tilt > 0.0 {
        e = qmul(&e, &axang(&[t.cos(), t.sin(), 0.0], tilt));
    }
    let q0 = roundq(&qunit(&qmul(&target, &e)));
    if head != 0.0 || tilt > 1e-6 {
        g.nontrivial();
    }
    let mut p = P::plain(true, &q0);
    let gn = |g: &mut G| match g.below(3) {
        0 => 1.0,
        1 => g.uniform(0.05, 0.2) as f32,
        _ => g.uniform(0.05, 1.0) as f32,
    };
    p.alpha = gn(g);
    p.beta = gn(g);
    p.ta = thr(g);
    p.tm = thr(g);
    p.ts = if g.bool() { 0.01 } else { logmag(g, 1e-5, 10.0) as f32 };
    if g.chance(1, 4) {
        // Nothing to adapt to: the acceleration has the reference magnitude.
        p.adaptive = true;
        p.g = Some(norm(&d3(&a)) as f32);
    }
    g.note(|| format!("{:?} acceleration {:?} field {:?} tilt {} heading {}", p, a, m, tilt, head));
    let slow = p.alpha.min(p.beta) as f64;
    let n = ((12.0 / (0.6 * slow)) as u32 + 8).min(420);
    let mut f = p.make()?;
    let da = unit3(&d3(&a));
    let tilt_of = |q: &Q| angle3(&qrot(&qconj(&qunit(q)), &da), &[0.0, 0.0, -1.0]);
    let mut last = tilt_of(&att_aq(&f)?);
    for k in 0..n {
        let q = att_aq(&f)?;
        let l = qrot(&qconj(&q), &unit3(&d3(&m)));
        let r = upd(&mut f, true, &ZERO, &a, &m);
        if l[0].hypot(l[1]) < 0.05 {
            // The field is vertical as seen from the present attitude.
            return Ok(());
        }
        let q = att_aq(&f)?;
        if let Err(e) = r {
            let aq = qrot(&qconj(&q), &unit3(&d3(&m)));
            ensure!(aq[0].hypot(aq[1]) < 0.1 || last > 1e-2, "update {} refused: {:?}", k, e);
            return Ok(());
        }
        let now = tilt_of(&q);
        if last < 1.5 {
            within!(now - last, 5e-6, "update {} increased the tilt error from {} to {}", k, last, now);
        }
        last = now;
    }
    let q = att_aq(&f)?;
    let d = qdist_pm(&q, &target);
    within!(d, 1e-4, "after {} updates the attitude is {}, the measured one {} (difference {:e})", n, qshow(&q), qshow(&target), d);
    // Fixed point.
    for _ in 0..3 {
        es(upd(&mut f, true, &ZERO, &a, &m), "update at the fixed point")?;
        let q2 = att_aq(&f)?;
        within!(qdist_pm(&q2, &q), 2e-5, "the converged attitude {} moved to {}", qshow(&q), qshow(&q2));
    }
    Ok(())
}

fn c31(g: &mut G) -> R {
    let q0 = unitq(g);
    let mut p = P::plain(true, &q0);
    p.adaptive = true;
    p.alpha = if g.bool() { 0.5 } else { g.uniform(0.05, 1.0) as f32 };
    p.beta = g.uniform(0.0, 1.0) as f32;
    p.ta = thr(g);
    p.tm = thr(g);
    let gr = if g.bool() { 9.81f32 } else { strength(g) as f32 };
    p.g = if gr == 9.81 && g.bool() { None } else { Some(gr) };
    if g.chance(1, 6) {
        // Thresholds that are not strictly increasing.
        g.nontrivial();
        p.t2 = g.uniform(0.0, 1.0) as f32;
        p.t1 = p.t2 + g.pick(&[0.0, 0.1, 0.001]);
        let mut f = es(Aqua::new(), "Aqua::new")?;
        let r = p.init(&mut f);
        if r.is_ok() {
            let r = upd(&mut f, true, &ZERO, &f3(&dir3(g), 9.0), &[20.0, 1.0, 30.0]);
            ensure!(r.is_err(), "thresholds {} and {} were accepted", p.t1, p.t2);
            ensure!(att_aq(&f)? == q64(&q0), "the refused update moved the attitude");
        }
        return Ok(());
    }
    let wide = g.chance(1, 4);
    p.t1 = match g.below(5) {
        0 => 0.0,
        1 | 2 => 0.1,
        _ => g.uniform(0.0, if wide { 5.0 } else { 0.4 }) as f32,
    };
    p.t2 = p.t1 + if g.bool() { 0.1 } else { g.uniform(0.05, if wide { 5.0 } else { 0.5 }) as f32 };
    let mut f = p.make()?;
    g.note(|| format!("{:?}", p));
    let mut mags: Vec<f64> = Vec::new();
    for _ in 0..1 + g.below(6) {
        // Relative deviation: below, between, above, at the thresholds.
        let (t1, t2) = (p.t1 as f64, p.t2 as f64);
        let e = match g.below(6) {
            0 => 0.0,
            1 => t1 * g.unit(),
            2 | 3 => t1 + (t2 - t1) * g.unit(),
            4 => t2 + g.uniform(0.0, 1.0),
            _ => g.pick(&[t1, t2]),
        };
        let e = if g.bool() && e < 0.95 { -e } else { e };
        let ad = dir3(g);
        let md = field(g, &ad, 0.2);
        let a = f3(&ad, gr as f64 * (1.0 + e));
        let m = f3(&md, strength(g));
        let w = if g.bool() { ZERO } else { f3(&dir3(g), logmag(g, 1e-5, 3e3)) };
        mags.push(e);
        let dev = (norm(&d3(&a)) / gr as f64 - 1.0).abs();
        let part = ((t2 - dev) / (t2 - t1)).clamp(0.0, 1.0);
        let eff = p.alpha as f64 * part;
        let before = att_aq(&f)?;
        g.note(|| format!("deviation {} gain {} rate {:?} acceleration {:?} field {:?}", dev, eff, w, a, m));
        if marg_ref(&before, &d3(&w), &d3(&a), &d3(&m), p.ts as f64, eff, p.beta as f64, p.ta as f64, p.tm as f64).is_none() {
            return Ok(());
        }
        // The same update with that gain fixed, from the same attitude.
        let b = [before[0] as f32, before[1] as f32, before[2] as f32, before[3] as f32];
        let mut fx = p.clone();
        fx.adaptive = false;
        fx.alpha = eff as f32;
        fx.q = [Some(b[0]), Some(b[1]), Some(b[2]), Some(b[3])];
        let mut fixed = fx.make()?;
        es(upd(&mut fixed, true, &w, &a, &m), "fixed-gain update")?;
        es(upd(&mut f, true, &w, &a, &m), "adaptive update")?;
        let (x, y) = (att_aq(&f)?, att_aq(&fixed)?);
        let tol = 1e-5 + 4e-6 * (1.0 + dev) / (t2 - t1);
        within!(qdist_pm(&x, &y), tol, "adaptive update with deviation {} gives {}, fixed gain {} gives {} (difference {:e}, allowed {:e})", dev, qshow(&x), eff, qshow(&y), qdist_pm(&x, &y), tol);
    }
    if mags.len() >= 2 && mags.iter().any(|x| *x != mags[0]) {
        g.nontrivial();
    }
    Ok(())
}

fn hand(c: &Cfg, raw: &[f32; 3]) -> [f32; 3] {
    let (w, _) = correct(c, raw);
    [w[0] as f32, w[1] as f32, w[2] as f32]
}

fn c32(g: &mut G) -> R {
    let q0 = unitq(g);
    let kind = g.below(3);
    let calib = |g: &mut G| if g.chance(1, 4) { PLAIN } else { mild(g) };
    if kind == 0 {
        let c = calib(g);
        if c != PLAIN {
            g.nontrivial();
        }
        let (k, order) = (g.below(3), 1 + g.below(4) as u8);
        g.note(|| format!("AR {:?} calibration {:?}", nim(k), c));
        let mut f = new_ar(&q0, &c, 0.01, nim(k), order)?;
        let mut h = new_ar(&q0, &PLAIN, 0.01, nim(k), order)?;
        let mut tol = 1e-6;
        for _ in 0..1 + g.below(6) {
            let w = f3(&dir3(g), logmag(g, 1e-3, 3e3));
            let hw = hand(&c, &w);
            if norm(&d3(&hw)) < 2.0 * TOL {
                return Ok(());
            }
            es(f.update(w[0], w[1], w[2]), "update")?;
            es(h.update(hw[0], hw[1], hw[2]), "update")?;
            let (a, b) = (att_ar(&f)?, att_ar(&h)?);
            // A truncated series magnifies the rounding of large steps.
            let half = 0.005 * (norm(&d3(&hw)) + norm(&d3(&w)));
            tol += 2e-6 * half * if k == 0 { 1.0 } else { half.exp() };
            if k > 0 && half > 3.0 {
                return Ok(());
            }
            within!(qdist_pm(&a, &b), tol, "calibrated filter {}, filter on corrected data {}", qshow(&a), qshow(&b));
        }
        return Ok(());
    }
    let marg = kind == 1;
    let mut p = P::plain(marg, &q0);
    let (mut cg, mut ca, mut cm) = (calib(g), calib(g), calib(g));
    if (marg && cg != PLAIN) || ca != PLAIN || cm != PLAIN {
        g.nontrivial();
    }
    p.adaptive = marg && g.chance(1, 3);
    p.alpha = gain(g);
    p.beta = gain(g);
    let mut h = p.make()?;
    let mut pc = p.clone();
    pc.gyr = if marg { Some(cg) } else { None };
    pc.acc = ca;
    pc.mag = cm;
    g.note(|| format!("{:?}", pc));
    // Not yet initialised: every accessor is refused.
    let mut f = es(Aqua::new(), "Aqua::new")?;
    ensure!(f.get_accelerometer_config().is_err() && f.get_magnetometer_config().is_err() && f.get_gyrometer_config().is_err(), "a configuration was read before initialisation");
    ensure!(f.set_accelerometer_config(&acc_cfg(&ca)).is_err() && f.set_magnetometer_config(&mag_cfg(&cm)).is_err() && f.set_gyrometer_config(&gyr_cfg(&cg)).is_err(), "a configuration was set before initialisation");
    es(pc.init(&mut f), "init")?;
    for _ in 0..1 + g.below(6) {
        if g.chance(1, 3) {
            let n = calib(g);
            match g.below(3) {
                0 => {
                    es(f.set_accelerometer_config(&acc_cfg(&n)), "set_accelerometer_config")?;
                    ca = n;
                }
                1 => {
                    es(f.set_magnetometer_config(&mag_cfg(&n)), "set_magnetometer_config")?;
                    cm = n;
                }
                _ => {
                    let r = f.set_gyrometer_config(&gyr_cfg(&n));
                    ensure!(r.is_ok() == marg, "setting the gyrometer configuration in {} mode: {:?}", if marg { "full-sensor" } else { "accelerometer/magnetometer" }, r);
                    if marg {
                        cg = n;
                    }
                }
            }
        }
        if g.chance(1, 8) {
            let mut n = calib(g);
            n[g.below(12) as usize] = nonfinite(g);
            let r = match g.below(3) {
                0 => f.set_accelerometer_config(&acc_cfg(&n)).is_ok(),
                1 => f.set_magnetometer_config(&mag_cfg(&n)).is_ok(),
                _ => f.set_gyrometer_config(&gyr_cfg(&n)).is_ok(),
            };
            ensure!(!r, "a non-finite configuration was accepted");
        }
        ensure!(f.get_accelerometer_config().map(|c| from_acc(&c)) == Ok(ca), "accelerometer configuration is not the one last accepted");
        ensure!(f.get_magnetometer_config().map(|c| from_mag(&c)) == Ok(cm), "magnetometer configuration is not the one last accepted");
        match f.get_gyrometer_config() {
            Ok(c) => ensure!(marg && from_gyr(&c) == cg, "gyrometer configuration is not the one last accepted"),
            Err(_) => ensure!(!marg, "gyrometer configuration refused"),
        }
        let ad = dir3(g);
        let md = field(g, &ad, 0.3);
        let (w, a, m) = (f3(&dir3(g), g.uniform(0.0, 5.0)), f3(&ad, 9.81), f3(&md, 48.0));
        let (hw, ha, hm) = (hand(&cg, &w), hand(&ca, &a), hand(&cm, &m));
        let (na, nm) = (norm(&d3(&ha)), norm(&d3(&hm)));
        let ang = angle3(&d3(&ha), &d3(&hm));
        if na < 1.0 || nm < 1.0 || ang < 0.18 || ang > PI - 0.18 {
            return Ok(());
        }
        if marg {
            // Any gain on the way: the branches of both corrections must be clear.
            let dev = (na / 9.81 - 1.0).abs();
            let part = if p.adaptive { ((0.2 - dev) / 0.1).clamp(0.0, 1.0) } else { 1.0 };
            let q = att_aq(&h)?;
            if marg_ref(&q, &d3(&hw), &d3(&ha), &d3(&hm), p.ts as f64, p.alpha as f64 * part, p.beta as f64, p.ta as f64, p.tm as f64).is_none() {
                return Ok(());
            }
        }
        g.note(|| format!("rate {:?} acceleration {:?} field {:?}", w, a, m));
        es(upd(&mut f, marg, &w, &a, &m), "update")?;
        es(upd(&mut h, marg, &hw, &ha, &hm), "update on corrected data")?;
        let (x, y) = (att_aq(&f)?, att_aq(&h)?);
        within!(qdist_pm(&x, &y), 1e-4, "calibrated filter {}, filter on corrected data {} (difference {:e})", qshow(&x), qshow(&y), qdist_pm(&x, &y));
    }
    Ok(())
}
