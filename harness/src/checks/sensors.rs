//! C22, C23: the three sensors.
use crate::engine::{Prop, G, R};
use crate::{ensure, within};
use crate::gen::*;
use crate::refm::*;
use open_ahrs::accelerometer::{Accelerometer, AccelerometerConfig};
use open_ahrs::gyrometer::{Gyrometer, GyrometerConfig};
use open_ahrs::magnetometer::{Magnetometer, MagnetometerConfig};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C22",
        quick: 7_200_000,
        thorough: 72_000_000,
        rule: "some coupling factor and some bias are not zero",
        assumptions: &["raw readings and factors keep the corrected reading representable"],
        run: c22,
    });
    v.push(Prop {
        id: "C23",
        quick: 7_200_000,
        thorough: 72_000_000,
        rule: "the history contains a refused call after an accepted initialisation",
        assumptions: &["a reading that overflows may be refused; if it is, nothing changes"],
        run: c23,
    });
}

/// Scales x,y,z; couplings xy,xz,yx,yz,zx,zy; biases x,y,z.
pub type Cfg = [f32; 12];
pub const PLAIN: Cfg = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];

macro_rules! am_conv {
    ($to:ident, $from:ident, $ty:ident) => {
        pub fn $to(c: &Cfg) -> $ty {
            $ty {
                x_axis_scale_correction: c[0],
                y_axis_scale_correction: c[1],
                z_axis_scale_correction: c[2],
                xy_axes_misalignment_correction: c[3],
                xz_axes_misalignment_correction: c[4],
                yx_axes_misalignment_correction: c[5],
                yz_axes_misalignment_correction: c[6],
                zx_axes_misalignment_correction: c[7],
                zy_axes_misalignment_correction: c[8],
                x_axis_static_bias: c[9],
                y_axis_static_bias: c[10],
                z_axis_static_bias: c[11],
            }
        }
        pub fn $from(c: &$ty) -> Cfg {
            [
                c.x_axis_scale_correction,
                c.y_axis_scale_correction,
                c.z_axis_scale_correction,
                c.xy_axes_misalignment_correction,
                c.xz_axes_misalignment_correction,
                c.yx_axes_misalignment_correction,
                c.yz_axes_misalignment_correction,
                c.zx_axes_misalignment_correction,
                c.zy_axes_misalignment_correction,
                c.x_axis_static_bias,
                c.y_axis_static_bias,
                c.z_axis_static_bias,
            ]
        }
    };
}
am_conv!(gyr_cfg, from_gyr, GyrometerConfig);
am_conv!(acc_cfg, from_acc, AccelerometerConfig);
pub fn mag_cfg(c: &Cfg) -> MagnetometerConfig {
    MagnetometerConfig {
        x_axis_scale_correction: c[0],
        y_axis_scale_correction: c[1],
        z_axis_scale_correction: c[2],
        xy_soft_iron_correction: c[3],
        xz_soft_iron_correction: c[4],
        yx_soft_iron_correction: c[5],
        yz_soft_iron_correction: c[6],
        zx_soft_iron_correction: c[7],
        zy_soft_iron_correction: c[8],
        x_axis_hard_iron_bias: c[9],
        y_axis_hard_iron_bias: c[10],
        z_axis_hard_iron_bias: c[11],
    }
}
pub fn from_mag(c: &MagnetometerConfig) -> Cfg {
    [
        c.x_axis_scale_correction,
        c.y_axis_scale_correction,
        c.z_axis_scale_correction,
        c.xy_soft_iron_correction,
        c.xz_soft_iron_correction,
        c.yx_soft_iron_correction,
        c.yz_soft_iron_correction,
        c.zx_soft_iron_correction,
        c.zy_soft_iron_correction,
        c.x_axis_hard_iron_bias,
        c.y_axis_hard_iron_bias,
        c.z_axis_hard_iron_bias,
    ]
}

pub enum Sensor {
    G(Gyrometer),
    A(Accelerometer),
    M(Magnetometer),
}
impl Sensor {
    pub fn new(k: u32) -> Result<Sensor, String> {
        Ok(match k {
            0 => Sensor::G(es(Gyrometer::new(), "Gyrometer::new")?),
            1 => Sensor::A(es(Accelerometer::new(), "Accelerometer::new")?),
            _ => Sensor::M(es(Magnetometer::new(), "Magnetometer::new")?),
        })
    }
    pub fn init(&mut self, c: &Cfg) -> bool {
        match self {
            Sensor::G(s) => s.init(&gyr_cfg(c)).is_ok(),
            Sensor::A(s) => s.init(&acc_cfg(c)).is_ok(),
            Sensor::M(s) => s.init(&mag_cfg(c)).is_ok(),
        }
    }
    pub fn set(&mut self, c: &Cfg) -> bool {
        match self {
            Sensor::G(s) => s.set_config(&gyr_cfg(c)).is_ok(),
            Sensor::A(s) => s.set_config(&acc_cfg(c)).is_ok(),
            Sensor::M(s) => s.set_config(&mag_cfg(c)).is_ok(),
        }
    }
    pub fn get(&mut self) -> Option<Cfg> {
        match self {
            Sensor::G(s) => s.get_config().ok().map(|c| from_gyr(&c)),
            Sensor::A(s) => s.get_config().ok().map(|c| from_acc(&c)),
            Sensor::M(s) => s.get_config().ok().map(|c| from_mag(&c)),
        }
    }
    pub fn update(&mut self, r: &[f32; 3]) -> bool {
        match self {
            Sensor::G(s) => s.update(r[0], r[1], r[2]).is_ok(),
            Sensor::A(s) => s.update(r[0], r[1], r[2]).is_ok(),
            Sensor::M(s) => s.update(r[0], r[1], r[2]).is_ok(),
        }
    }
    pub fn read(&self) -> [Option<f32>; 3] {
        match self {
            Sensor::G(s) => [s.get_x_angular_rate().ok(), s.get_y_angular_rate().ok(), s.get_z_angular_rate().ok()],
            Sensor::A(s) => [s.get_x_acceleration().ok(), s.get_y_acceleration().ok(), s.get_z_acceleration().ok()],
            Sensor::M(s) => [s.get_x_magnetic_field().ok(), s.get_y_magnetic_field().ok(), s.get_z_magnetic_field().ok()],
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Sensor::G(_) => "gyrometer",
            Sensor::A(_) => "accelerometer",
            Sensor::M(_) => "magnetometer",
        }
    }
}

/// The correction as stated: factor ab couples axis a into axis b.
pub fn correct(c: &Cfg, raw: &[f32; 3]) -> ([f64; 3], [f64; 3]) {
    let c: Vec<f64> = c.iter().map(|&x| x as f64).collect();
    let d: Vec<f64> = (0..3).map(|i| raw[i] as f64 - c[9 + i]).collect();
    let m = [[c[0], c[5], c[7]], [c[3], c[1], c[8]], [c[4], c[6], c[2]]];
    let mut w = [0.0; 3];
    let mut s = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            w[i] += m[i][j] * d[j];
            s[i] += m[i][j].abs() * (raw[j].abs() as f64 + c[9 + j].abs());
        }
    }
    (w, s)
}

/// Calibration: sparse or dense, from mild to wild.
pub fn cfg(g: &mut G) -> Cfg {
    let mut c = PLAIN;
    match g.below(5) {
        0 => {}
        1 => {
            // One factor only.
            let k = g.below(12) as usize;
            c[k] = g.pick(&[0.5, -1.0, 2.0, 0.25, 3.0]);
        }
        2 => {
            // All factors different.
            for k in 0..12 {
                c[k] = (k as f32 + 1.0) * g.pick(&[1.0, -1.0, 0.5]);
            }
        }
        3 => {
            for k in 0..3 {
                c[k] = g.uniform(0.5, 2.0) as f32;
            }
            for k in 3..9 {
                c[k] = g.uniform(-0.3, 0.3) as f32;
            }
            for k in 9..12 {
                c[k] = g.uniform(-5.0, 5.0) as f32;
            }
        }
        _ => {
            for k in 0..12 {
                c[k] = if g.chance(1, 8) { g.pick(&[1e-6, -1e-6, 3e4, -3e4]) } else { val(g) };
            }
        }
    }
    c
}

/// A value of any magnitude for which the correction stays representable.
fn wide(g: &mut G) -> f32 {
    let m = logmag(g, 1e-12, 1e25) as f32;
    if g.bool() { m } else { -m }
}

fn raw(g: &mut G) -> [f32; 3] {
    match g.below(5) {
        0 => {
            let mut r = [0.0; 3];
            r[g.below(3) as usize] = g.pick(&[1.0, -1.0, 2.0]);
            r
        }
        1 => [1.0, 2.0, 4.0],
        2 => [wide(g), wide(g), wide(g)],
        _ => [val(g), val(g), val(g)],
    }
}

fn close(got: &[Option<f32>; 3], c: &Cfg, r: &[f32; 3], who: &str) -> R {
    let (w, s) = correct(c, r);
    for i in 0..3 {
        match got[i] {
            Some(x) => within!((x as f64 - w[i]).abs(), 4.0 * EPS32 * s[i] + 1e-37, "{}: axis {} reads {:?} for raw {:?} with configuration {:?}, expected {}", who, i, x, r, c, w[i]),
            None => return Err(format!("{}: axis {} refused", who, i)),
        }
    }
    Ok(())
}

fn c22(g: &mut G) -> R {
    let k = g.below(3);
    let mut s = Sensor::new(k)?;
    let who = s.name();
    let mut c = cfg(g);
    if c[3..9].iter().any(|x| *x != 0.0) || c[9..].iter().any(|x| *x != 0.0) {
        g.nontrivial();
    }
    g.note(|| format!("{} {:?}", who, c));
    ensure!(s.init(&c), "{} refused configuration {:?}", who, c);
    let steps = 1 + g.below(6);
    let mut last: Option<[f32; 3]> = None;
    for _ in 0..steps {
        if g.chance(1, 3) {
            c = cfg(g);
            let before = s.read();
            ensure!(s.set(&c), "{} refused configuration {:?}", who, c);
            if last.is_some() {
                ensure!(s.read() == before, "{}: a new configuration changed the last reading", who);
            }
        }
        ensure!(s.get() == Some(c), "{}: configuration reads back {:?}, expected {:?}", who, s.get(), c);
        let r = raw(g);
        g.note(|| format!("raw {:?}", r));
        ensure!(s.update(&r), "{} refused reading {:?}", who, r);
        last = Some(r);
        close(&s.read(), &c, &r, who)?;
        ensure!(s.get() == Some(c), "{}: an update changed the configuration to {:?} from {:?}", who, s.get(), c);
    }
    // The default configuration is transparent.
    let mut d = Sensor::new(k)?;
    let dc = match k {
        0 => from_gyr(&GyrometerConfig::default()),
        1 => from_acc(&AccelerometerConfig::default()),
        _ => from_mag(&MagnetometerConfig::default()),
    };
    ensure!(d.init(&dc), "{} refused the default configuration", who);
    let r = raw(g);
    ensure!(d.update(&r), "{} refused reading {:?}", who, r);
    let got = d.read();
    for i in 0..3 {
        ensure!(got[i].map(|x| (x - r[i]).abs() as f64 <= EPS32 * r[i].abs() as f64) == Some(true), "{}: default configuration reads {:?} for {:?}", who, got, r);
    }
    Ok(())
}

fn c23(g: &mut G) -> R {
    let k = g.below(3);
    let mut s = Sensor::new(k)?;
    let who = s.name();
    let mut conf: Option<Cfg> = None;
    let mut reading: [Option<f32>; 3] = [None; 3];
    let mut bits_known = false;
    let steps = 1 + g.below(12);
    let mut refused = false;
    let early = g.chance(2, 3);
    for i in 0..steps {
        let op = if early && i == 0 { 0 } else { g.below(4) };
        let bad = !(early && i == 0) && g.chance(1, 3);
        match op {
            0 | 1 => {
                let mut c = cfg(g);
                if bad {
                    let i = g.below(12) as usize;
                    c[i] = nonfinite(g);
                }
                let init = op == 0;
                g.note(|| format!("{} {:?}", if init { "init" } else { "set_config" }, c));
                let ok = if init { s.init(&c) } else { s.set(&c) };
                let want = !bad && (init != conf.is_some());
                ensure!(ok == want, "{}: {} with {:?} {}", who, if init { "init" } else { "set_config" }, c, if ok { "accepted" } else { "refused" });
                if ok {
                    conf = Some(c);
                } else if conf.is_some() {
                    refused = true;
                }
                if ok && init {
                    reading = s.read();
                    ensure!(reading == [Some(0.0); 3], "{} reads {:?} before its first update", who, reading);
                    bits_known = true;
                }
            }
            2 | 3 => {
                let mut r = raw(g);
                let big = !bad && g.chance(1, 8);
                if bad {
                    let i = g.below(3) as usize;
                    r[i] = nonfinite(g);
                }
                if big {
                    let i = g.below(3) as usize;
                    r[i] = g.pick(&[3e38, -3e38, 2e38]);
                }
                g.note(|| format!("update {:?}", r));
                let ok = s.update(&r);
                if bad || conf.is_none() {
                    ensure!(!ok, "{} accepted reading {:?}", who, r);
                } else if !big {
                    ensure!(ok, "{} refused reading {:?}", who, r);
                }
                match (ok, &conf) {
                    (true, Some(c)) => {
                        if !big {
                            close(&s.read(), c, &r, who)?;
                        }
                        reading = s.read();
                        ensure!(reading.iter().all(|x| x.map(|v| v.is_finite()) == Some(true)), "{} reads {:?}", who, reading);
                    }
                    _ => {
                        if conf.is_some() {
                            refused = true;
                        }
                    }
                }
            }
            _ => {}
        }
        // State after every call.
        match &conf {
            None => {
                ensure!(s.get().is_none(), "{} returned a configuration before initialisation", who);
                ensure!(s.read() == [None; 3], "{} returned a reading before initialisation", who);
            }
            Some(c) => {
                ensure!(s.get() == Some(*c), "{}: configuration is {:?}, last accepted {:?}", who, s.get(), c);
                if bits_known {
                    let got = s.read();
                    ensure!(got == reading, "{}: reading is {:?}, last accepted {:?}", who, got, reading);
                }
            }
        }
    }
    if refused {
        g.nontrivial();
    }
    Ok(())
}
