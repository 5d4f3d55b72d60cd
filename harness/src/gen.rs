//! Generators and adapters between the library's types and plain arrays.
use crate::engine::G;
use crate::refm::*;
use linalg::matrix::Matrix;
use linalg::vector::Vector;

pub fn nonfinite(g: &mut G) -> f32 {
    g.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::from_bits(0xffc0_0000), f32::from_bits(0x7fa0_0001)])
}

/// Moderate value: small integers, halves, uniform in [-10,10] or [-100,100], small magnitudes.
pub fn val(g: &mut G) -> f32 {
    match g.below(6) {
        0 => g.pick(&[0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0]),
        1 => (g.range(0, 18) - 9) as f32,
        2 => g.uniform(-1.0, 1.0) as f32,
        3 => g.uniform(-10.0, 10.0) as f32,
        4 => g.uniform(-100.0, 100.0) as f32,
        _ => {
            let e = g.pick(&[0, -1, -2, -3, -4, -5, 3, 4, 5, 6]);
            (g.uniform(-1.0, 1.0) * 10f64.powi(e)) as f32
        }
    }
}

/// Any finite value, with extreme magnitudes frequent.
pub fn any_finite(g: &mut G) -> f32 {
    match g.below(5) {
        0 => val(g),
        1 => g.pick(&[f32::MAX, -f32::MAX, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 1e-45, -1e-45, 0.0, -0.0, 1e19, -1e19, 1.8446743e19, 1e-20, 1e38, -1e38, 3.0e38]),
        2 => {
            let e = g.range(-40, 38);
            let m = g.uniform(-9.9, 9.9);
            let x = (m * 10f64.powi(e as i32)) as f32;
            if x.is_finite() { x } else { f32::MAX }
        }
        _ => {
            let x = f32::from_bits(g.bits());
            if x.is_finite() { x } else { f32::from_bits(x.to_bits() & 0x7f7f_ffff) }
        }
    }
}

/// Log-uniform positive magnitude.
pub fn logmag(g: &mut G, lo: f64, hi: f64) -> f64 {
    (g.uniform(lo.ln(), hi.ln())).exp()
}

pub fn dir3(g: &mut G) -> [f64; 3] {
    match g.below(4) {
        0 => {
            let mut v = [0.0; 3];
            let i = g.below(3) as usize;
            v[i] = if g.bool() { -1.0 } else { 1.0 };
            v
        }
        1 => {
            // Small integer directions.
            let v = [g.range(0, 4) as f64 - 2.0, g.range(0, 4) as f64 - 2.0, g.range(0, 4) as f64 - 2.0];
            if norm(&v) == 0.0 { [1.0, 0.0, 0.0] } else { unit3(&v) }
        }
        _ => {
            let z = g.uniform(-1.0, 1.0);
            let t = g.uniform(0.0, 2.0 * PI);
            let s = (1.0 - z * z).max(0.0).sqrt();
            [s * t.cos(), s * t.sin(), z]
        }
    }
}

/// Unit quaternion rounded to single precision, w >= 0 or any sign. Special attitudes are frequent.
pub fn unitq(g: &mut G) -> [f32; 4] {
    let q = match g.below(7) {
        0 => [1.0, 0.0, 0.0, 0.0],
        3 => {
            // Small whole components, among them every rotation of the cube.
            let mut q = [0.0; 4];
            for k in 0..4 {
                q[k] = g.pick(&[0.0, 1.0, -1.0]);
            }
            if q == [0.0; 4] {
                q[0] = 1.0;
            }
            q
        }
        1 => {
            // Axis quarter/half/eighth turns.
            let d = dir3(g);
            let k = g.below(8) as f64;
            let a = k * PI / 8.0;
            [a.cos(), a.sin() * d[0], a.sin() * d[1], a.sin() * d[2]]
        }
        2 => {
            // Small rotations.
            let d = dir3(g);
            let a = logmag(g, 1e-6, 0.1);
            [a.cos(), a.sin() * d[0], a.sin() * d[1], a.sin() * d[2]]
        }
        _ => {
            let u1 = g.unit();
            let (t1, t2) = (g.uniform(0.0, 2.0 * PI), g.uniform(0.0, 2.0 * PI));
            let (s1, s2) = ((1.0 - u1).sqrt(), u1.sqrt());
            [s2 * t2.cos(), s1 * t1.sin(), s1 * t1.cos(), s2 * t2.sin()]
        }
    };
    let s = if g.bool() { -1.0 } else { 1.0 };
    let q = [q[0] * s, q[1] * s, q[2] * s, q[3] * s];
    roundq(&qunit(&q))
}

/// Components far below single precision resolution are flushed so that "special" attitudes are exact.
pub fn roundq(q: &[f64; 4]) -> [f32; 4] {
    let f = |x: f64| if x.abs() < 1e-9 { 0.0 } else { x as f32 };
    [f(q[0]), f(q[1]), f(q[2]), f(q[3])]
}

pub fn q64(q: &[f32; 4]) -> [f64; 4] {
    [q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64]
}

// ---------------------------------------------------------------- adapters

pub fn mk(m: &M) -> Result<Matrix, String> {
    let mut x = Matrix::new();
    x.init(m.r as u8, m.c as u8).map_err(|e| format!("init({},{}) refused: {:?}", m.r, m.c, e))?;
    for i in 0..m.r {
        for j in 0..m.c {
            x.set_element(i as u8, j as u8, m.a[i][j] as f32).map_err(|e| format!("set_element({},{},{}) refused: {:?}", i, j, m.a[i][j], e))?;
        }
    }
    Ok(x)
}

pub fn rd(x: &Matrix) -> Result<M, String> {
    let r = x.get_rows().map_err(|e| format!("get_rows: {:?}", e))? as usize;
    let c = x.get_cols().map_err(|e| format!("get_cols: {:?}", e))? as usize;
    if r == 0 || c == 0 || r > 4 || c > 4 {
        return Err(format!("matrix reports size {}x{}", r, c));
    }
    let mut m = M::zero(r, c);
    for i in 0..r {
        for j in 0..c {
            m.a[i][j] = x.get_element(i as u8, j as u8).map_err(|e| format!("get_element({},{}): {:?}", i, j, e))? as f64;
        }
    }
    Ok(m)
}

pub fn mkv(v: &[f32]) -> Result<Vector<f32>, String> {
    let mut x: Vector<f32> = Vector::new();
    x.init(v.len() as u8).map_err(|e| format!("vector init({}) refused: {:?}", v.len(), e))?;
    for (i, &e) in v.iter().enumerate() {
        x.set_element(i as u8, e).map_err(|er| format!("vector set_element({},{}) refused: {:?}", i, e, er))?;
    }
    Ok(x)
}

pub fn rdv(x: &Vector<f32>) -> Result<Vec<f32>, String> {
    let n = x.get_rows().map_err(|e| format!("vector get_rows: {:?}", e))?;
    (0..n).map(|i| x.get_element(i).map_err(|e| format!("vector get_element({}): {:?}", i, e))).collect()
}

pub fn rdq(x: &Vector<f32>) -> Result<[f64; 4], String> {
    let v = rdv(x)?;
    if v.len() != 4 {
        return Err(format!("quaternion of length {}", v.len()));
    }
    Ok([v[0] as f64, v[1] as f64, v[2] as f64, v[3] as f64])
}

/// Bit-exact snapshot of a matrix (None when not initialised).
pub type MSnap = Option<(u8, u8, Vec<u32>)>;
pub fn snapm(x: &Matrix) -> MSnap {
    if !x.is_initialized() {
        return None;
    }
    let (r, c) = (x.get_rows().unwrap_or(0), x.get_cols().unwrap_or(0));
    let mut v = Vec::new();
    for i in 0..r {
        for j in 0..c {
            v.push(x.get_element(i, j).map(|e| e.to_bits()).unwrap_or(0xffff_ffff));
        }
    }
    Some((r, c, v))
}
pub type VSnap = Option<(u8, Vec<u32>)>;
pub fn snapv(x: &Vector<f32>) -> VSnap {
    if !x.is_initialized() {
        return None;
    }
    let r = x.get_rows().unwrap_or(0);
    Some((r, (0..r).map(|i| x.get_element(i).map(|e| e.to_bits()).unwrap_or(0xffff_ffff)).collect()))
}

pub fn es<T, E: std::fmt::Debug>(r: Result<T, E>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{} refused: {:?}", what, e))
}

/// Random matrix with independent moderate elements.
pub fn randm(g: &mut G, r: usize, c: usize) -> M {
    let mut m = M::zero(r, c);
    for i in 0..r {
        for j in 0..c {
            m.a[i][j] = val(g) as f64;
        }
    }
    m
}

/// Random orthogonal matrix (determinant of either sign), double precision.
pub fn rando(g: &mut G, n: usize) -> M {
    let mut q = M::eye(n);
    // Product of plane rotations and a signed permutation.
    for i in 0..n {
        for j in (i + 1)..n {
            let t = match g.below(4) {
                0 => 0.0,
                1 => PI / 2.0 * g.below(4) as f64,
                _ => g.uniform(0.0, 2.0 * PI),
            };
            let mut r = M::eye(n);
            r.a[i][i] = t.cos();
            r.a[j][j] = t.cos();
            r.a[i][j] = -t.sin();
            r.a[j][i] = t.sin();
            q = q.mul(&r);
        }
    }
    if g.bool() {
        let i = g.below(n as u32) as usize;
        for k in 0..n {
            q.a[k][i] = -q.a[k][i];
        }
    }
    q
}

/// Random row permutation.
pub fn perm(g: &mut G, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in 0..n {
        let j = i + g.below((n - i) as u32) as usize;
        p.swap(i, j);
    }
    p
}

/// Square matrix with smallest singular value >= smin and largest <= smax, rounded to single precision.
pub fn well_conditioned(g: &mut G, n: usize, smin: f64, smax: f64) -> M {
    let kind = g.below(5);
    let mut m = match kind {
        0 => {
            // Signed scaled permutation: forces row exchanges and sign bookkeeping.
            let p = perm(g, n);
            let mut m = M::zero(n, n);
            for i in 0..n {
                let s = if g.bool() { -1.0 } else { 1.0 };
                m.a[i][p[i]] = s * g.uniform(smin, smax);
            }
            m
        }
        1 => {
            // Integer matrix; accepted when well-conditioned, otherwise made dominant with permuted rows.
            let mut m = M::zero(n, n);
            for i in 0..n {
                for j in 0..n {
                    m.a[i][j] = g.range(0, 10) as f64 - 5.0;
                }
            }
            if m.sigma_min() < 0.3 {
                for i in 0..n {
                    let s: f64 = (0..n).map(|j| m.a[i][j].abs()).sum();
                    m.a[i][i] = if m.a[i][i] < 0.0 { -s - 1.0 } else { s + 1.0 };
                }
                let p = perm(g, n);
                let b = m.clone();
                for i in 0..n {
                    m.a[i] = b.a[p[i]];
                }
            }
            m
        }
        2 => {
            // Permuted dominant.
            let mut m = M::zero(n, n);
            for i in 0..n {
                for j in 0..n {
                    m.a[i][j] = g.uniform(-1.0, 1.0);
                }
                let s = if g.bool() { -1.0 } else { 1.0 };
                m.a[i][i] = s * (n as f64 + g.uniform(0.0, 2.0));
            }
            let p = perm(g, n);
            let b = m.clone();
            for i in 0..n {
                m.a[i] = b.a[p[i]];
            }
            m
        }
        _ => {
            let u = rando(g, n);
            let v = rando(g, n);
            let mut d = M::zero(n, n);
            for i in 0..n {
                d.a[i][i] = logmag(g, smin, smax);
            }
            u.mul(&d).mul(&v)
        }
    };
    m.round32();
    if m.sigma_min() < smin * 0.99 {
        // Rare (rounding or an integer accident): fall back to a dominant diagonal.
        for i in 0..n {
            let s: f64 = (0..n).map(|j| m.a[i][j].abs()).sum();
            m.a[i][i] = s + 1.0;
        }
        m.round32();
    }
    m
}

/// Singular (exactly, in single precision) square matrix with small integer elements.
pub fn singular(g: &mut G, n: usize) -> M {
    let mut m = M::zero(n, n);
    for i in 0..n {
        for j in 0..n {
            m.a[i][j] = g.range(0, 8) as f64 - 4.0;
        }
    }
    let k = g.below(n as u32) as usize;
    match g.below(4) {
        0 => (0..n).for_each(|j| m.a[k][j] = 0.0),
        1 => (0..n).for_each(|j| m.a[j][k] = 0.0),
        2 if n > 1 => {
            let l = (k + 1 + g.below(n as u32 - 1) as usize) % n;
            let s = g.pick(&[1.0, -1.0, 2.0]);
            (0..n).for_each(|j| m.a[k][j] = s * m.a[l][j]);
        }
        _ if n > 1 => {
            let l = (k + 1 + g.below(n as u32 - 1) as usize) % n;
            let s = g.pick(&[1.0, -1.0, 2.0]);
            (0..n).for_each(|j| m.a[j][k] = s * m.a[j][l]);
        }
        _ => m.a[0][0] = 0.0,
    }
    m
}
