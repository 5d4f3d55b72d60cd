//! Double-precision reference mathematics, written independently of the library.
pub const PI: f64 = std::f64::consts::PI;
pub const EPS32: f64 = 1.1920929e-7;
/// The library's tolerance.
pub const TOL: f64 = 1e-4;

#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub r: usize,
    pub c: usize,
    pub a: [[f64; 4]; 4],
}

impl M {
    pub fn zero(r: usize, c: usize) -> M {
        M { r, c, a: [[0.0; 4]; 4] }
    }
    pub fn eye(n: usize) -> M {
        let mut m = M::zero(n, n);
        for i in 0..n {
            m.a[i][i] = 1.0;
        }
        m
    }
    pub fn mul(&self, o: &M) -> M {
        assert_eq!(self.c, o.r);
        let mut m = M::zero(self.r, o.c);
        for i in 0..self.r {
            for j in 0..o.c {
                m.a[i][j] = (0..self.c).map(|k| self.a[i][k] * o.a[k][j]).sum();
            }
        }
        m
    }
    pub fn map2(&self, o: &M, f: impl Fn(f64, f64) -> f64) -> M {
        let mut m = M::zero(self.r, self.c);
        for i in 0..self.r {
            for j in 0..self.c {
                m.a[i][j] = f(self.a[i][j], o.a[i][j]);
            }
        }
        m
    }
    pub fn map(&self, f: impl Fn(f64) -> f64) -> M {
        self.map2(self, |x, _| f(x))
    }
    pub fn t(&self) -> M {
        let mut m = M::zero(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.a[j][i] = self.a[i][j];
            }
        }
        m
    }
    pub fn abs(&self) -> M {
        self.map(f64::abs)
    }
    pub fn maxabs(&self) -> f64 {
        let mut x: f64 = 0.0;
        for i in 0..self.r {
            for j in 0..self.c {
                x = x.max(self.a[i][j].abs());
            }
        }
        x
    }
    pub fn fro(&self) -> f64 {
        let mut x = 0.0;
        for i in 0..self.r {
            for j in 0..self.c {
                x += self.a[i][j] * self.a[i][j];
            }
        }
        x.sqrt()
    }
    pub fn dist(&self, o: &M) -> f64 {
        if self.r != o.r || self.c != o.c {
            return f64::INFINITY;
        }
        let mut x: f64 = 0.0;
        for i in 0..self.r {
            for j in 0..self.c {
                let d = (self.a[i][j] - o.a[i][j]).abs();
                if !(d <= x) {
                    x = d;
                }
                if d.is_nan() {
                    return f64::INFINITY;
                }
            }
        }
        x
    }
    pub fn round32(&mut self) {
        for i in 0..4 {
            for j in 0..4 {
                let x = self.a[i][j];
                self.a[i][j] = if x.abs() < 1e-12 { 0.0 } else { x as f32 as f64 };
            }
        }
    }
    /// Determinant by cofactor expansion (no pivoting decisions to share with the library).
    pub fn det(&self) -> f64 {
        fn rec(m: &M, row: usize, used: usize) -> f64 {
            if row == m.r {
                return 1.0;
            }
            let mut s = 0.0;
            let mut sign = 1.0;
            for j in 0..m.c {
                if used & (1 << j) == 0 {
                    s += sign * m.a[row][j] * rec(m, row + 1, used | (1 << j));
                    sign = -sign;
                }
            }
            s
        }
        rec(self, 0, 0)
    }
    /// Sum over permutations of the absolute products: the scale of rounding errors in a determinant.
    pub fn permanent_abs(&self) -> f64 {
        fn rec(m: &M, row: usize, used: usize) -> f64 {
            if row == m.r {
                return 1.0;
            }
            (0..m.c).filter(|j| used & (1 << j) == 0).map(|j| m.a[row][j].abs() * rec(m, row + 1, used | (1 << j))).sum()
        }
        rec(self, 0, 0)
    }
    /// Symmetric eigenvalues by Jacobi rotations, ascending.
    pub fn sym_eigs(&self) -> Vec<f64> {
        let n = self.r;
        let mut a = self.clone();
        for _ in 0..60 {
            let mut off = 0.0;
            for p in 0..n {
                for q in (p + 1)..n {
                    off += a.a[p][q] * a.a[p][q];
                    if a.a[p][q].abs() < 1e-300 {
                        continue;
                    }
                    let th = (a.a[q][q] - a.a[p][p]) / (2.0 * a.a[p][q]);
                    let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                    let t = if th == 0.0 { 1.0 } else { t };
                    let c = 1.0 / (t * t + 1.0).sqrt();
                    let s = t * c;
                    for k in 0..n {
                        let (x, y) = (a.a[k][p], a.a[k][q]);
                        a.a[k][p] = c * x - s * y;
                        a.a[k][q] = s * x + c * y;
                    }
                    for k in 0..n {
                        let (x, y) = (a.a[p][k], a.a[q][k]);
                        a.a[p][k] = c * x - s * y;
                        a.a[q][k] = s * x + c * y;
                    }
                }
            }
            if off < 1e-30 {
                break;
            }
        }
        let mut v: Vec<f64> = (0..n).map(|i| a.a[i][i]).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    }
    pub fn sigma(&self) -> (f64, f64) {
        let e = self.t().mul(self).sym_eigs();
        (e[0].max(0.0).sqrt(), e[e.len() - 1].max(0.0).sqrt())
    }
    pub fn sigma_min(&self) -> f64 {
        self.sigma().0
    }
    pub fn show(&self) -> String {
        let rows: Vec<String> = (0..self.r).map(|i| format!("[{}]", (0..self.c).map(|j| format!("{:?}", self.a[i][j] as f32)).collect::<Vec<_>>().join(", "))).collect();
        format!("[{}]", rows.join(", "))
    }
}

pub fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn unit3(v: &[f64; 3]) -> [f64; 3] {
    let n = norm(v);
    [v[0] / n, v[1] / n, v[2] / n]
}
pub fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn angle3(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    norm(&cross(a, b)).atan2(dot(a, b))
}

// ---------------------------------------------------------------- quaternions (w, x, y, z)

pub type Q = [f64; 4];
pub fn qmul(a: &Q, b: &Q) -> Q {
    let (av, bv) = ([a[1], a[2], a[3]], [b[1], b[2], b[3]]);
    let c = cross(&av, &bv);
    [a[0] * b[0] - dot(&av, &bv), a[0] * b[1] + b[0] * a[1] + c[0], a[0] * b[2] + b[0] * a[2] + c[1], a[0] * b[3] + b[0] * a[3] + c[2]]
}
pub fn qconj(a: &Q) -> Q {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn qunit(a: &Q) -> Q {
    let n = norm(a);
    [a[0] / n, a[1] / n, a[2] / n, a[3] / n]
}
pub fn qneg(a: &Q) -> Q {
    [-a[0], -a[1], -a[2], -a[3]]
}
pub fn qdist(a: &Q, b: &Q) -> f64 {
    let mut m: f64 = 0.0;
    for i in 0..4 {
        let d = (a[i] - b[i]).abs();
        if d.is_nan() {
            return f64::INFINITY;
        }
        m = m.max(d);
    }
    m
}
/// Distance up to overall sign.
pub fn qdist_pm(a: &Q, b: &Q) -> f64 {
    qdist(a, b).min(qdist(a, &qneg(b)))
}
pub fn axang(axis: &[f64; 3], ang: f64) -> Q {
    let (s, c) = (ang / 2.0).sin_cos();
    [c, s * axis[0], s * axis[1], s * axis[2]]
}
/// v -> q v q*.
pub fn qrot(q: &Q, v: &[f64; 3]) -> [f64; 3] {
    let r = qmul(&qmul(q, &[0.0, v[0], v[1], v[2]]), &qconj(q));
    [r[1], r[2], r[3]]
}
/// Matrix of v -> q v q*.
pub fn qdcm(q: &Q) -> M {
    let mut m = M::zero(3, 3);
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let c = qrot(q, &e);
        for i in 0..3 {
            m.a[i][j] = c[i];
        }
    }
    m
}
pub fn qexp(q: &Q) -> Q {
    let n = norm(&q[1..]);
    let e = q[0].exp();
    let s = if n < 1e-12 { 1.0 } else { n.sin() / n };
    [e * n.cos(), e * s * q[1], e * s * q[2], e * s * q[3]]
}
/// Rotation by the vector rate*dt, expressed in the moving frame.
pub fn qstep(w: &[f64; 3], dt: f64) -> Q {
    qexp(&[0.0, 0.5 * dt * w[0], 0.5 * dt * w[1], 0.5 * dt * w[2]])
}
pub fn qshow(q: &Q) -> String {
    format!("({:?}, {:?}, {:?}, {:?})", q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32)
}
