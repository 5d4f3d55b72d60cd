//! C07-C15: determinants, inverses, factorisations, predicates, logarithm, interpolation.
use crate::engine::{Prop, G, R};
use crate::{ensure, within};
use crate::gen::*;
use crate::refm::*;
use linalg::linalg::{eigen, lup, solve};
use linalg::vector::Vector;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C07",
        quick: 10_800_000,
        thorough: 108_000_000,
        rule: "the matrix is at least 2x2",
        assumptions: &["every elimination pivot of a non-singular case is at least 1.1 tolerances (less what rounding can take from it) and 200 units in the last place of the largest element met"],
        run: c07,
    });
    v.push(Prop {
        id: "C08",
        quick: 7_200_000,
        thorough: 72_000_000,
        rule: "the matrix is at least 2x2",
        assumptions: &["every elimination pivot of a non-singular case is at least 1.1 tolerances (less what rounding can take from it) and 200 units in the last place of the largest element met", "singular cases have small integer elements so that singularity is exact"],
        run: c08,
    });
    v.push(Prop {
        id: "C09",
        quick: 9_000_000,
        thorough: 90_000_000,
        rule: "the matrix is at least 2x2",
        assumptions: &["success is required when all exact pivots are at least 1.1 tolerances after what rounding can take from them"],
        run: c09,
    });
    v.push(Prop {
        id: "C10",
        quick: 7_200_000,
        thorough: 72_000_000,
        rule: "the matrix is at least 2x2",
        assumptions: &["clearly definite: eigenvalues in [0.02,1000] with ratio at most 500", "clearly indefinite: smallest eigenvalue at most -5% of the largest magnitude"],
        run: c10,
    });
    v.push(Prop {
        id: "C11",
        quick: 7_200_000,
        thorough: 72_000_000,
        rule: "the matrix has at least two columns",
        assumptions: &["full-rank cases have condition number at most 100000; rank-deficient cases have integer elements of magnitude at most 200"],
        run: c11,
    });
    v.push(Prop {
        id: "C12",
        quick: 1_440_000,
        thorough: 14_400_000,
        rule: "the matrix is at least 2x2 and not diagonal",
        assumptions: &["success is required of the plain iteration for eigenvalue magnitude ratios at most 0.9 and 1000 iterations"],
        run: c12,
    });
    v.push(Prop {
        id: "C13",
        quick: 14_400_000,
        thorough: 144_000_000,
        rule: "one element decides the answer, or the matrix is at least 2x2",
        assumptions: &["deviations within 50% of the tolerance are not generated, or not judged; for orthogonality, between 80% and 130% of it"],
        run: c13,
    });
    v.push(Prop {
        id: "C14",
        quick: 3_600_000,
        thorough: 108_000_000,
        rule: "the rotation angle is not zero",
        assumptions: &["rotation angle at most pi - 0.05"],
        run: c14,
    });
    v.push(Prop {
        id: "C15",
        quick: 14_400_000,
        thorough: 144_000_000,
        rule: "the fraction is not an end point or it must be refused",
        assumptions: &["the end vectors are not within 0.01 rad of opposite; the closer they are to it, the larger the tolerance"],
        run: c15,
    });
}

fn cofactor_sum(m: &M) -> f64 {
    if m.r == 1 {
        return 1.0;
    }
    let mut s = 0.0;
    for i in 0..m.r {
        for j in 0..m.c {
            let mut n = M::zero(m.r - 1, m.c - 1);
            for a in 0..m.r - 1 {
                for b in 0..m.c - 1 {
                    n.a[a][b] = m.a[a + (a >= i) as usize][b + (b >= j) as usize];
                }
            }
            s += n.det().abs();
        }
    }
    s
}

/// Elimination in double precision: smallest pivot less what single-precision rounding can take
/// from it, and largest term met. With row exchanges, over every choice among candidate pivot rows
/// that rounding might exchange.
fn pivots(m: &M, exchange: bool) -> (f64, f64) {
    fn step(a: &M, e: &M, k: usize, exchange: bool, lo: f64, hi: f64) -> (f64, f64) {
        let n = a.r;
        if k == n {
            return (lo, hi);
        }
        let top = (k..n).map(|i| a.a[i][k].abs() - e.a[i][k]).fold(0.0, f64::max);
        let (mut l, mut h) = (f64::INFINITY, hi);
        for p in k..n {
            if p != k && !exchange || exchange && a.a[p][k].abs() + e.a[p][k] < top {
                continue;
            }
            let (mut a, mut e) = (a.clone(), e.clone());
            a.a.swap(k, p);
            e.a.swap(k, p);
            let (piv, pe) = (a.a[k][k], e.a[k][k]);
            if piv.abs() <= 2.0 * pe || piv.abs() < 1e-30 {
                return (0.0, hi);
            }
            let mut big = hi;
            for i in k + 1..n {
                let f = a.a[i][k] / piv;
                let fe = (e.a[i][k] + f.abs() * pe) / (piv.abs() - pe) + EPS32 * f.abs();
                for j in k..n {
                    let t = f * a.a[k][j];
                    e.a[i][j] += f.abs() * e.a[k][j] + fe * (a.a[k][j].abs() + e.a[k][j]) + 2.0 * EPS32 * (t.abs() + a.a[i][j].abs());
                    a.a[i][j] -= t;
                    big = big.max(t.abs()).max(a.a[i][j].abs());
                }
            }
            let (x, y) = step(&a, &e, k + 1, exchange, lo.min(piv.abs() - pe), big);
            l = l.min(x);
            h = h.max(y);
        }
        (l, h)
    }
    step(m, &M::zero(m.r, m.c), 0, exchange, f64::INFINITY, m.maxabs())
}

/// Non-singular matrix whose rows and columns may differ in scale by several decades; every
/// elimination pivot is at least 1.1 tolerances and clear of rounding.
fn regular(g: &mut G, n: usize) -> M {
    let smin = g.pick(&[0.05, 0.05, 0.005]);
    let base = well_conditioned(g, n, smin, 20.0);
    let mut m = base.clone();
    if g.chance(1, 2) {
        let rows = g.bool();
        for i in 0..n {
            let k = (g.range(0, 16) as f64 - 4.0).exp2();
            for j in 0..n {
                if rows {
                    m.a[i][j] *= k;
                } else {
                    m.a[j][i] *= k;
                }
            }
        }
    } else if g.chance(1, 4) {
        // One dominating element.
        let (i, j) = (g.below(n as u32) as usize, g.below(n as u32) as usize);
        m.a[i][j] = (if g.bool() { -1.0 } else { 1.0 }) * logmag(g, 10.0, 1e5);
    }
    m.round32();
    let (mut lo, mut hi) = pivots(&m, true);
    if lo >= 200.0 * EPS32 * hi {
        let floor = 1.1 * TOL;
        // Pivots just above the tolerance.
        let close = g.chance(1, 4);
        while close && lo >= 2.0 * floor {
            (m, lo, hi) = (m.map(|x| x * 0.5), lo * 0.5, hi * 0.5);
        }
        while lo < floor {
            (m, lo, hi) = (m.map(|x| x * 2.0), lo * 2.0, hi * 2.0);
        }
        // All elements large, the determinant still representable.
        if !close && g.chance(1, 6) {
            let room = (10f64.powf(30.0 / n as f64) / hi).log2().floor().max(0.0);
            let k = (room * g.unit()).floor().exp2();
            m = m.map(|x| x * k);
        }
        g.class(if close { "close to the tolerance" } else if hi > 1e3 * lo { "graded" } else { "plain" });
        return m;
    }
    well_conditioned(g, n, 0.05, 20.0)
}

/// Sum over columns of the largest element times the cofactors: first-order effect on the
/// determinant of an error relative to each column.
fn cofactor_cols(m: &M) -> f64 {
    if m.r == 1 {
        return m.a[0][0].abs();
    }
    let mut s = 0.0;
    for j in 0..m.c {
        let big = (0..m.r).map(|i| m.a[i][j].abs()).fold(0.0, f64::max);
        for i in 0..m.r {
            let mut n = M::zero(m.r - 1, m.c - 1);
            for a in 0..m.r - 1 {
                for b in 0..m.c - 1 {
                    n.a[a][b] = m.a[a + (a >= i) as usize][b + (b >= j) as usize];
                }
            }
            s += big * n.det().abs();
        }
    }
    s
}

fn c07(g: &mut G) -> R {
    let n = g.size(1, 4) as usize;
    if n >= 2 {
        g.nontrivial();
    }
    match g.below(8) {
        0 => {
            let r = g.size(1, 4) as usize;
            let c = (r - 1 + 1 + g.below(3) as usize) % 4 + 1;
            let x = mk(&randm(g, r, c))?;
            if r != c {
                ensure!(x.det().is_err() && x.det_naive().is_err(), "determinant of a {}x{} matrix was not refused", r, c);
            }
        }
        1 => {
            g.class("singular");
            let m = singular(g, n);
            let x = mk(&m)?;
            g.note(|| m.show());
            let tol = 1e-6 * (m.permanent_abs() + m.maxabs() * cofactor_sum(&m)) + 1e-6;
            let d = es(x.det_naive(), "det_naive")? as f64;
            within!(d.abs(), tol, "expansion determinant of singular {} is {}", m.show(), d);
            if let Ok(d) = x.det() {
                within!((d as f64).abs(), tol, "factorisation determinant of singular {} is {}", m.show(), d);
            }
        }
        _ => {
            let m = regular(g, n);
            g.note(|| m.show());
            let x = mk(&m)?;
            let s = snapm(&x);
            let want = m.det();
            let t1 = 16.0 * EPS32 * m.permanent_abs();
            let t2 = 4.0 * EPS32 * (m.permanent_abs() + cofactor_cols(&m));
            let d = es(x.det_naive(), "det_naive")? as f64;
            within!((d - want).abs(), t1, "expansion determinant of {} is {}, exact {} (allowed {:e})", m.show(), d, want, t1);
            let d = es(x.det(), "det")? as f64;
            within!((d - want).abs(), t2, "factorisation determinant of {} is {}, exact {} (allowed {:e})", m.show(), d, want, t2);
            ensure!(snapm(&x) == s, "determinant changed the matrix");
        }
    }
    Ok(())
}

fn c08(g: &mut G) -> R {
    let n = g.size(1, 4) as usize;
    if n >= 2 {
        g.nontrivial();
    }
    match g.below(8) {
        0 | 1 => {
            g.class("singular");
            let m = singular(g, n);
            g.note(|| m.show());
            let mut x = mk(&m)?;
            let s = snapm(&x);
            let r = x.invert();
            ensure!(r.is_err(), "singular {} was inverted", m.show());
            ensure!(snapm(&x) == s, "refused inversion changed {} to {:?}", m.show(), rd(&x).map(|m| m.show()));
            let b: Vec<f32> = (0..n).map(|_| val(g)).collect();
            if let Ok((lu, p)) = lup(&x) {
                let r = solve(&lu, &mkv(&b)?, &p);
                ensure!(r.is_err(), "singular system {} was solved", m.show());
            }
            ensure!(snapm(&x) == s, "factorising changed the matrix");
        }
        2 => {
            g.class("adjugate");
            let n = g.size(2, 4) as usize;
            let mut q = rando(g, n);
            q.round32();
            g.note(|| q.show());
            let sign = q.det().signum();
            let mut x = mk(&q)?;
            match x.adjugate_in_place() {
                Ok(()) => {
                    let mut want = q.t();
                    for i in 0..n {
                        for j in 0..n {
                            want.a[i][j] *= sign;
                        }
                    }
                    let d = rd(&x)?.dist(&want);
                    within!(d, 4e-6, "adjugate of {} (determinant {}) is {}, expected its transpose times the determinant", q.show(), sign, rd(&x)?.show());
                }
                // Only rotations are promised.
                Err(e) => ensure!(sign < 0.0, "the adjugate of the rotation {} is refused: {:?}", q.show(), e),
            }
        }
        _ => {
            let m = regular(g, n);
            g.note(|| m.show());
            let x = mk(&m)?;
            let s = snapm(&x);
            let col: Vec<f64> = (0..n).map(|j| (0..n).map(|i| m.a[i][j].abs()).fold(0.0, f64::max)).collect();
            let mut y = es(x.duplicate(), "duplicate")?;
            es(y.invert(), "invert")?;
            let inv = rd(&y)?;
            ensure!(inv.r == n && inv.c == n, "inverse is {}x{}", inv.r, inv.c);
            let prod = m.mul(&inv);
            // What eliminating in place (Gauss-Jordan) may lose on top.
            let size = m.map(f64::abs).mul(&inv.map(f64::abs));
            let more = size.mul(&size);
            for j in 0..n {
                // Backward error relative to each column of the matrix.
                let back = 1.0 + (0..n).map(|k| col[k] * inv.a[k][j].abs()).sum::<f64>();
                for i in 0..n {
                    let tol = 24.0 * EPS32 * (back + more.a[i][j]);
                    let d = (prod.a[i][j] - (i == j) as u8 as f64).abs();
                    within!(d, tol, "{} times its inverse {} is off the identity at ({},{}) by {:e} (allowed {:e})", m.show(), inv.show(), i, j, d, tol);
                }
            }
            let (lu, p) = es(lup(&x), "lup")?;
            ensure!(snapm(&x) == s, "factorising changed the matrix");
            let scale = logmag(g, 1e-6, 1e6);
            let b: Vec<f32> = (0..n).map(|_| (g.uniform(-1.0, 1.0) * scale) as f32).collect();
            let xb = mkv(&b)?;
            let sol = rdv(&es(solve(&lu, &xb, &p), "solve")?)?;
            ensure!(sol.len() == n, "solution has length {}", sol.len());
            let tol = 8.0 * EPS32 * (scale + (0..n).map(|k| col[k] * (sol[k] as f64).abs()).sum::<f64>());
            for i in 0..n {
                let r: f64 = (0..n).map(|j| m.a[i][j] * sol[j] as f64).sum::<f64>() - b[i] as f64;
                within!(r.abs(), tol, "solution {:?} of {} x = {:?} has residual {:e} in row {} (allowed {:e})", sol, m.show(), b, r, i, tol);
            }
        }
    }
    Ok(())
}


fn check_lu(m: &M, l: &M, u: &M, what: &str) -> R {
    let n = m.r;
    ensure!(l.r == n && l.c == n && u.r == n && u.c == n, "{}: factor sizes", what);
    for i in 0..n {
        for j in 0..n {
            if j > i {
                ensure!(l.a[i][j] == 0.0, "{}: L of {} is not lower triangular: {}", what, m.show(), l.show());
            }
            if i == j {
                within!((l.a[i][j] - 1.0).abs(), 1e-6, "{}: L of {} is not unit: {}", what, m.show(), l.show());
            }
            if j < i {
                ensure!(u.a[i][j] == 0.0, "{}: U of {} is not upper triangular: {}", what, m.show(), u.show());
            }
        }
    }
    let w = l.mul(u);
    let t = l.abs().mul(&u.abs());
    for i in 0..n {
        for j in 0..n {
            let d = (w.a[i][j] - m.a[i][j]).abs();
            let tol = 4.0 * EPS32 * (t.a[i][j] + m.a[i][j].abs()) + 1e-30;
            within!(d, tol, "{}: L U differs from {} at ({},{}) by {:e} (allowed {:e}); L={} U={}", what, m.show(), i, j, d, tol, l.show(), u.show());
        }
    }
    Ok(())
}

fn c09(g: &mut G) -> R {
    let n = g.size(1, 4) as usize;
    if n >= 2 {
        g.nontrivial();
    }
    let kind = g.below(8);
    if kind == 0 {
        let r = g.size(1, 4) as usize;
        let c = g.size(1, 4) as usize;
        let x = mk(&randm(g, r, c))?;
        if r != c {
            ensure!(x.lr().is_err() && x.lu_crout().is_err(), "a {}x{} matrix was factorised", r, c);
        }
        return Ok(());
    }
    let mut m = match kind {
        1 => {
            let mut m = M::zero(n, n);
            for i in 0..n {
                for j in 0..n {
                    m.a[i][j] = g.range(0, 8) as f64 - 4.0;
                }
            }
            m
        }
        2 => randm(g, n, n),
        _ => {
            let (mut l, mut u) = (M::eye(n), M::zero(n, n));
            let wide = g.chance(1, 3);
            for i in 0..n {
                for j in 0..n {
                    if j < i {
                        l.a[i][j] = g.uniform(-2.0, 2.0);
                    } else if i == j {
                        u.a[i][j] = if g.bool() { 1.0 } else { -1.0 } * if wide { logmag(g, 1.5e-4, 1e6) } else { g.uniform(0.5, 5.0) };
                    } else {
                        u.a[i][j] = g.uniform(-5.0, 5.0);
                    }
                }
            }
            l.mul(&u)
        }
    };
    m.round32();
    g.note(|| m.show());
    let x = mk(&m)?;
    let s = snapm(&x);
    let (lo, _) = pivots(&m, false);
    let must = lo >= 1.1 * TOL;
    if must {
        g.class("must succeed");
    }
    for which in 0..2 {
        let what = ["lr", "lu_crout"][which];
        let r = if which == 0 { x.lr() } else { x.lu_crout() };
        ensure!(snapm(&x) == s, "{} changed the matrix", what);
        match r {
            Ok((l, u)) => check_lu(&m, &rd(&l)?, &rd(&u)?, what)?,
            Err(e) => ensure!(!must, "{} refused {} although every leading minor is clearly non-zero: {:?}", what, m.show(), e),
        }
    }
    Ok(())
}

fn sym_from(q: &M, lam: &[f64]) -> M {
    let n = lam.len();
    let mut d = M::zero(n, n);
    for i in 0..n {
        d.a[i][i] = lam[i];
    }
    let mut m = q.mul(&d).mul(&q.t());
    for i in 0..n {
        for j in 0..i {
            m.a[i][j] = m.a[j][i];
        }
    }
    m.round32();
    m
}

fn c10(g: &mut G) -> R {
    let n = g.size(1, 4) as usize;
    if n >= 2 {
        g.nontrivial();
    }
    let kind = g.below(8);
    match kind {
        0 => {
            g.class("refused");
            let m = if g.bool() && n >= 2 {
                // Definite apart from one clear asymmetry.
                let q = rando(g, n);
                let lam: Vec<f64> = (0..n).map(|_| g.uniform(1.0, 2.0)).collect();
                let mut m = sym_from(&q, &lam);
                let i = g.below(n as u32) as usize;
                let j = (i + 1 + g.below(n as u32 - 1) as usize) % n;
                m.a[i][j] += g.pick(&[0.01, -0.01, 0.3, 0.001]);
                m.round32();
                m
            } else {
                let r = g.size(1, 4) as usize;
                let c = if r == 4 { g.size(1, 3) as usize } else { r + 1 };
                let mut m = randm(g, r, c);
                for i in 0..r.min(c) {
                    m.a[i][i] = 50.0;
                }
                m
            };
            g.note(|| m.show());
            let x = mk(&m)?;
            ensure!(x.is_positive_definite().is_err(), "definiteness of asymmetric or non-square {} was not refused: {:?}", m.show(), x.is_positive_definite());
            ensure!(x.chol().is_err(), "asymmetric or non-square {} got a Cholesky factor", m.show());
        }
        1 | 2 => {
            g.class("not definite");
            let m = if g.chance(1, 3) {
                // A zero row and column.
                let mut m = M::zero(n, n);
                for i in 0..n {
                    for j in 0..=i {
                        m.a[i][j] = if i == j { g.range(1, 9) as f64 } else { g.range(0, 2) as f64 - 1.0 };
                        m.a[j][i] = m.a[i][j];
                    }
                }
                let k = g.below(n as u32) as usize;
                for i in 0..n {
                    m.a[i][k] = 0.0;
                    m.a[k][i] = 0.0;
                }
                m
            } else if n >= 2 && g.chance(1, 4) {
                // Rank one: semidefinite, with every pivot after the first exactly zero.
                let v: Vec<f64> = (0..n).map(|_| g.range(0, 8) as f64 - 4.0).collect();
                let k = (2 * g.range(0, 8) as i32 - 8) as f64;
                let mut m = M::zero(n, n);
                for i in 0..n {
                    for j in 0..n {
                        m.a[i][j] = v[i] * v[j] * k.exp2();
                    }
                }
                m
            } else {
                let q = rando(g, n);
                let big = logmag(g, 0.05, 1e7);
                let neg = 1 + g.below(n as u32) as usize;
                let lam: Vec<f64> = (0..n).map(|i| big * g.uniform(0.1, 1.0) * if i < neg { -1.0 } else { 1.0 }).collect();
                sym_from(&q, &lam)
            };
            g.note(|| m.show());
            let x = mk(&m)?;
            ensure!(x.is_positive_definite() != Ok(true), "{} was called positive definite", m.show());
            ensure!(x.chol().is_err(), "{} got a Cholesky factor", m.show());
        }
        _ => {
            let q = rando(g, n);
            let near = g.chance(1, 4);
            let m = if near {
                // Pivots down to the tolerance.
                g.class("barely definite");
                let mut l = M::zero(n, n);
                for i in 0..n {
                    for j in 0..i {
                        l.a[i][j] = if g.chance(1, 4) { 0.0 } else { g.uniform(-2.0, 2.0) };
                    }
                    l.a[i][i] = logmag(g, 1.2e-4, 4.0).sqrt();
                }
                let mut m = l.mul(&l.t());
                m.round32();
                m
            } else {
                let scale = if g.chance(1, 4) { logmag(g, 1e3, 1e7) } else { logmag(g, 0.05, 1000.0) };
                let lo = (scale / 500.0).max(0.02);
                let lam: Vec<f64> = (0..n).map(|_| logmag(g, lo, scale)).collect();
                sym_from(&q, &lam)
            };
            g.note(|| m.show());
            let x = mk(&m)?;
            let s = snapm(&x);
            if near {
                // Elimination, with and without exchanges, stays clear of the tolerance.
                let ok = (1..=n).all(|k| {
                    let mut t = M::zero(k, k);
                    for i in 0..k {
                        for j in 0..k {
                            t.a[i][j] = m.a[i][j];
                        }
                    }
                    (k == 1 || pivots(&t, true).0 >= 1.1 * TOL) && pivots(&t, false).0 > 0.0
                });
                if !ok {
                    g.class("too close to singular to be claimed");
                    return Ok(());
                }
            }
            let pd = es(x.is_positive_definite(), "is_positive_definite")?;
            ensure!(pd, "positive definite {} was called not definite", m.show());
            let l = rd(&es(x.chol(), "chol")?)?;
            ensure!(snapm(&x) == s, "Cholesky changed the matrix");
            ensure!(l.r == n && l.c == n, "factor is {}x{}", l.r, l.c);
            for i in 0..n {
                ensure!(l.a[i][i] > 0.0, "factor of {} has non-positive diagonal: {}", m.show(), l.show());
                for j in i + 1..n {
                    ensure!(l.a[i][j] == 0.0, "factor of {} is not lower triangular: {}", m.show(), l.show());
                }
            }
            let d = l.mul(&l.t()).dist(&m);
            let tol = 6.0 * EPS32 * m.fro();
            within!(d, tol, "L L^T differs from {} by {:e} (allowed {:e}); L={}", m.show(), d, tol, l.show());
        }
    }
    Ok(())
}

fn c11(g: &mut G) -> R {
    let c = g.size(1, 4) as usize;
    let r = g.size(c as u8, 4) as usize;
    if c >= 2 {
        g.nontrivial();
    }
    let deficient = g.chance(2, 5);
    // Zero when a dependent column may be cut off at the tolerance.
    let mut cond = 0.0;
    let mut m = M::zero(r, c);
    if deficient {
        g.class("integer or rank deficient");
        for i in 0..r {
            for j in 0..c {
                m.a[i][j] = g.range(0, 6) as f64 - 3.0;
            }
        }
        let k = g.below(c as u32) as usize;
        match g.below(5) {
            0 => (0..r).for_each(|i| m.a[i][k] = 0.0),
            1 if c > 1 => {
                let l = (k + 1 + g.below(c as u32 - 1) as usize) % c;
                let s = g.pick(&[1.0, -1.0, 2.0]);
                (0..r).for_each(|i| m.a[i][k] = s * m.a[i][l]);
            }
            2 => {
                let l = g.below(r as u32) as usize;
                (0..c).for_each(|j| m.a[l][j] = 0.0);
            }
            3 => {
                // All columns parallel.
                for j in 0..c {
                    let s = g.range(0, 4) as f64 - 2.0;
                    (0..r).for_each(|i| m.a[i][j] = s * m.a[i][k]);
                }
            }
            _ => {}
        }
        if g.chance(1, 4) {
            let k = (g.below(6) as f64).exp2();
            m = m.map(|x| x * k);
        }
    } else {
        let u = rando(g, r);
        let v = rando(g, c);
        let top = if g.chance(1, 4) { logmag(g, 20.0, 1e8) } else { logmag(g, 0.3, 20.0) };
        let k = g.pick(&[3.0, 30.0, 300.0, 1e4, 1e5]);
        // Clear of the tolerance.
        let top = top.max(k * 4e-4);
        let mut d = M::zero(r, c);
        for i in 0..c {
            d.a[i][i] = logmag(g, top / k, top);
        }
        m = u.mul(&d).mul(&v);
        m.round32();
        let (lo, hi) = m.sigma();
        cond = hi / lo.max(1e-9);
    }
    g.note(|| m.show());
    let x = mk(&m)?;
    let s = snapm(&x);
    let (q, rr) = es(x.qr_decomp(), &format!("qr_decomp of {}", m.show()))?;
    ensure!(snapm(&x) == s, "the decomposition changed the matrix");
    let (q, rr) = (rd(&q)?, rd(&rr)?);
    ensure!(q.r == r && rr.c == c && q.c == rr.r, "QR of a {}x{} matrix gave {}x{} and {}x{}", r, c, q.r, q.c, rr.r, rr.c);
    let scale = m.fro().max(0.01);
    let tol_q = 5e-6;
    let tol_a = if cond > 0.0 { 3e-6 * scale } else { 3e-6 * scale + 1.1 * TOL };
    let d = q.t().mul(&q).dist(&M::eye(q.c));
    within!(d, tol_q, "Q of {} is {}: off orthonormal by {:e} (allowed {:e})", m.show(), q.show(), d, tol_q);
    let d = q.mul(&rr).dist(&m);
    within!(d, tol_a, "Q R differs from {} by {:e} (allowed {:e}); Q={} R={}", m.show(), d, tol_a, q.show(), rr.show());
    for i in 0..rr.r {
        for j in 0..i.min(rr.c) {
            within!(rr.a[i][j].abs(), tol_a, "R of {} is not upper triangular: {}", m.show(), rr.show());
        }
    }
    Ok(())
}

fn c12(g: &mut G) -> R {
    let shifted = g.bool();
    let n = if shifted && g.chance(1, 2) { 2 } else { g.pick(&[1, 2, 3, 4, 2, 3, 4, 3, 4]) };
    let q = match g.below(8) {
        0 => M::eye(n),
        _ => rando(g, n),
    };
    let scale = if g.chance(1, 4) { logmag(g, 300.0, 1e7) } else { logmag(g, 0.1, 300.0) };
    // Magnitudes, clearly distinct or with ties.
    let distinct = g.chance(2, 3);
    let mut mag = 1.0;
    let mut lam: Vec<f64> = Vec::new();
    for i in 0..n {
        let sgn = if g.bool() { -1.0 } else { 1.0 };
        if i > 0 {
            if distinct {
                mag *= g.uniform(0.45, 0.88);
            } else {
                mag *= g.pick(&[1.0, 0.5, 0.97, 1.0]);
            }
        }
        lam.push(sgn * mag * scale);
    }
    if g.chance(1, 6) {
        let k = n - 1;
        lam[k] = 0.0;
    }
    // Order of the eigenvalues along the basis.
    let p = perm(g, n);
    let lam2: Vec<f64> = p.iter().map(|&i| lam[i]).collect();
    let m = sym_from(&q, &lam2);
    let diag = (0..n).all(|i| (0..n).all(|j| i == j || m.a[i][j] == 0.0));
    if n >= 2 && !diag {
        g.nontrivial();
    }
    let budget = g.pick(&[1000u16, 1000, 1000, 300, 40, 8, 2, 1]);
    g.note(|| format!("{} budget {} shifted {} eigenvalues {:?}", m.show(), budget, shifted, lam));
    let x = mk(&m)?;
    let s = snapm(&x);
    let r = eigen(&x, budget, shifted);
    ensure!(snapm(&x) == s, "the decomposition changed the matrix");
    let ample = budget == 1000;
    match r {
        Err(e) => {
            // A zero eigenvalue ties with nothing else here.
            let must_plain = !shifted && distinct && ample;
            let must_shift = shifted && n == 2 && distinct && ample;
            ensure!(!must_plain && !must_shift, "eigen(shifted={}) with {} iterations failed on {} (eigenvalues {:?}): {:?}", shifted, budget, m.show(), lam, e);
        }
        Ok((val, vec)) => {
            g.class("converged");
            let val: Vec<f64> = rdv(&val)?.iter().map(|&x| x as f64).collect();
            let v = rd(&vec)?;
            ensure!(val.len() == n && v.r == n && v.c == n, "wrong sizes");
            let top = scale.max(TOL);
            // Far above the tolerance for a null column, what remains of a dependent column is all rounding.
            let tol = if scale > 1e5 { 3e-3 } else { 1e-3 } * top + 2.0 * TOL;
            let d = v.t().mul(&v).dist(&M::eye(n));
            // Large, nearly singular steps leave rounding above the tolerance for a null column.
            within!(d, if scale > 300.0 { 5e-3 } else { 5e-4 }, "eigenvectors of {} are off orthonormal by {:e}: {}", m.show(), d, v.show());
            for k in 0..n {
                for i in 0..n {
                    let av: f64 = (0..n).map(|j| m.a[i][j] * v.a[j][k]).sum();
                    let e = (av - val[k] * v.a[i][k]).abs();
                    within!(e, tol, "pair {} (value {}) of {} has residual {:e} (allowed {:e}) with budget {} shifted {}; values {:?} vectors {}", k, val[k], m.show(), e, tol, budget, shifted, val, v.show());
                }
            }
        }
    }
    Ok(())
}

fn c13(g: &mut G) -> R {
    let r = g.size(1, 4) as usize;
    let c = if g.bool() { r } else { g.size(1, 4) as usize };
    // A clear deviation, above or below the tolerance.
    let above = g.bool();
    let sgn = if g.bool() { -1.0 } else { 1.0 };
    let dev = sgn * if above { g.pick(&[1.5e-4, 2e-4, 1e-3, 0.1, 1.0, 50.0]) } else { g.pick(&[0.0, 1e-6, 2e-5, 5e-5]) };
    let (i, j) = (g.below(r as u32) as usize, g.below(c as u32) as usize);
    if r * c >= 2 {
        g.nontrivial();
    }
    let op = g.below(8);
    match op {
        0 => {
            let m = randm(g, r, c);
            let (r2, c2) = (g.size(1, 4) as usize, g.size(1, 4) as usize);
            let (x, y) = (mk(&m)?, mk(&randm(g, r2, c2))?);
            ensure!(x.is_square() == Ok(r == c), "is_square of {}x{}: {:?}", r, c, x.is_square());
            ensure!(x.is_same_size_as(&y) == Ok(r == r2 && c == c2), "is_same_size_as {}x{} {}x{}: {:?}", r, c, r2, c2, x.is_same_size_as(&y));
            let (v, w) = (mkv(&vec![0.0; r])?, mkv(&vec![0.0; r2])?);
            ensure!(v.is_same_size_as(&w) == Ok(r == r2), "vector is_same_size_as {} {}: {:?}", r, r2, v.is_same_size_as(&w));
            if (r, c) != (r2, c2) {
                ensure!(x.is_equal_to(&y, 1e30) != Ok(true), "matrices of different sizes are equal");
            }
            if r != r2 {
                ensure!(v.is_equal_to(&w, 1e30) != Ok(true), "vectors of different sizes are equal");
            }
        }
        1 => {
            // Equality within a deviation; the other elements differ by less.
            let scale = if g.bool() { 5.0 } else { logmag(g, 1e-6, 1e30) };
            let d = if scale == 5.0 { g.pick(&[0.0, 0.001, 0.01, 0.1, 1.0, 10.0]) } else { scale * logmag(g, 1e-6, 10.0) };
            let d = d as f32 as f64;
            let mut a = M::zero(r, c);
            let mut b = M::zero(r, c);
            for k in 0..r {
                for l in 0..c {
                    a.a[k][l] = g.uniform(-1.0, 1.0) * scale;
                    b.a[k][l] = a.a[k][l] + if g.chance(1, 4) { 0.0 } else { g.uniform(-0.9, 0.9) * d };
                }
            }
            if above {
                b.a[i][j] = a.a[i][j] + sgn * if d > 0.0 { d * g.pick(&[1.001, 1.1, 1.5, 3.0, 100.0]) } else { 1e-3 };
            }
            a.round32();
            b.round32();
            // The deviations that rounding the elements has left.
            let worst = (0..r * c).map(|k| (a.a[k / c][k % c] - b.a[k / c][k % c]).abs()).fold(0.0, f64::max);
            if worst > d * 0.99999 && worst < d * 1.00001 {
                g.class("on the deviation");
                return Ok(());
            }
            let above = worst > d;
            g.note(|| format!("{} {} {}", a.show(), b.show(), d));
            let (x, y) = (mk(&a)?, mk(&b)?);
            ensure!(x.is_equal_to(&y, d as f32) == Ok(!above), "is_equal_to({} , {}, {}) = {:?}", a.show(), b.show(), d, x.is_equal_to(&y, d as f32));
            ensure!(y.is_equal_to(&x, d as f32) == Ok(!above), "is_equal_to is not symmetric");
            // The same elements as vectors.
            let column = |m: &M| (0..r).map(|k| m.a[k][j] as f32).collect::<Vec<f32>>();
            let worst = (0..r).map(|k| (a.a[k][j] - b.a[k][j]).abs()).fold(0.0, f64::max);
            let (v, w) = (mkv(&column(&a))?, mkv(&column(&b))?);
            ensure!(v.is_equal_to(&w, d as f32) == Ok(worst <= d), "vector is_equal_to({:?}, {:?}, {}) = {:?}", column(&a), column(&b), d, v.is_equal_to(&w, d as f32));
            ensure!(w.is_equal_to(&v, d as f32) == Ok(worst <= d), "vector is_equal_to is not symmetric");
        }
        2 | 3 => {
            // Triangular up to one element, in any shape.
            let upper = op == 2;
            let mut m = randm(g, r, c);
            for k in 0..r {
                for l in 0..c {
                    if (upper && l < k) || (!upper && l > k) {
                        m.a[k][l] = 0.0;
                    }
                }
            }
            let in_zero = (upper && j < i) || (!upper && j > i);
            if in_zero {
                m.a[i][j] = dev;
            }
            m.round32();
            let want = !(in_zero && above);
            g.note(|| m.show());
            let x = mk(&m)?;
            let got = if upper { x.is_upper_triangular() } else { x.is_lower_triangular() };
            let what = if upper { "upper" } else { "lower" };
            ensure!(got == Ok(want), "{} triangular of {} is {:?}", what, m.show(), got);
        }
        4 => {
            let mut m = randm(g, r, c);
            if r == c {
                for k in 0..r {
                    for l in 0..k {
                        m.a[k][l] = m.a[l][k];
                    }
                }
                if g.bool() {
                    // Keep rounding of the deviation out of the way.
                    m = m.map(|x| x.clamp(-8.0, 8.0));
                }
                m.a[i][j] += dev;
                m.round32();
                let e = (m.a[i][j] - m.a[j][i]).abs();
                if e > 0.9 * TOL && e < 1.1 * TOL {
                    return Ok(());
                }
                let want = e < TOL;
                g.note(|| m.show());
                let got = mk(&m)?.is_symmetric();
                ensure!(got == Ok(want), "is_symmetric of {} is {:?}", m.show(), got);
            } else {
                let got = mk(&m)?.is_symmetric();
                ensure!(got != Ok(true), "non-square {} is symmetric", m.show());
            }
        }
        _ => {
            if r != c {
                let x = mk(&randm(g, r, c))?;
                ensure!(x.is_orthogonal() != Ok(true) && x.is_so_n() != Ok(true), "a {}x{} matrix is orthogonal", r, c);
                return Ok(());
            }
            let n = r;
            let mut m = rando(g, n);
            match g.below(5) {
                0 | 1 => {}
                2 => m.a[i][j] += sgn * g.pick(&[0.01, 0.1, 1.0, 1e-3, 2e-5, 3.5e-5]),
                3 if n > 1 => {
                    // Volume preserved, not orthogonal.
                    let k = g.pick(&[1.01, 1.5, 2.0, -2.0]);
                    let l = (i + 1 + g.below(n as u32 - 1) as usize) % n;
                    for t in 0..n {
                        m.a[i][t] *= k;
                        m.a[l][t] /= k;
                    }
                }
                _ => {
                    let k = g.pick(&[1.01, 0.5, 2.0, -1.0, -1.01, 1.000018, 0.99998, 1.0001, 0.9999]);
                    m = m.map(|x| x * k);
                }
            }
            m.round32();
            g.note(|| m.show());
            let e = m.mul(&m.t()).dist(&M::eye(n));
            let e2 = m.t().mul(&m).dist(&M::eye(n));
            let det = m.det();
            let x = mk(&m)?;
            let (o, so) = (x.is_orthogonal(), x.is_so_n());
            if e.max(e2).max((det.abs() - 1.0).abs()) <= 8e-5 {
                g.class("orthogonal");
                ensure!(o == Ok(true), "orthogonal {} answered {:?}", m.show(), o);
                ensure!(so == Ok(det > 0.0), "special orthogonal of {} (determinant {}) answered {:?}", m.show(), det, so);
            } else if e.min(e2) >= 1.3e-4 {
                g.class("not orthogonal");
                ensure!(o != Ok(true), "{} answered orthogonal", m.show());
                ensure!(so != Ok(true), "{} answered special orthogonal", m.show());
            }
        }
    }
    Ok(())
}

fn c14(g: &mut G) -> R {
    let ax = dir3(g);
    let th = match g.below(6) {
        5 => PI - if g.chance(1, 4) { 0.0 } else { logmag(g, 1e-8, 0.3) },
        0 => 0.0,
        1 => logmag(g, 1e-6, 1e-2),
        2 => g.pick(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]) * PI / 8.0,
        _ => g.uniform(0.0, PI),
    };
    if th > 0.0 {
        g.nontrivial();
    }
    let mut m = qdcm(&axang(&ax, th));
    m.round32();
    g.note(|| format!("axis {:?} angle {} matrix {}", ax, th, m.show()));
    let mut w = M::zero(3, 3);
    let v = [ax[0] * th, ax[1] * th, ax[2] * th];
    w.a[0][1] = -v[2];
    w.a[0][2] = v[1];
    w.a[1][0] = v[2];
    w.a[1][2] = -v[0];
    w.a[2][0] = -v[1];
    w.a[2][1] = v[0];
    let s = th.sin();
    let tol = if th <= PI / 2.0 { 3e-6 } else { 3e-6 + 2e-6 / (s * s).max(0.01) };
    let x = mk(&m)?;
    let snap = snapm(&x);
    let l = rd(&es(x.log(), "log")?)?;
    // Half turns about an axis and about its opposite are the same rotation, and close to them rounding may take one for the other.
    let half = PI - th < 1e-6;
    let w = if half && l.dist(&w.map(|x| -x)) < l.dist(&w) { w.map(|x| -x) } else { w };
    ensure!(snapm(&x) == snap, "log changed its operand");
    let d = l.dist(&w);
    within!(d, tol, "log of the rotation by {} about {:?} is {}, expected {} (difference {:e}, allowed {:e})", th, ax, l.show(), w.show(), d, tol);
    let mut y = es(x.duplicate(), "duplicate")?;
    es(y.log_in_place(), "log_in_place")?;
    within!(rd(&y)?.dist(&w), tol, "in-place log is {}, expected {}", rd(&y)?.show(), w.show());
    // Exponentiate the result.
    let lv = [l.a[2][1], l.a[0][2], l.a[1][0]];
    let n = norm(&lv);
    let back = if n > 0.0 { qdcm(&axang(&[lv[0] / n, lv[1] / n, lv[2] / n], n)) } else { M::eye(3) };
    within!(back.dist(&m), 2.0 * tol, "exponential of the logarithm is {}, not {}", back.show(), m.show());
    // Inverse rotation.
    let li = rd(&es(mk(&m.t())?.log(), "log of the inverse")?)?;
    ensure!(li.dist(&w.map(|x| -x)) <= tol || (half && li.dist(&w) <= tol), "log of the inverse rotation is {}, expected the opposite of {}", li.show(), w.show());
    Ok(())
}

fn unitn(g: &mut G, n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = (0..n).map(|_| if g.chance(1, 4) { g.range(0, 2) as f64 - 1.0 } else { g.uniform(-1.0, 1.0) }).collect();
    let l = norm(&v);
    if l < 1e-2 {
        v = vec![0.0; n];
        v[0] = 1.0;
    } else {
        v.iter_mut().for_each(|x| *x /= l);
    }
    v
}

fn c15(g: &mut G) -> R {
    let n = g.size(1, 4) as usize;
    let f = |v: &[f64]| v.iter().map(|&x| x as f32).collect::<Vec<f32>>();
    let junk: Vec<f32> = (0..n).map(|_| val(g)).collect();
    let kind = g.below(6);
    let t = match g.below(6) {
        0 => 0.0f32,
        1 => 1.0,
        2 => 0.5,
        3 => g.pick(&[1e-4, 0.9999, 1e-7, 0.99999994]),
        _ => g.unit() as f32,
    };
    if kind == 0 {
        g.nontrivial();
        let t = g.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1e-3, 1.001, -1.0, 2.0, 1.0000001, -1e-7]);
        let a = mkv(&f(&unitn(g, n)))?;
        let b = mkv(&f(&unitn(g, n)))?;
        let mut d: Vector<f32> = mkv(&junk)?;
        let s = snapv(&d);
        let (r1, r2) = if g.bool() { (d.lerp(&a, &b, t), d.slerp(&a, &b, t)) } else { (d.slerp(&a, &b, t), d.lerp(&a, &b, t)) };
        g.note(|| format!("fraction {:?}", t));
        ensure!(r1.is_err() && r2.is_err(), "fraction {:?} was accepted", t);
        ensure!(snapv(&d) == s, "a refused interpolation changed the destination");
        return Ok(());
    }
    if t != 0.0 && t != 1.0 {
        g.nontrivial();
    }
    let tt = t as f64;
    if kind <= 2 {
        let a: Vec<f32> = (0..n).map(|_| val(g)).collect();
        let b: Vec<f32> = (0..n).map(|_| val(g)).collect();
        g.note(|| format!("lerp {:?} {:?} {:?}", a, b, t));
        let (xa, xb) = (mkv(&a)?, mkv(&b)?);
        let mut d = mkv(&junk)?;
        es(d.lerp(&xa, &xb, t), "lerp")?;
        let got = rdv(&d)?;
        ensure!(got.len() == n, "length {}", got.len());
        for i in 0..n {
            let w = (1.0 - tt) * a[i] as f64 + tt * b[i] as f64;
            let tol = 3.0 * EPS32 * (a[i].abs() + b[i].abs()) as f64 + 1e-37;
            within!((got[i] as f64 - w).abs(), tol, "lerp of {:?} and {:?} at {:?} is {:?}, element {} should be {}", a, b, t, got, i, w);
        }
        ensure!(rdv(&xa)? == a && rdv(&xb)? == b, "lerp changed an operand");
        return Ok(());
    }
    let n = n.max(2);
    let junk: Vec<f32> = (0..n).map(|_| val(g)).collect();
    let mut a64 = unitn(g, n);
    // Second end point at a chosen angle.
    let th = match g.below(6) {
        0 => 0.0,
        1 => logmag(g, 1e-5, 1e-2),
        2 => logmag(g, 1e-2, 0.3),
        3 => PI - logmag(g, 0.01, 0.3),
        _ => g.uniform(0.0, PI - 0.3),
    };
    let mut o = unitn(g, n);
    let k = dot(&o, &a64);
    for i in 0..n {
        o[i] -= k * a64[i];
    }
    let l = norm(&o);
    // Exactly orthogonal end points: two signed axes.
    let axes = g.chance(1, 12);
    if axes {
        let i = g.below(n as u32) as usize;
        let j = (i + 1 + g.below(n as u32 - 1) as usize) % n;
        a64 = vec![0.0; n];
        a64[i] = if g.bool() { -1.0 } else { 1.0 };
        o = vec![0.0; n];
        o[j] = if g.bool() { -1.0 } else { 1.0 };
    }
    let b64: Vec<f64> = if axes { o } else if th == 0.0 || l < 1e-3 { a64.clone() } else { (0..n).map(|i| th.cos() * a64[i] + th.sin() * o[i] / l).collect() };
    let (a, b) = (f(&a64), f(&b64));
    g.note(|| format!("slerp {:?} {:?} {:?}", a, b, t));
    let un = |v: &[f32]| {
        let w: Vec<f64> = v.iter().map(|&x| x as f64).collect();
        let l = norm(&w);
        w.iter().map(|x| x / l).collect::<Vec<f64>>()
    };
    let (ua, ub) = (un(&a), un(&b));
    // Angle by the half-difference, accurate for small angles.
    let half: f64 = norm(&ua.iter().zip(&ub).map(|(x, y)| x - y).collect::<Vec<_>>()) / 2.0;
    let ang = 2.0 * half.min(1.0).asin();
    let want: Vec<f64> = (0..n).map(|i| if ang < 1e-9 { ua[i] } else { (((1.0 - tt) * ang).sin() * ua[i] + (tt * ang).sin() * ub[i]) / ang.sin() }).collect();
    let (xa, xb) = (mkv(&a)?, mkv(&b)?);
    let mut d = mkv(&junk)?;
    es(d.slerp(&xa, &xb, t), "slerp")?;
    let got = rdv(&d)?;
    ensure!(got.len() == n, "length {}", got.len());
    let tol = 2e-6 + if ang > PI / 2.0 { 4e-7 / (ang.sin() * ang.sin()) } else { 0.0 };
    for i in 0..n {
        within!((got[i] as f64 - want[i]).abs(), tol, "slerp of {:?} and {:?} (angle {}) at {:?} is {:?}, element {} should be {} (allowed {:e})", a, b, ang, t, got, i, want[i], tol);
    }
    ensure!(rdv(&xa)? == a && rdv(&xb)? == b, "slerp changed an operand");
    Ok(())
}
