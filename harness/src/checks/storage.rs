//! C01-C04: tables, lists, refusals, finiteness.
use crate::engine::{Prop, G, R};
use crate::gen::*;
use crate::refm::*;
use crate::ensure;
use linalg::matrix::Matrix;
use linalg::vector::Vector;
use quaternion::quaternion::Quaternion;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C01",
        quick: 4_320_000,
        thorough: 43_200_000,
        rule: "a history with at least five operations of which at least two change the shape or move elements",
        assumptions: &["contents directly after a re-sizing are unspecified and are taken as observed", "elements are compared by value (0 and -0 are the same)"],
        run: c01,
    });
    v.push(Prop {
        id: "C02",
        quick: 7_200_000,
        thorough: 72_000_000,
        rule: "a history with at least five operations on vectors of two or more elements",
        assumptions: &["contents directly after a re-sizing are unspecified and are taken as observed"],
        run: c02,
    });
    v.push(Prop {
        id: "C03",
        quick: 21_600_000,
        thorough: 216_000_000,
        rule: "at least one call of the case must be refused",
        assumptions: &["overflow of a finite computation is not an invalid argument (see C04)", "for decompositions only the refusal of uninitialised and non-square input is claimed here"],
        run: c03,
    });
    v.push(Prop {
        id: "C04",
        quick: 14_400_000,
        thorough: 144_000_000,
        rule: "an operand element has magnitude above 1e15 or below 1e-15 (non-zero)",
        assumptions: &["exponents and iteration budgets are finite"],
        run: c04,
    });
}

type T = Vec<Vec<f32>>; // rows of columns

fn same_table(x: &Matrix, t: &T, who: &str) -> R {
    ensure!(x.is_initialized(), "{} lost its initialisation", who);
    let (r, c) = (es(x.get_rows(), "get_rows")?, es(x.get_cols(), "get_cols")?);
    ensure!(r as usize == t.len() && c as usize == t[0].len(), "{} is {}x{}, expected {}x{}", who, r, c, t.len(), t[0].len());
    for i in 0..r {
        for j in 0..c {
            let e = es(x.get_element(i, j), "get_element")?;
            ensure!(e == t[i as usize][j as usize], "{} element ({},{}) is {:?}, expected {:?}", who, i, j, e, t[i as usize][j as usize]);
        }
    }
    Ok(())
}

fn read_table(x: &Matrix) -> Result<T, String> {
    let (r, c) = (es(x.get_rows(), "get_rows")?, es(x.get_cols(), "get_cols")?);
    let mut t = Vec::new();
    for i in 0..r {
        let mut row = Vec::new();
        for j in 0..c {
            row.push(es(x.get_element(i, j), "get_element")?);
        }
        t.push(row);
    }
    Ok(t)
}

fn same_list(v: &Vector<f32>, l: &[f32], who: &str) -> R {
    let got = rdv(v)?;
    ensure!(got.len() == l.len() && got.iter().zip(l).all(|(a, b)| a == b), "{} is {:?}, expected {:?}", who, got, l);
    Ok(())
}

fn elem(g: &mut G) -> f32 {
    if g.chance(1, 4) {
        any_finite(g)
    } else {
        val(g)
    }
}

fn list(g: &mut G, n: usize) -> Vec<f32> {
    (0..n).map(|_| elem(g)).collect()
}

fn c01(g: &mut G) -> R {
    const K: usize = 3;
    let mut xs: Vec<Matrix> = Vec::new();
    let mut ts: Vec<T> = Vec::new();
    for _ in 0..K {
        let (r, c) = (g.size(1, 4), g.size(1, 4));
        let mut x = Matrix::new();
        es(x.init(r, c), "init")?;
        xs.push(x);
        ts.push(vec![vec![0.0; c as usize]; r as usize]);
        if g.chance(3, 4) {
            let i = xs.len() - 1;
            for a in 0..r {
                for b in 0..c {
                    let e = elem(g);
                    es(xs[i].set_element(a, b, e), "set_element")?;
                    ts[i][a as usize][b as usize] = e;
                }
            }
        }
    }
    let steps = 1 + g.below(14);
    let mut structural = 0;
    for _ in 0..steps {
        let i = g.below(K as u32) as usize;
        let j = (i + 1 + g.below(K as u32 - 1) as usize) % K;
        let (r, c) = (ts[i].len(), ts[i][0].len());
        let op = g.below(16);
        g.note(|| format!("op {} on m{} ({}x{})", ["new", "reinit", "set", "set_row", "set_col", "add_row", "add_col", "del_row", "fill", "identity", "copy", "duplicate", "transpose", "transpose_new", "get row/col", "diag"][op as usize], i, r, c));
        match op {
            0 => {
                let (nr, nc) = (g.size(1, 4), g.size(1, 4));
                let mut x = Matrix::new();
                es(x.init(nr, nc), "init")?;
                xs[i] = x;
                ts[i] = vec![vec![0.0; nc as usize]; nr as usize];
            }
            1 => {
                let (nr, nc) = (g.size(1, 4), g.size(1, 4));
                es(xs[i].reinit(nr, nc), "reinit")?;
                let t = read_table(&xs[i])?;
                ensure!(t.len() == nr as usize && t[0].len() == nc as usize, "reinit({},{}) gave {}x{}", nr, nc, t.len(), t[0].len());
                ts[i] = t;
                structural += 1;
            }
            2 => {
                let (a, b) = (g.below(r as u32) as usize, g.below(c as u32) as usize);
                let e = elem(g);
                es(xs[i].set_element(a as u8, b as u8, e), "set_element")?;
                ts[i][a][b] = e;
            }
            3 => {
                let a = g.below(r as u32) as usize;
                let l = list(g, c);
                let v = mkv(&l)?;
                es(xs[i].set_row(&v, a as u8), "set_row")?;
                same_list(&v, &l, "the row given to set_row")?;
                ts[i][a] = l;
            }
            4 => {
                let b = g.below(c as u32) as usize;
                let l = list(g, r);
                let v = mkv(&l)?;
                es(xs[i].set_col(&v, b as u8), "set_col")?;
                same_list(&v, &l, "the column given to set_col")?;
                for a in 0..r {
                    ts[i][a][b] = l[a];
                }
            }
            5 if r < 4 => {
                let a = g.below(r as u32 + 1) as usize;
                let l = list(g, c);
                let v = mkv(&l)?;
                es(xs[i].add_row(&v, a as u8), &format!("add_row at {} of {} rows", a, r))?;
                same_list(&v, &l, "the row given to add_row")?;
                ts[i].insert(a, l);
                structural += 1;
            }
            6 if c < 4 => {
                let b = g.below(c as u32 + 1) as usize;
                let l = list(g, r);
                let v = mkv(&l)?;
                es(xs[i].add_col(&v, b as u8), &format!("add_col at {} of {} columns", b, c))?;
                same_list(&v, &l, "the column given to add_col")?;
                for a in 0..r {
                    ts[i][a].insert(b, l[a]);
                }
                structural += 1;
            }
            7 if r > 1 => {
                let a = g.below(r as u32) as usize;
                let d = es(xs[i].del_row(a as u8), "del_row")?;
                let e = ts[i].remove(a);
                same_list(&d, &e, "the deleted row")?;
                structural += 1;
            }
            8 => {
                let e = elem(g);
                es(xs[i].fill(e), "fill")?;
                ts[i].iter_mut().for_each(|row| row.iter_mut().for_each(|x| *x = e));
            }
            9 if r == c => {
                es(xs[i].fill_identity(), "fill_identity")?;
                for a in 0..r {
                    for b in 0..c {
                        ts[i][a][b] = if a == b { 1.0 } else { 0.0 };
                    }
                }
            }
            10 => {
                if ts[j].len() != r || ts[j][0].len() != c {
                    es(xs[i].reinit(ts[j].len() as u8, ts[j][0].len() as u8), "reinit")?;
                }
                let (x, y) = two(&mut xs, i, j);
                es(x.copy_from(y), "copy_from")?;
                ts[i] = ts[j].clone();
                structural += 1;
            }
            11 => {
                xs[i] = es(xs[j].duplicate(), "duplicate")?;
                ts[i] = ts[j].clone();
                structural += 1;
            }
            12 => {
                es(xs[i].transpose(), "transpose")?;
                ts[i] = transposed(&ts[i]);
                structural += 1;
            }
            13 => {
                let y = es(xs[i].transpose_new(), "transpose_new")?;
                same_table(&y, &transposed(&ts[i]), "the transposed copy")?;
                if g.bool() {
                    xs[j] = y;
                    ts[j] = transposed(&ts[i]);
                }
                structural += 1;
            }
            14 => {
                let (a, b) = (g.below(r as u32) as usize, g.below(c as u32) as usize);
                let row = ts[i][a].clone();
                let col: Vec<f32> = (0..r).map(|k| ts[i][k][b]).collect();
                let mut v = mkv(&list(g, c))?;
                es(xs[i].get_row(&mut v, a as u8), "get_row")?;
                same_list(&v, &row, "get_row")?;
                let mut v = mkv(&list(g, r))?;
                es(xs[i].get_col(&mut v, b as u8), "get_col")?;
                same_list(&v, &col, "get_col")?;
                same_list(&es(xs[i].row_to_vector(a as u8), "row_to_vector")?, &row, "row_to_vector")?;
                same_list(&es(xs[i].col_to_vector(b as u8), "col_to_vector")?, &col, "col_to_vector")?;
            }
            15 => {
                let k = g.range(-(r as i64) + 1, c as i64 - 1);
                let want: Vec<f32> = (0..r).filter_map(|a| { let b = a as i64 + k; if b >= 0 && b < c as i64 { Some(ts[i][a][b as usize]) } else { None } }).collect();
                let d = es(xs[i].diag(Some(k as i8)), "diag")?;
                same_list(&d, &want, &format!("diagonal {}", k))?;
                if k == 0 {
                    same_list(&es(xs[i].diag(None), "diag")?, &want, "main diagonal")?;
                }
            }
            _ => {}
        }
        for k in 0..K {
            same_table(&xs[k], &ts[k], &format!("m{}", k))?;
        }
    }
    if steps >= 5 && structural >= 2 {
        g.nontrivial();
    }
    Ok(())
}

fn two(xs: &mut [Matrix], i: usize, j: usize) -> (&mut Matrix, &Matrix) {
    if i < j {
        let (a, b) = xs.split_at_mut(j);
        (&mut a[i], &b[0])
    } else {
        let (a, b) = xs.split_at_mut(i);
        (&mut b[0], &a[j])
    }
}

fn two_v(xs: &mut [Vector<f32>], i: usize, j: usize) -> (&mut Vector<f32>, &Vector<f32>) {
    if i < j {
        let (a, b) = xs.split_at_mut(j);
        (&mut a[i], &b[0])
    } else {
        let (a, b) = xs.split_at_mut(i);
        (&mut b[0], &a[j])
    }
}

fn transposed(t: &T) -> T {
    (0..t[0].len()).map(|b| t.iter().map(|row| row[b]).collect()).collect()
}

fn c02(g: &mut G) -> R {
    const K: usize = 3;
    let mut xs: Vec<Vector<f32>> = Vec::new();
    let mut ls: Vec<Vec<f32>> = Vec::new();
    for _ in 0..K {
        let n = g.size(1, 4);
        let mut v: Vector<f32> = Vector::new();
        es(v.init(n), "init")?;
        xs.push(v);
        ls.push(vec![0.0; n as usize]);
    }
    let n8 = g.size(1, 4);
    let mut p: Vector<u8> = Vector::new();
    es(p.init(n8), "u8 init")?;
    let mut pl = vec![0u8; n8 as usize];
    let steps = 1 + g.below(16);
    for _ in 0..steps {
        let i = g.below(K as u32) as usize;
        let j = (i + 1 + g.below(K as u32 - 1) as usize) % K;
        let n = ls[i].len();
        let op = g.below(10);
        g.note(|| format!("op {} on v{} (len {})", ["new", "reinit", "set", "fill", "copy", "duplicate", "to matrix", "u8 set", "u8 reinit", "u8 new"][op as usize], i, n));
        match op {
            0 => {
                let m = g.size(1, 4);
                let mut v: Vector<f32> = Vector::new();
                es(v.init(m), "init")?;
                xs[i] = v;
                ls[i] = vec![0.0; m as usize];
            }
            1 => {
                let m = g.size(1, 4);
                es(xs[i].reinit(m), "reinit")?;
                let l = rdv(&xs[i])?;
                ensure!(l.len() == m as usize, "reinit({}) gave length {}", m, l.len());
                ls[i] = l;
            }
            2 => {
                let a = g.below(n as u32) as usize;
                let e = elem(g);
                es(xs[i].set_element(a as u8, e), "set_element")?;
                ls[i][a] = e;
            }
            3 => {
                let e = elem(g);
                es(xs[i].fill(e), "fill")?;
                ls[i].iter_mut().for_each(|x| *x = e);
            }
            4 => {
                if ls[j].len() != n {
                    es(xs[i].reinit(ls[j].len() as u8), "reinit")?;
                }
                let (x, y) = two_v(&mut xs, i, j);
                es(x.copy_from(y), "copy_from")?;
                ls[i] = ls[j].clone();
            }
            5 => {
                xs[i] = es(xs[j].duplicate(), "duplicate")?;
                ls[i] = ls[j].clone();
            }
            6 => {
                let m = es(xs[i].convert_to_matrix(), "convert_to_matrix")?;
                same_table(&m, &ls[i].iter().map(|&x| vec![x]).collect(), "the one-column matrix")?;
            }
            7 => {
                let a = g.below(pl.len() as u32) as usize;
                let e = g.below(256) as u8;
                es(p.set_element(a as u8, e), "u8 set_element")?;
                pl[a] = e;
            }
            8 => {
                let m = g.size(1, 4);
                es(p.reinit(m), "u8 reinit")?;
                pl = (0..m).map(|k| p.get_element(k).map_err(|e| format!("u8 get_element: {:?}", e))).collect::<Result<_, _>>()?;
            }
            _ => {
                let m = g.size(1, 4);
                p = Vector::new();
                es(p.init(m), "u8 init")?;
                pl = vec![0; m as usize];
            }
        }
        for k in 0..K {
            same_list(&xs[k], &ls[k], &format!("v{}", k))?;
        }
        ensure!(p.get_rows() == Ok(pl.len() as u8), "u8 vector length {:?}, expected {}", p.get_rows(), pl.len());
        for k in 0..pl.len() {
            ensure!(p.get_element(k as u8) == Ok(pl[k]), "u8 vector element {} is {:?}, expected {}", k, p.get_element(k as u8), pl[k]);
        }
    }
    if steps >= 5 && ls.iter().any(|l| l.len() >= 2) {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

pub fn size_arg(g: &mut G) -> u8 {
    if g.chance(1, 3) {
        g.pick(&[0, 5, 6, 8, 16, 17, 100, 128, 255])
    } else {
        g.size(1, 4)
    }
}
pub fn index_arg(g: &mut G) -> u8 {
    if g.chance(1, 4) {
        g.pick(&[4, 5, 6, 7, 12, 16, 63, 64, 127, 128, 254, 255])
    } else {
        g.below(5) as u8
    }
}
pub fn scalar_arg(g: &mut G) -> f32 {
    if g.chance(1, 4) {
        nonfinite(g)
    } else {
        val(g)
    }
}
pub fn pool_matrix(g: &mut G, shape: Option<(u8, u8)>) -> Result<Matrix, String> {
    if g.chance(1, 8) {
        return Ok(Matrix::new());
    }
    let (r, c) = match shape {
        Some(s) if g.chance(3, 5) => s,
        _ => (g.size(1, 4), g.size(1, 4)),
    };
    mk(&randm(g, r as usize, c as usize))
}
pub fn pool_vector(g: &mut G, n: Option<u8>) -> Result<Vector<f32>, String> {
    if g.chance(1, 8) {
        return Ok(Vector::new());
    }
    let n = match n {
        Some(n) if g.chance(3, 5) => n,
        _ => g.size(1, 4),
    };
    let l: Vec<f32> = (0..n).map(|_| val(g)).collect();
    mkv(&l)
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Exp {
    Must,    // must succeed
    Refuse,  // must be refused
    Free,    // either
}
fn ex(b: bool) -> Exp {
    if b { Exp::Must } else { Exp::Refuse }
}

fn c03(g: &mut G) -> R {
    let base = (g.size(1, 4), g.size(1, 4));
    let mut a = pool_matrix(g, Some(base))?;
    let b = pool_matrix(g, Some(base))?;
    let shape = if g.bool() { base } else { (base.1, base.0) };
    let c = pool_matrix(g, Some(shape))?;
    let mut v = pool_vector(g, Some(base.1))?;
    let size = if g.bool() { base.1 } else { base.0 };
    let w = pool_vector(g, Some(size))?;
    let z = pool_vector(g, Some(base.1))?;
    let steps = 1 + g.below(3);
    for _ in 0..steps {
        let (sa, sb, sc) = (snapm(&a), snapm(&b), snapm(&c));
        let (sv, sw, sz) = (snapv(&v), snapv(&w), snapv(&z));
        let da = sa.as_ref().map(|s| (s.0, s.1));
        let db = sb.as_ref().map(|s| (s.0, s.1));
        let dc = sc.as_ref().map(|s| (s.0, s.1));
        let nv = sv.as_ref().map(|s| s.0);
        let nw = sw.as_ref().map(|s| s.0);
        let nz = sz.as_ref().map(|s| s.0);
        let ia = da.is_some();
        let (ra, ca) = da.unwrap_or((0, 0));
        let same_ab = ia && da == db;
        let same_abc = same_ab && da == dc;
        let iv = nv.is_some();
        let same_vw = iv && nv == nw;
        let same_vwz = same_vw && nv == nz;
        let sqa = ia && ra == ca;
        let i1 = index_arg(g);
        let i2 = index_arg(g);
        let s = scalar_arg(g);
        let sf = s.is_finite();
        let bits = |l: &[u32]| l.iter().any(|x| f32::from_bits(*x).abs() > 1e6);
        let large = [&sa, &sb, &sc].iter().any(|x| x.as_ref().map(|x| bits(&x.2)).unwrap_or(false)) || [&sv, &sw, &sz].iter().any(|x| x.as_ref().map(|x| bits(&x.1)).unwrap_or(false));
        let op = g.below(92);
        let name;
        let exp: Exp;
        let ok: bool;
        macro_rules! call {
            ($n:expr, $e:expr, $c:expr) => {{
                name = $n;
                exp = $e;
                ok = ($c).is_ok();
            }};
        }
        match op {
            0 => {
                let (r, cc) = (size_arg(g), size_arg(g));
                call!("matrix init", ex(!ia && (1..=4).contains(&r) && (1..=4).contains(&cc)), a.init(r, cc))
            }
            1 => {
                let (r, cc) = (size_arg(g), size_arg(g));
                call!("matrix reinit", ex(ia && (1..=4).contains(&r) && (1..=4).contains(&cc)), a.reinit(r, cc))
            }
            2 => call!("matrix get_rows", ex(ia), a.get_rows()),
            3 => call!("matrix get_cols", ex(ia), a.get_cols()),
            4 | 5 => call!("matrix set_element", ex(ia && i1 < ra && i2 < ca && sf), a.set_element(i1, i2, s)),
            6 => call!("matrix get_element", ex(ia && i1 < ra && i2 < ca), a.get_element(i1, i2)),
            7 => call!("set_row", ex(ia && iv && nv == Some(ca) && i1 < ra), a.set_row(&v, i1)),
            8 => call!("set_col", ex(ia && iv && nv == Some(ra) && i1 < ca), a.set_col(&v, i1)),
            9 => call!("get_row", ex(ia && iv && nv == Some(ca) && i1 < ra), a.get_row(&mut v, i1)),
            10 => call!("get_col", ex(ia && iv && nv == Some(ra) && i1 < ca), a.get_col(&mut v, i1)),
            11 => call!("row_to_vector", ex(ia && i1 < ra), a.row_to_vector(i1)),
            12 => call!("col_to_vector", ex(ia && i1 < ca), a.col_to_vector(i1)),
            13 | 14 => call!("add_row", ex(ia && iv && nv == Some(ca) && ra < 4 && i1 <= ra), a.add_row(&v, i1)),
            15 | 16 => call!("add_col", ex(ia && iv && nv == Some(ra) && ca < 4 && i1 <= ca), a.add_col(&v, i1)),
            17 => call!("del_row", ex(ia && ra > 1 && i1 < ra), a.del_row(i1)),
            18 => call!("matrix fill", ex(ia && sf), a.fill(s)),
            19 => call!("matrix is_same_size_as", ex(ia && db.is_some()), a.is_same_size_as(&b)),
            20 => call!("is_square", ex(ia), a.is_square()),
            21 => call!("matrix is_equal_to", ex(ia && db.is_some()), a.is_equal_to(&b, 0.1)),
            22 => call!("matrix fill_identity", ex(sqa), a.fill_identity()),
            23 => call!("matrix copy_from", ex(same_ab), a.copy_from(&b)),
            24 => call!("matrix duplicate", ex(ia), a.duplicate()),
            25 => call!("matrix add", ex(same_abc), a.add(&b, &c)),
            26 => call!("matrix add_in_place", ex(same_ab), a.add_in_place(&b)),
            27 => call!("matrix add_new", ex(same_ab), a.add_new(&b)),
            28 => call!("matrix add_scalar", ex(same_ab && sf), a.add_scalar(&b, s)),
            29 => call!("matrix add_scalar_in_place", ex(ia && sf), a.add_scalar_in_place(s)),
            30 => call!("matrix add_scalar_new", ex(ia && sf), a.add_scalar_new(s)),
            31 => call!("matrix sub", ex(same_abc), a.sub(&b, &c)),
            32 => call!("matrix sub_in_place", ex(same_ab), a.sub_in_place(&b)),
            33 => call!("matrix sub_new", ex(same_ab), a.sub_new(&b)),
            34 => call!("matrix sub_scalar", ex(same_ab && sf), a.sub_scalar(&b, s)),
            35 => call!("matrix sub_scalar_in_place", ex(ia && sf), a.sub_scalar_in_place(s)),
            36 => call!("matrix sub_scalar_new", ex(ia && sf), a.sub_scalar_new(s)),
            37 | 38 => {
                let good = match (da, db, dc) {
                    (Some(x), Some(y), Some(w)) => y.1 == w.0 && x.0 == y.0 && x.1 == w.1,
                    _ => false,
                };
                call!("matrix mul", ex(good), a.mul(&b, &c))
            }
            39 => call!("matrix mul_new", ex(ia && dc.is_some() && ca == dc.unwrap().0), a.mul_new(&c)),
            40 => call!("transpose", ex(ia), a.transpose()),
            41 => call!("transpose_new", ex(ia), a.transpose_new()),
            42 => call!("matrix mul_by_scalar_in_place", ex(ia && sf), a.mul_by_scalar_in_place(s)),
            43 => {
                let e = if sf { g.pick(&[1.0, 2.0, 3.0]) } else { s };
                call!("matrix power_elements", ex(ia && sf), a.power_elements(e))
            }
            44 => call!("trace", ex(sqa), a.trace()),
            45 => call!("calculate_frobenius_norm", ex(ia), a.calculate_frobenius_norm()),
            46 => call!("is_upper_triangular", ex(ia), a.is_upper_triangular()),
            47 => call!("is_lower_triangular", ex(ia), a.is_lower_triangular()),
            48 => {
                let k = if g.chance(1, 4) { g.pick(&[-128i8, -127, -5, -4, 4, 5, 100, 127]) } else { g.range(-4, 4) as i8 };
                let k16 = k as i16;
                let len = if k16 >= 0 { (ra as i16).min(ca as i16 - k16) } else { (ra as i16 + k16).min(ca as i16) };
                call!("diag", ex(ia && len > 0), a.diag(Some(k)))
            }
            49 => call!("lr", if sqa { Exp::Free } else { Exp::Refuse }, a.lr()),
            50 => call!("lu_crout", if sqa { Exp::Free } else { Exp::Refuse }, a.lu_crout()),
            51 => call!("qr_decomp", if ia { Exp::Free } else { Exp::Refuse }, a.qr_decomp()),
            52 => call!("det", if sqa { Exp::Free } else { Exp::Refuse }, a.det()),
            53 => call!("det_naive", ex(sqa), a.det_naive()),
            54 => call!("chol", if sqa { Exp::Free } else { Exp::Refuse }, a.chol()),
            55 => call!("is_symmetric", ex(ia), a.is_symmetric()),
            56 => {
                let e = if ia { Exp::Free } else { Exp::Refuse };
                call!("lup", e, linalg::linalg::lup(&a))
            }
            57 => call!("eigen", if sqa { Exp::Free } else { Exp::Refuse }, linalg::linalg::eigen(&a, 5, false)),
            58 => {
                // Only a refused inversion leaves the matrix alone; a success is judged by C08.
                let r = a.invert();
                let e = if sqa { Exp::Free } else { Exp::Refuse };
                call!("matrix invert", e, r)
            }
            59 => {
                let n = size_arg(g);
                call!("vector init", ex(!iv && (1..=4).contains(&n)), v.init(n))
            }
            60 => {
                let n = size_arg(g);
                call!("vector reinit", ex(iv && (1..=4).contains(&n)), v.reinit(n))
            }
            61 => call!("vector get_rows", ex(iv), v.get_rows()),
            62 => call!("vector set_element", ex(iv && i1 < nv.unwrap_or(0) && sf), v.set_element(i1, s)),
            63 => call!("vector get_element", ex(iv && i1 < nv.unwrap_or(0)), v.get_element(i1)),
            64 => call!("vector fill", ex(iv && sf), v.fill(s)),
            65 => call!("vector is_same_size_as", ex(iv && nw.is_some()), v.is_same_size_as(&w)),
            66 => call!("vector is_equal_to", ex(iv && nw.is_some()), v.is_equal_to(&w, 0.1)),
            67 => call!("vector copy_from", ex(same_vw), v.copy_from(&w)),
            68 => call!("vector duplicate", ex(iv), v.duplicate()),
            69 => match g.below(6) {
                0 => call!("vector add", ex(same_vwz), v.add(&w, &z)),
                1 => call!("vector add_in_place", ex(same_vw), v.add_in_place(&w)),
                2 => call!("vector add_new", ex(same_vw), v.add_new(&w)),
                3 => call!("vector sub", ex(same_vwz), v.sub(&w, &z)),
                4 => call!("vector sub_in_place", ex(same_vw), v.sub_in_place(&w)),
                _ => call!("vector sub_new", ex(same_vw), v.sub_new(&w)),
            },
            70 => match g.below(9) {
                0 => call!("vector add_scalar", ex(same_vw && sf), v.add_scalar(&w, s)),
                1 => call!("vector add_scalar_in_place", ex(iv && sf), v.add_scalar_in_place(s)),
                2 => call!("vector add_scalar_new", ex(iv && sf), v.add_scalar_new(s)),
                3 => call!("vector sub_scalar", ex(same_vw && sf), v.sub_scalar(&w, s)),
                4 => call!("vector sub_scalar_in_place", ex(iv && sf), v.sub_scalar_in_place(s)),
                5 => call!("vector sub_scalar_new", ex(iv && sf), v.sub_scalar_new(s)),
                6 => call!("vector mul_by_scalar", ex(same_vw && sf), v.mul_by_scalar(&w, s)),
                7 => call!("vector mul_by_scalar_in_place", ex(iv && sf), v.mul_by_scalar_in_place(s)),
                _ => call!("vector mul_by_scalar_new", ex(iv && sf), v.mul_by_scalar_new(s)),
            },
            71 => call!("calculate_norm", ex(iv), v.calculate_norm()),
            72 => call!("normalize", ex(iv), v.normalize()),
            73 => call!("dot_product", ex(same_vw), v.dot_product(&w)),
            74 => call!("outer_product", ex(iv && nw.is_some()), v.outer_product(&w)),
            75 => {
                let e = if sf { g.pick(&[1.0, 2.0, 3.0]) } else { s };
                call!("vector power_elements", ex(iv && sf), v.power_elements(e))
            }
            76 => call!("convert_to_matrix", ex(iv), v.convert_to_matrix()),
            77 => call!("lerp", ex(same_vwz), v.lerp(&w, &z, 0.25)),
            78 => {
                // Applied to a copy when it may succeed: vectors that are not of unit length can give very large results.
                if same_vwz {
                    let mut v2 = es(v.duplicate(), "duplicate")?;
                    call!("slerp", Exp::Free, v2.slerp(&w, &z, 0.25))
                } else {
                    call!("slerp", Exp::Refuse, v.slerp(&w, &z, 0.25))
                }
            }
            79 => {
                let n = if g.bool() { Some(size_arg(g)) } else { None };
                let mut u: Vector<u8> = Vector::new();
                if let Some(n) = n {
                    let r = u.init(n);
                    ensure!(r.is_ok() == (1..=4).contains(&n), "u8 vector init({}) gave {:?}", n, r);
                    ensure!(u.is_initialized() == r.is_ok(), "u8 vector init status wrong");
                }
                let len = u.get_rows().unwrap_or(0);
                let x = g.below(256) as u8;
                if i1 < len && g.bool() {
                    call!("u8 reinit", Exp::Refuse, u.reinit(g.pick(&[0, 5, 255])));
                    ensure!(u.is_initialized() && u.get_rows() == Ok(len), "a refused u8 reinit changed the vector");
                } else {
                    call!("u8 set_element", ex(i1 < len), u.set_element(i1, x));
                    if i1 < len {
                        ensure!(u.get_element(i1) == Ok(x), "u8 element not stored");
                    } else {
                        ensure!(u.get_element(i1).is_err(), "u8 get_element({}) of length {} succeeded", i1, len);
                    }
                }
            }
            80 => {
                let q = [scalar_arg(g), scalar_arg(g), scalar_arg(g), scalar_arg(g)];
                let good = nv == Some(4) && q.iter().all(|x| x.is_finite());
                call!("fillq", ex(good), v.fillq(q[0], q[1], q[2], q[3]))
            }
            81 => call!("is_orthogonal", if sqa { Exp::Free } else { Exp::Refuse }, a.is_orthogonal()),
            82 => call!("is_so_n", if sqa { Exp::Free } else { Exp::Refuse }, a.is_so_n()),
            83 => call!("is_positive_definite", if sqa { Exp::Free } else { Exp::Refuse }, a.is_positive_definite()),
            84 => call!("matrix log", if sqa { Exp::Free } else { Exp::Refuse }, a.log()),
            85 => {
                // Applied to a copy when it may succeed, so that repeated products do not overflow.
                if sqa {
                    let mut a2 = es(a.duplicate(), "duplicate")?;
                    call!("log_in_place", Exp::Free, a2.log_in_place())
                } else {
                    call!("log_in_place", Exp::Refuse, a.log_in_place())
                }
            }
            86 => {
                // Applied to a copy when it may succeed, so that repeated products do not overflow.
                if sqa {
                    let mut a2 = es(a.duplicate(), "duplicate")?;
                    call!("adjugate_in_place", Exp::Free, a2.adjugate_in_place())
                } else {
                    call!("adjugate_in_place", Exp::Refuse, a.adjugate_in_place())
                }
            }
            87 => call!("main diagonal", ex(ia), a.diag(None)),
            88 => call!("dlyap", if sqa && same_ab { Exp::Free } else { Exp::Refuse }, a.dlyap(&b)),
            89 => {
                let al = g.pick(&[0.0f32, 0.5, 1.0, -1e-3, 1.001, -7.0, 1e30, f32::NAN, f32::INFINITY, -f32::INFINITY]);
                call!("lerp", ex(same_vwz && (0.0..=1.0).contains(&al)), v.lerp(&w, &z, al))
            }
            90 => {
                let al = g.pick(&[-1e-3f32, 1.001, -7.0, 1e30, f32::NAN, f32::INFINITY, -f32::INFINITY]);
                call!("slerp", Exp::Refuse, v.slerp(&w, &z, al))
            }
            _ => {
                let b1 = linalg::linalg::lup(&a);
                match b1 {
                    Ok((lu, p)) if sqa => {
                        // A right-hand side that is too short or uninitialised.
                        let e = match nw {
                            Some(n) if n >= ra => Exp::Free,
                            _ => Exp::Refuse,
                        };
                        call!("solve", e, linalg::linalg::solve(&lu, &w, &p))
                    }
                    _ if !sqa => {
                        // Not square: there is no system to solve, whatever the permutation.
                        let mut p: Vector<u8> = Vector::new();
                        if g.bool() {
                            es(p.init(4), "init")?;
                            for i in 0..4 {
                                es(p.set_element(i, i), "set_element")?;
                            }
                        }
                        call!("solve", Exp::Refuse, linalg::linalg::solve(&a, &w, &p))
                    }
                    _ => call!("trace", ex(sqa), a.trace()),
                }
            }
        }
        g.note(|| format!("{} on {:?} {:?} {:?} / {:?} {:?} {:?}, args {} {} {:?}: {:?} -> {}", name, da, db, dc, nv, nw, nz, i1, i2, s, exp, if ok { "ok" } else { "refused" }));
        match exp {
            // Repeated products may have grown beyond what the operation can represent: judged by C04.
            Exp::Must if large => {}
            Exp::Must => ensure!(ok, "{} with acceptable arguments was refused", name),
            Exp::Refuse => {
                g.nontrivial();
                ensure!(!ok, "{} with an invalid argument succeeded", name)
            }
            Exp::Free => {}
        }
        // Operands that are only read never change; after a refusal nothing changes.
        ensure!(snapm(&b) == sb && snapm(&c) == sc && snapv(&w) == sw && snapv(&z) == sz, "{} changed an operand", name);
        if exp == Exp::Refuse {
            ensure!(snapm(&a) == sa, "refused {} changed the matrix from {:?} to {:?}", name, sa, snapm(&a));
            ensure!(snapv(&v) == sv, "refused {} changed the vector from {:?} to {:?}", name, sv, snapv(&v));
        }
        if name == "matrix invert" && !ok {
            ensure!(snapm(&a) == sa, "refused inversion changed the matrix");
        }
    }
    // Still usable.
    if a.is_initialized() {
        es(a.set_element(0, 0, 7.0), "set_element after the history")?;
        ensure!(a.get_element(0, 0) == Ok(7.0), "matrix unusable after the history");
    } else {
        es(a.init(2, 3), "init after the history")?;
        ensure!(a.get_rows() == Ok(2) && a.get_cols() == Ok(3), "matrix unusable after the history");
        ensure!(snapm(&a) == Some((2, 3, vec![0; 6])), "a refused call left contents in a matrix that was never initialised: {:?}", snapm(&a));
    }
    if v.is_initialized() {
        es(v.set_element(0, 7.0), "set_element after the history")?;
        ensure!(v.get_element(0) == Ok(7.0), "vector unusable after the history");
    } else {
        es(v.init(3), "init after the history")?;
        ensure!(rdv(&v)? == vec![0.0; 3], "a refused call left contents in a vector that was never initialised");
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn fin_m(x: &Matrix, what: &str) -> R {
    if let Some((r, c, _)) = snapm(x) {
        for i in 0..r {
            for j in 0..c {
                let e = x.get_element(i, j);
                ensure!(matches!(e, Ok(v) if v.is_finite()), "{}: element ({},{}) is {:?}", what, i, j, e);
            }
        }
    }
    Ok(())
}
fn fin_v(x: &Vector<f32>, what: &str) -> R {
    if let Some((r, _)) = snapv(x) {
        for i in 0..r {
            let e = x.get_element(i);
            ensure!(matches!(e, Ok(v) if v.is_finite()), "{}: element {} is {:?}", what, i, e);
        }
    }
    Ok(())
}

fn big_list(g: &mut G, n: usize) -> Vec<f32> {
    let mode = g.below(4);
    (0..n)
        .map(|_| match mode {
            0 => any_finite(g),
            1 => g.pick(&[1e19f32, -1e19, 1e20, 2e19, 1.0, 0.0, 3e38, -3e38, 1e-30, 1e10, -1e10, 1e15]),
            2 => {
                if g.chance(1, 3) { any_finite(g) } else { val(g) }
            }
            _ => val(g) * g.pick(&[1.0, 1e9, 1e15, 1e18, 1e-20, 1e30]),
        })
        .collect()
}

/// Whether the exact result of an elementary operation has an element beyond the largest number, and
/// whether every partial result stays clearly below it.
fn exact_c04(op: u32, e: f32, s: f32, a: &M, b: &M, v: &[f32], w: &[f32]) -> Option<(bool, bool)> {
    let lim = f32::MAX as f64;
    let s = s as f64;
    let (mut hi, mut part) = (0.0f64, 0.0f64);
    // Exact value and sum of the magnitudes of the terms.
    let mut see = |x: f64, p: f64| {
        hi = if x.is_nan() { f64::INFINITY } else { hi.max(x.abs()) };
        part = if p.is_nan() { f64::INFINITY } else { part.max(p.abs()) };
    };
    let vs: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let ws: Vec<f64> = w.iter().map(|x| *x as f64).collect();
    match op {
        0..=9 | 13 | 14 => {
            let (mut t, mut ta) = (0.0, 0.0);
            for i in 0..a.r {
                for j in 0..a.c {
                    let (x, y) = (a.a[i][j], b.a[i][j]);
                    match op {
                        0 | 1 => see(x + y, x + y),
                        2 | 3 => see(x - y, x - y),
                        4 | 5 => see(x + s, x + s),
                        6 | 7 => see(x - s, x - s),
                        8 => see(x * s, x * s),
                        9 => {
                            let p = x.powf(e as f64);
                            see(p, p)
                        }
                        13 if i == j => {
                            t += x;
                            ta += x.abs();
                        }
                        14 => {
                            t = t.hypot(x);
                            ta += x * x;
                        }
                        _ => {}
                    }
                }
            }
            if op == 13 && a.r != a.c {
                return None;
            }
            see(t, ta);
        }
        10 | 11 => {
            let t = if op == 11 { b.t() } else { b.clone() };
            if a.c != t.r {
                return None;
            }
            for i in 0..a.r {
                for j in 0..t.c {
                    let (mut x, mut y) = (0.0, 0.0f64);
                    for k in 0..a.c {
                        x += a.a[i][k] * t.a[k][j];
                        y += (a.a[i][k] * t.a[k][j]).abs();
                    }
                    // The products of single precision numbers are exact, their sum is not.
                    see(if x.abs() > 1e-9 * y { x } else { 0.0 }, y);
                }
            }
        }
        30 | 31 => vs.iter().zip(&ws).for_each(|(x, y)| see(x + y, x + y)),
        32 | 33 => vs.iter().zip(&ws).for_each(|(x, y)| see(x - y, x - y)),
        34 => vs.iter().for_each(|x| see(x + s, x + s)),
        35 => vs.iter().for_each(|x| see(x - s, x - s)),
        36 | 37 => vs.iter().for_each(|x| see(x * s, x * s)),
        38 => {
            let n: f64 = vs.iter().map(|x| x * x).sum();
            see(n.sqrt(), n);
        }
        40 => {
            let x: f64 = vs.iter().zip(&ws).map(|(x, y)| x * y).sum();
            let y: f64 = vs.iter().zip(&ws).map(|(x, y)| (x * y).abs()).sum();
            see(if x.abs() > 1e-9 * y { x } else { 0.0 }, y);
        }
        41 => vs.iter().for_each(|x| ws.iter().for_each(|y| see(x * y, x * y))),
        43 => vs.iter().for_each(|x| {
            let p = x.powf(e as f64);
            see(p, p)
        }),
        54 => vs.iter().for_each(|x| see(*x, *x)),
        _ => return None,
    }
    if op == 54 && v.len() != 4 {
        return None;
    }
    Some((hi > lim * 1.000001, part < lim * 0.99))
}

fn c04(g: &mut G) -> R {
    let (r, c) = (g.size(1, 4) as usize, g.size(1, 4) as usize);
    let (r, c) = if g.bool() { (r, r) } else { (r, c) };
    let la = big_list(g, r * c);
    let lb = big_list(g, r * c);
    let to = |l: &[f32]| -> Result<Matrix, String> {
        let mut m = M::zero(r, c);
        for i in 0..r {
            for j in 0..c {
                m.a[i][j] = l[i * c + j] as f64;
            }
        }
        mk(&m)
    };
    let mut la = la;
    if r == c && g.chance(1, 3) {
        // Symmetric, so that definiteness and Cholesky are reached.
        for i in 0..r {
            for j in 0..i {
                la[i * c + j] = la[j * c + i];
            }
        }
    }
    let mut a = to(&la)?;
    let b = to(&lb)?;
    let n = g.size(1, 4) as usize;
    let n = if g.bool() { 4 } else { n };
    let lv = big_list(g, n);
    let lw = big_list(g, n);
    let lz = big_list(g, 3);
    let mut v = mkv(&lv)?;
    let w = mkv(&lw)?;
    let mut v3 = mkv(&lz)?;
    let s = if g.bool() { any_finite(g) } else { val(g) };
    if la.iter().chain(&lb).chain(&lv).chain(&lw).any(|x| x.abs() > 1e15 || (*x != 0.0 && x.abs() < 1e-15)) {
        g.nontrivial();
    }
    let steps = 1 + g.below(3);
    for _ in 0..steps {
        let op = g.below(56);
        let exponent = g.pick(&[0.5f32, 2.0, -1.0, 3.0, 0.0, -0.5, 10.0, 1.5, -3.0]);
        let exact = exact_c04(op, exponent, s, &rd(&a)?, &rd(&b)?, &rdv(&v)?, &rdv(&w)?);
        let mut done: Option<bool> = None;
        g.note(|| format!("op {} s={:?} a={:?} b={:?} v={:?} w={:?}", op, s, rd(&a).map(|m| m.show()), rd(&b).map(|m| m.show()), rdv(&v), rdv(&w)));
        macro_rules! d { ($e:expr) => { done = Some($e.is_ok()) } }
        macro_rules! m { ($e:expr) => { let e = $e; done = Some(e.is_ok()); if let Ok(x) = e { fin_m(&x, concat!("result of ", stringify!($e)))?; } } }
        macro_rules! vv { ($e:expr) => { let e = $e; done = Some(e.is_ok()); if let Ok(x) = e { fin_v(&x, concat!("result of ", stringify!($e)))?; } } }
        macro_rules! mm { ($e:expr) => { if let Ok((x, y)) = $e { fin_m(&x, concat!("result of ", stringify!($e)))?; fin_m(&y, concat!("result of ", stringify!($e)))?; } } }
        macro_rules! f { ($e:expr) => { let e = $e; done = Some(e.is_ok()); if let Ok(x) = e { ensure!(x.is_finite(), "{} returned {:?}", stringify!($e), x); } } }
        match op {
            0 => d!(a.add_in_place(&b)),
            1 => { m!(a.add_new(&b)); }
            2 => d!(a.sub_in_place(&b)),
            3 => { m!(a.sub_new(&b)); }
            4 => d!(a.add_scalar_in_place(s)),
            5 => { m!(a.add_scalar_new(s)); }
            6 => d!(a.sub_scalar_in_place(s)),
            7 => { m!(a.sub_scalar_new(s)); }
            8 => d!(a.mul_by_scalar_in_place(s)),
            9 => d!(a.power_elements(exponent)),
            10 => { m!(a.mul_new(&b)); }
            11 => { m!(a.mul_new(&es(b.transpose_new(), "transpose_new")?)); }
            12 => d!(a.invert()),
            13 => { f!(a.trace()); }
            14 => { f!(a.calculate_frobenius_norm()); }
            15 => { f!(a.det()); }
            16 => { f!(a.det_naive()); }
            17 => mm!(a.lr()),
            18 => mm!(a.lu_crout()),
            19 => mm!(a.qr_decomp()),
            20 => { m!(a.chol()); }
            21 => d!(a.is_positive_definite()),
            22 => d!(a.is_orthogonal()),
            23 => d!(a.is_so_n()),
            24 => { m!(a.log()); }
            25 => d!(a.log_in_place()),
            26 => d!(a.adjugate_in_place()),
            27 => {
                let sh = g.bool();
                if let Ok((x, y)) = linalg::linalg::eigen(&a, g.pick(&[1u16, 5, 40]), sh) {
                    fin_v(&x, "eigenvalues")?;
                    fin_m(&y, "eigenvectors")?;
                }
            }
            28 => {
                if let Ok((lu, p)) = linalg::linalg::lup(&a) {
                    fin_m(&lu, "LU factors")?;
                    if r == c {
                        let rhs = mkv(&big_list(g, r))?;
                        vv!(linalg::linalg::solve(&lu, &rhs, &p));
                    }
                }
            }
            29 => {
                let mut d = es(a.duplicate(), "duplicate")?;
                drop(d.add(&a, &b));
                fin_m(&d, "sum")?;
                drop(d.sub(&a, &b));
                fin_m(&d, "difference")?;
                drop(d.add_scalar(&a, s));
                fin_m(&d, "scalar sum")?;
                drop(d.sub_scalar(&a, s));
                fin_m(&d, "scalar difference")?;
            }
            30 => d!(v.add_in_place(&w)),
            31 => { vv!(v.add_new(&w)); }
            32 => d!(v.sub_in_place(&w)),
            33 => { vv!(v.sub_new(&w)); }
            34 => d!(v.add_scalar_in_place(s)),
            35 => { vv!(v.sub_scalar_new(s)); }
            36 => d!(v.mul_by_scalar_in_place(s)),
            37 => { vv!(v.mul_by_scalar_new(s)); }
            38 => { f!(v.calculate_norm()); }
            39 => d!(v.normalize()),
            40 => { f!(v.dot_product(&w)); }
            41 => { m!(v.outer_product(&w)); }
            42 => {
                let t = g.unit() as f32;
                let mut d = es(v.duplicate(), "duplicate")?;
                drop(d.slerp(&v, &w, t));
                fin_v(&d, "slerp")?;
                drop(d.lerp(&v, &w, t));
                fin_v(&d, "lerp")?;
            }
            43 => d!(v.power_elements(exponent)),
            44 => {
                let mut d = es(v.duplicate(), "duplicate")?;
                drop(Quaternion::mul(&mut d, &v, &w));
                fin_v(&d, "quaternion product")?;
                vv!(v.mul_new(&w));
            }
            45 => d!(Quaternion::invert(&mut v)),
            46 => { m!(v.convert_to_dcm()); }
            47 => {
                vv!(v.exp_new());
                drop(v.exp());
            }
            48 => {
                if let Ok((x, y, z)) = v.convert_to_euler() {
                    ensure!(x.is_finite() && y.is_finite() && z.is_finite(), "Euler angles ({:?}, {:?}, {:?})", x, y, z);
                }
            }
            49 => { vv!(v.rotate(&v3)); }
            50 => d!(v.rotate_in_place(&mut v3)),
            51 => d!(v.hughes(&a)),
            52 => d!(v.chiaverini(&a)),
            53 => d!(v.sarabandi(&a, None)),
            54 => d!(v.conjugate()),
            _ => drop(v.is_versor()),
        }
        if let (Some((over, under)), Some(ok)) = (exact, done) {
            ensure!(!(over && ok), "an operation whose result overflows succeeded");
            ensure!(!(under && !ok), "an operation whose result is representable was refused");
        }
        fin_m(&a, "matrix")?;
        fin_m(&b, "operand matrix")?;
        fin_v(&v, "vector")?;
        fin_v(&w, "operand vector")?;
        fin_v(&v3, "3-vector")?;
    }
    Ok(())
}
