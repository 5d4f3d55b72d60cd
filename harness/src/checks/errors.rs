//! C36: every refusal names a cause that is present.
use super::filters::{nim, P};
use super::sensors::*;
use super::storage::{index_arg, pool_matrix, pool_vector, scalar_arg, size_arg};
use crate::engine::{Prop, G, R};
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use dsp::complex::Complex;
use linalg::matrix::Matrix;
use linalg::vector::Vector;
use open_ahrs::aqua::Aqua;
use open_ahrs::ar::AR;
use open_ahrs::davenport::Davenport;
use quaternion::quaternion::Quaternion;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C36",
        quick: 60_000_000,
        thorough: 600_000_000,
        rule: "at least one call of the case must be refused, and exactly one cause for it is present",
        assumptions: &["when several causes are present any of them may be named", "what has not been initialised has no size, so the missing size may be named instead"],
        run: c36,
    });
}

/// The causes that are present.
type Causes = Vec<(bool, &'static str)>;

fn kind<T, E: std::fmt::Debug>(r: &Result<T, E>) -> Option<String> {
    r.as_ref().err().map(|e| format!("{:?}", e))
}

fn judge(g: &mut G, name: &str, got: Option<String>, causes: &Causes) -> R {
    let mut hits: Vec<&str> = causes.iter().filter(|c| c.0).map(|c| c.1).collect();
    hits.sort();
    hits.dedup();
    g.note(|| format!("{}: {:?}, causes {:?}", name, got, hits));
    if hits.is_empty() {
        // An error may have another reason, such as an overflow, but must not name an absent one.
        if let Some(k) = &got {
            ensure!(
                k == "NotSymetric" || k.contains("Nan") || k.contains("Inf") || !causes.iter().any(|c| c.1 == k),
                "{} was refused with {}, which is not the case", name, k
            );
        }
        return Ok(());
    }
    if hits.len() == 1 {
        g.nontrivial();
    }
    match got {
        None => Err(format!("{} succeeded although it had to be refused for {:?}", name, hits)),
        Some(k) => {
            // What has not been initialised has no size, which may be the cause that is named.
            let unsized_ = hits.contains(&"NotInit") && ["RowsNumberNull", "ColsNumberNull", "InvalidSize", "InvalidDiagonalLength"].contains(&k.as_str());
            ensure!(unsized_ || hits.contains(&k.as_str()), "{} was refused with {}, the causes present are {:?}", name, k, hits);
            Ok(())
        }
    }
}

/// Whether two of the initialised operands have different sizes.
fn differ<T: PartialEq + Copy>(l: &[Option<T>]) -> bool {
    let l: Vec<T> = l.iter().flatten().copied().collect();
    l.iter().any(|x| *x != l[0])
}

fn nf(s: f32) -> [(bool, &'static str); 2] {
    [(s.is_nan(), "UtilsError(Nan)"), (s.is_infinite(), "UtilsError(Inf)")]
}
fn deep(s: f32) -> [(bool, &'static str); 2] {
    [(s.is_nan(), "LinalgError(UtilsError(Nan))"), (s.is_infinite(), "LinalgError(UtilsError(Inf))")]
}
fn rows(n: u8) -> [(bool, &'static str); 2] {
    [(n == 0, "RowsNumberNull"), (n > 4, "RowsNumberOverflow")]
}
fn cols(n: u8) -> [(bool, &'static str); 2] {
    [(n == 0, "ColsNumberNull"), (n > 4, "ColsNumberOverflow")]
}

fn c36(g: &mut G) -> R {
    match g.below(10) {
        0..=3 => tables(g),
        4 => lists(g),
        5 => quats(g),
        6 => sensors(g),
        7 => filters(g),
        8 => numeric(g),
        _ => complexes(g),
    }
}

fn tables(g: &mut G) -> R {
    let base = (g.size(1, 4), g.size(1, 4));
    let mut a = pool_matrix(g, Some(base))?;
    let b = pool_matrix(g, Some(base))?;
    let shape = if g.bool() { base } else { (base.1, base.0) };
    let c = pool_matrix(g, Some(shape))?;
    let size = if g.bool() { base.1 } else { base.0 };
    let mut v = pool_vector(g, Some(size))?;
    let dim = |x: &Matrix| if x.is_initialized() { Some((x.get_rows().unwrap_or(0), x.get_cols().unwrap_or(0))) } else { None };
    let (da, db, dc) = (dim(&a), dim(&b), dim(&c));
    let nv = if v.is_initialized() { v.get_rows().ok() } else { None };
    g.note(|| format!("matrices {:?} {:?} {:?}, vector {:?}", da, db, dc, nv));
    let (ra, ca) = da.unwrap_or((0, 0));
    let (ia, ib, ic, iv) = (da.is_some(), db.is_some(), dc.is_some(), nv.is_some());
    let (i1, i2, s) = (index_arg(g), index_arg(g), scalar_arg(g));
    let n1 = (!ia, "NotInit");
    let n2 = (!ia || !ib, "NotInit");
    let n3 = (!ia || !ib || !ic, "NotInit");
    let nva = (!ia || !iv, "NotInit");
    let sq = (ia && ra != ca, "NotSquare");
    let same2 = (ia && ib && da != db, "NotSameSize");
    let same3 = (differ(&[da, db, dc]), "NotSameSize");
    let row = (ia && i1 >= ra, "InvalidRow");
    let col = (ia && i1 >= ca, "InvalidCol");
    macro_rules! t {
        ($n:expr, [$($c:expr),*], $($more:expr),*; $e:expr) => {{
            let mut cs: Causes = vec![$($c),*];
            $(cs.extend_from_slice(&$more);)*
            let r = kind(&$e);
            judge(g, $n, r, &cs)
        }};
        ($n:expr, [$($c:expr),*]; $e:expr) => { t!($n, [$($c),*], []; $e) };
    }
    match g.below(46) {
        0 => {
            let (r, cc) = (size_arg(g), size_arg(g));
            t!("matrix init", [(ia, "AlreadyInit")], rows(r), cols(cc); a.init(r, cc))
        }
        1 => {
            let (r, cc) = (size_arg(g), size_arg(g));
            t!("matrix reinit", [n1], rows(r), cols(cc); a.reinit(r, cc))
        }
        2 => t!("matrix get_rows", [n1]; a.get_rows()),
        3 => t!("matrix get_cols", [n1]; a.get_cols()),
        4 => t!("matrix set_element", [n1, row, (ia && i2 >= ca, "InvalidCol")], nf(s); a.set_element(i1, i2, s)),
        5 => t!("matrix get_element", [n1, row, (ia && i2 >= ca, "InvalidCol")]; a.get_element(i1, i2)),
        6 => t!("set_row", [nva, row, (ia && iv && nv != Some(ca), "InvalidSize")]; a.set_row(&v, i1)),
        7 => t!("set_col", [nva, col, (ia && iv && nv != Some(ra), "InvalidSize")]; a.set_col(&v, i1)),
        8 => t!("get_row", [nva, row, (ia && iv && nv != Some(ca), "InvalidSize")]; a.get_row(&mut v, i1)),
        9 => t!("get_col", [nva, col, (ia && iv && nv != Some(ra), "InvalidSize")]; a.get_col(&mut v, i1)),
        10 => t!("row_to_vector", [n1, row]; a.row_to_vector(i1)),
        11 => t!("col_to_vector", [n1, col]; a.col_to_vector(i1)),
        12 => t!("add_row", [nva, (ia && ra == 4, "RowsNumberOverflow"), (ia && i1 > ra, "InvalidRow"), (ia && iv && nv != Some(ca), "InvalidSize")]; a.add_row(&v, i1)),
        13 => t!("add_col", [nva, (ia && ca == 4, "ColsNumberOverflow"), (ia && i1 > ca, "InvalidCol"), (ia && iv && nv != Some(ra), "InvalidSize")]; a.add_col(&v, i1)),
        14 => t!("del_row", [n1, (ia && ra == 1, "RowsNumberNull"), row]; a.del_row(i1)),
        15 => t!("matrix fill", [n1], nf(s); a.fill(s)),
        16 => t!("matrix is_same_size_as", [n2]; a.is_same_size_as(&b)),
        17 => t!("is_square", [n1]; a.is_square()),
        18 => t!("matrix is_equal_to", [n2]; a.is_equal_to(&b, 0.1)),
        19 => t!("matrix fill_identity", [n1, sq]; a.fill_identity()),
        20 => t!("matrix copy_from", [n2, same2]; a.copy_from(&b)),
        21 => t!("matrix duplicate", [n1]; a.duplicate()),
        22 => t!("matrix add", [n3, same3]; a.add(&b, &c)),
        23 => t!("matrix add_in_place", [n2, same2]; a.add_in_place(&b)),
        24 => t!("matrix add_new", [n2, same2]; a.add_new(&b)),
        25 => t!("matrix add_scalar", [n2, same2], nf(s); a.add_scalar(&b, s)),
        26 => t!("matrix add_scalar_in_place", [n1], nf(s); a.add_scalar_in_place(s)),
        27 => t!("matrix add_scalar_new", [n1], nf(s); a.add_scalar_new(s)),
        28 => t!("matrix sub", [n3, same3]; a.sub(&b, &c)),
        29 => t!("matrix sub_in_place", [n2, same2]; a.sub_in_place(&b)),
        30 => t!("matrix sub_new", [n2, same2]; a.sub_new(&b)),
        31 => t!("matrix sub_scalar", [n2, same2], nf(s); a.sub_scalar(&b, s)),
        32 => t!("matrix sub_scalar_in_place", [n1], nf(s); a.sub_scalar_in_place(s)),
        33 => t!("matrix sub_scalar_new", [n1], nf(s); a.sub_scalar_new(s)),
        34 => {
            let bad = match (da, db, dc) {
                (Some(x), Some(y), Some(z)) => y.1 != z.0 || x.0 != y.0 || x.1 != z.1,
                _ => false,
            };
            t!("matrix mul", [n3, (bad, "InvalidSize")]; a.mul(&b, &c))
        }
        35 => t!("matrix mul_new", [(!ia || !ic, "NotInit"), (ia && ic && ca != dc.unwrap_or((0, 0)).0, "InvalidSize")]; a.mul_new(&c)),
        36 => t!("transpose", [n1]; a.transpose()),
        37 => t!("transpose_new", [n1]; a.transpose_new()),
        38 => t!("matrix mul_by_scalar_in_place", [n1], if a.is_initialized() && rd(&a)?.a.iter().flatten().any(|x| *x == 0.0) && s.is_infinite() { [(true, "UtilsError(Nan)"), (true, "UtilsError(Inf)")] } else { nf(s) }; a.mul_by_scalar_in_place(s)),
        39 => {
            let e = if s.is_finite() { 2.0 } else { s };
            t!("matrix power_elements", [n1], nf(e); a.power_elements(e))
        }
        40 => t!("trace", [n1, sq]; a.trace()),
        41 => t!("calculate_frobenius_norm", [n1]; a.calculate_frobenius_norm()),
        42 => match g.below(3) {
            0 => t!("is_upper_triangular", [n1]; a.is_upper_triangular()),
            1 => t!("is_lower_triangular", [n1]; a.is_lower_triangular()),
            _ => t!("is_symmetric", [n1]; a.is_symmetric()),
        },
        43 => {
            let k = if g.chance(1, 4) { g.pick(&[-128i8, -127, -5, -4, 4, 5, 100, 127]) } else { g.range(-4, 4) as i8 };
            let k16 = k as i16;
            let len = if k16 >= 0 { (ra as i16).min(ca as i16 - k16) } else { (ra as i16 + k16).min(ca as i16) };
            t!("diag", [n1, (len <= 0, "InvalidDiagonalLength")]; a.diag(Some(k)))
        }
        44 => match g.below(8) {
            0 => t!("lr", [n1, sq]; a.lr()),
            1 => t!("lu_crout", [n1, sq]; a.lu_crout()),
            2 => t!("det", [n1, sq]; a.det()),
            3 => t!("det_naive", [n1, sq]; a.det_naive()),
            4 => t!("qr_decomp", [n1]; a.qr_decomp()),
            5 => t!("eigen", [n1, sq]; linalg::linalg::eigen(&a, 5, g.bool())),
            6 => t!("lup", [n1]; linalg::linalg::lup(&a)),
            _ => {
                let p: Vector<u8> = Vector::new();
                t!("solve", [n1, sq, (ia && ra == ca, "NotInit")]; linalg::linalg::solve(&a, &v, &p))
            }
        },
        _ => match g.below(3) {
            0 => t!("matrix invert", [n1, sq]; a.invert()),
            1 => t!("chol", [n1, (ia && ra != ca, "NotSymetric")]; a.chol()),
            _ => t!("is_positive_definite", [n1, (ia && ra != ca, "NotSymetric")]; a.is_positive_definite()),
        },
    }
}

fn lists(g: &mut G) -> R {
    let n = g.size(1, 4);
    let mut v = pool_vector(g, Some(n))?;
    let w = pool_vector(g, Some(n))?;
    let z = pool_vector(g, Some(n))?;
    let len = |x: &Vector<f32>| if x.is_initialized() { x.get_rows().ok() } else { None };
    let (nv, nw, nz) = (len(&v), len(&w), len(&z));
    g.note(|| format!("vectors {:?} {:?} {:?}", nv, nw, nz));
    let (iv, iw, iz) = (nv.is_some(), nw.is_some(), nz.is_some());
    let (i1, s) = (index_arg(g), scalar_arg(g));
    let n1 = (!iv, "NotInit");
    let n2 = (!iv || !iw, "NotInit");
    let n3 = (!iv || !iw || !iz, "NotInit");
    let same2 = (iv && iw && nv != nw, "NotSameSize");
    let same3 = (differ(&[nv, nw, nz]), "NotSameSize");
    let row = (iv && i1 >= nv.unwrap_or(0), "InvalidRow");
    let zero = iv && rdv(&v)?.iter().any(|x| *x == 0.0);
    let zero_w = iw && rdv(&w)?.iter().any(|x| *x == 0.0);
    let scaled = |zero: bool| if zero && s.is_infinite() { [(true, "UtilsError(Nan)"), (true, "UtilsError(Inf)")] } else { nf(s) };
    macro_rules! t {
        ($n:expr, [$($c:expr),*], $($more:expr),*; $e:expr) => {{
            let mut cs: Causes = vec![$($c),*];
            $(cs.extend_from_slice(&$more);)*
            let r = kind(&$e);
            judge(g, $n, r, &cs)
        }};
        ($n:expr, [$($c:expr),*]; $e:expr) => { t!($n, [$($c),*], []; $e) };
    }
    match g.below(34) {
        0 => {
            let n = size_arg(g);
            t!("vector init", [(iv, "AlreadyInit")], rows(n); v.init(n))
        }
        1 => {
            let n = size_arg(g);
            t!("vector reinit", [n1], rows(n); v.reinit(n))
        }
        2 => t!("vector get_rows", [n1]; v.get_rows()),
        3 => t!("vector set_element", [n1, row], nf(s); v.set_element(i1, s)),
        4 => t!("vector get_element", [n1, row]; v.get_element(i1)),
        5 => t!("vector fill", [n1], nf(s); v.fill(s)),
        6 => t!("vector is_same_size_as", [n2]; v.is_same_size_as(&w)),
        7 => t!("vector is_equal_to", [n2]; v.is_equal_to(&w, 0.1)),
        8 => t!("vector copy_from", [n2, same2]; v.copy_from(&w)),
        9 => t!("vector duplicate", [n1]; v.duplicate()),
        10 => t!("vector add", [n3, same3]; v.add(&w, &z)),
        11 => t!("vector add_in_place", [n2, same2]; v.add_in_place(&w)),
        12 => t!("vector add_new", [n2, same2]; v.add_new(&w)),
        13 => t!("vector sub", [n3, same3]; v.sub(&w, &z)),
        14 => t!("vector sub_in_place", [n2, same2]; v.sub_in_place(&w)),
        15 => t!("vector sub_new", [n2, same2]; v.sub_new(&w)),
        16 => t!("vector add_scalar", [n2, same2], nf(s); v.add_scalar(&w, s)),
        17 => t!("vector add_scalar_in_place", [n1], nf(s); v.add_scalar_in_place(s)),
        18 => t!("vector add_scalar_new", [n1], nf(s); v.add_scalar_new(s)),
        19 => t!("vector sub_scalar", [n2, same2], nf(s); v.sub_scalar(&w, s)),
        20 => t!("vector sub_scalar_in_place", [n1], nf(s); v.sub_scalar_in_place(s)),
        21 => t!("vector sub_scalar_new", [n1], nf(s); v.sub_scalar_new(s)),
        22 => t!("vector mul_by_scalar", [n2, same2], scaled(zero_w); v.mul_by_scalar(&w, s)),
        23 => t!("vector mul_by_scalar_in_place", [n1], scaled(zero); v.mul_by_scalar_in_place(s)),
        24 => t!("vector mul_by_scalar_new", [n1], scaled(zero); v.mul_by_scalar_new(s)),
        25 => t!("calculate_norm", [n1]; v.calculate_norm()),
        26 => t!("normalize", [n1]; v.normalize()),
        27 => t!("dot_product", [n2, same2]; v.dot_product(&w)),
        28 => t!("outer_product", [n2]; v.outer_product(&w)),
        29 => {
            let e = if s.is_finite() { 2.0 } else { s };
            t!("vector power_elements", [n1], nf(e); v.power_elements(e))
        }
        30 => t!("convert_to_matrix", [n1]; v.convert_to_matrix()),
        31 | 32 => {
            let al = g.pick(&[0.0f32, 0.5, 1.0, -0.01, 1.01, 100.0, f32::NAN, f32::INFINITY]);
            let bad = (!(0.0..=1.0).contains(&al), "InvalidAlpha");
            if g.bool() {
                t!("lerp", [n3, same3, bad]; v.lerp(&w, &z, al))
            } else {
                t!("slerp", [n3, same3, bad]; v.slerp(&w, &z, al))
            }
        }
        _ => {
            let mut u: Vector<u8> = Vector::new();
            let m = if g.bool() { g.size(1, 4) } else { 0 };
            if m > 0 {
                es(u.init(m), "u8 init")?;
            }
            match g.below(4) {
                0 => {
                    let k = size_arg(g);
                    t!("u8 init", [(m > 0, "AlreadyInit")], rows(k); u.init(k))
                }
                1 => {
                    let k = size_arg(g);
                    t!("u8 reinit", [(m == 0, "NotInit")], rows(k); u.reinit(k))
                }
                2 => t!("u8 set_element", [(m == 0, "NotInit"), (m > 0 && i1 >= m, "InvalidRow")]; u.set_element(i1, 3)),
                _ => t!("u8 get_element", [(m == 0, "NotInit"), (m > 0 && i1 >= m, "InvalidRow")]; u.get_element(i1)),
            }
        }
    }
}

fn quats(g: &mut G) -> R {
    let len = |g: &mut G| if g.bool() { 4 } else { g.below(5) as u8 };
    let mkl = |g: &mut G, n: u8| -> Result<Vector<f32>, String> {
        let l: Vec<f32> = (0..n).map(|_| val(g)).collect();
        if n == 0 { Ok(Vector::new()) } else { mkv(&l) }
    };
    let (nx, ny, nd) = (len(g), len(g), len(g));
    let mut x = mkl(g, nx)?;
    let y = mkl(g, ny)?;
    let mut d = mkl(g, nd)?;
    let nz = g.pick(&[3u8, 3, 3, 0, 1, 2, 4]);
    let mut z = mkl(g, nz)?;
    g.note(|| format!("lengths {} {} {} {}", nx, ny, nd, nz));
    let n1 = (nx == 0, "NotInit");
    let q1 = (nx != 0 && nx != 4, "InvalidSize");
    let s = scalar_arg(g);
    macro_rules! t {
        ($n:expr, [$($c:expr),*], $($more:expr),*; $e:expr) => {{
            let mut cs: Causes = vec![$($c),*];
            $(cs.extend_from_slice(&$more);)*
            let r = kind(&$e);
            judge(g, $n, r, &cs)
        }};
        ($n:expr, [$($c:expr),*]; $e:expr) => { t!($n, [$($c),*], []; $e) };
    }
    match g.below(23) {
        0 => t!("is_quaternion", [n1]; x.is_quaternion()),
        1 => t!("is_real", [n1, q1]; x.is_real()),
        2 => t!("is_pure", [n1, q1]; x.is_pure()),
        3 => t!("is_versor", [n1, q1]; x.is_versor()),
        4 => t!("is_identity", [n1, q1]; x.is_identity()),
        5 => match g.below(4) {
            0 => t!("set_qw", [n1, q1], nf(s); x.set_qw(s)),
            1 => t!("set_qx", [n1, q1], nf(s); x.set_qx(s)),
            2 => t!("set_qy", [n1, q1], nf(s); x.set_qy(s)),
            _ => t!("set_qz", [n1, q1], nf(s); x.set_qz(s)),
        },
        6 => match g.below(4) {
            0 => t!("get_qw", [n1, q1]; x.get_qw()),
            1 => t!("get_qx", [n1, q1]; x.get_qx()),
            2 => t!("get_qy", [n1, q1]; x.get_qy()),
            _ => t!("get_qz", [n1, q1]; x.get_qz()),
        },
        7 => t!("get_vector_part", [n1, q1]; x.get_vector_part()),
        8 => {
            let q = [scalar_arg(g), scalar_arg(g), scalar_arg(g), scalar_arg(g)];
            t!("fillq", [n1, q1], nf(q[0]), nf(q[1]), nf(q[2]), nf(q[3]); x.fillq(q[0], q[1], q[2], q[3]))
        }
        9 => t!("quaternion fill_identity", [n1, q1]; Quaternion::fill_identity(&mut x)),
        10 => t!("conjugate", [n1, q1]; x.conjugate()),
        11 => t!("conjugate_new", [n1, q1]; x.conjugate_new()),
        12 | 13 => t!("quaternion mul", [(nx == 0 || ny == 0 || nd == 0, "NotInit"), (nx % 4 != 0 || ny % 4 != 0 || nd % 4 != 0, "InvalidSize")]; Quaternion::mul(&mut d, &x, &y)),
        14 => t!("quaternion mul_new", [(nx == 0 || ny == 0, "NotInit"), (nx % 4 != 0 || ny % 4 != 0, "InvalidSize")]; Quaternion::mul_new(&x, &y)),
        15 => t!("quaternion invert", [n1, q1]; Quaternion::invert(&mut x)),
        16 => t!("convert_to_dcm", [n1, q1]; x.convert_to_dcm()),
        17 => t!("exp", [n1, q1]; x.exp()),
        18 => t!("exp_new", [n1, q1]; x.exp_new()),
        19 => t!("rotate", [(nx == 0 || nz == 0, "NotInit"), q1, (nz != 0 && nz != 3, "InvalidSize")]; x.rotate(&z)),
        20 => t!("rotate_in_place", [(nx == 0 || nz == 0, "NotInit"), q1, (nz != 0 && nz != 3, "InvalidSize")]; x.rotate_in_place(&mut z)),
        21 => t!("convert_to_euler", [n1, q1]; x.convert_to_euler()),
        _ => {
            let (r, c) = if g.bool() { (3, 3) } else { (g.size(1, 4), g.size(1, 4)) };
            let un = g.chance(1, 4);
            let m = if un { Matrix::new() } else { mk(&randm(g, r as usize, c as usize))? };
            let cs: Causes = vec![(nx == 0 || un, "NotInit"), q1, (!un && r != c, "NotSquare"), (!un && r < 3, "InvalidRow"), (!un && c < 3, "InvalidCol")];
            // A matrix that is too large is not refused by every conversion.
            if !un && r >= 3 && c >= 3 && (r, c) != (3, 3) {
                return Ok(());
            }
            let (name, k) = match g.below(3) {
                0 => ("hughes", kind(&x.hughes(&m))),
                1 => ("chiaverini", kind(&x.chiaverini(&m))),
                _ => ("sarabandi", kind(&x.sarabandi(&m, None))),
            };
            judge(g, name, k, &cs)
        }
    }
}

fn sensors(g: &mut G) -> R {
    let which = g.below(3);
    let mut s = Sensor::new(which)?;
    let (not, already) = [("GyrNotInit", "GyrAlreadyInit"), ("AccNotInit", "AccAlreadyInit"), ("MagNotInit", "MagAlreadyInit")][which as usize];
    let mut init = false;
    for _ in 0..1 + g.below(4) {
        let mut c = mild_cfg(g);
        let bad = if g.chance(1, 3) {
            let n = nonfinite(g);
            c[g.below(12) as usize] = n;
            n
        } else {
            0.0
        };
        match g.below(5) {
            0 | 1 => {
                let cs: Causes = [&[(init, already)][..], &deep(bad)].concat();
                let k = match &mut s {
                    Sensor::G(x) => kind(&x.init(&gyr_cfg(&c))),
                    Sensor::A(x) => kind(&x.init(&acc_cfg(&c))),
                    Sensor::M(x) => kind(&x.init(&mag_cfg(&c))),
                };
                init |= k.is_none();
                judge(g, "sensor init", k, &cs)?;
            }
            2 => {
                let cs: Causes = [&[(!init, not)][..], &deep(bad)].concat();
                let k = match &mut s {
                    Sensor::G(x) => kind(&x.set_config(&gyr_cfg(&c))),
                    Sensor::A(x) => kind(&x.set_config(&acc_cfg(&c))),
                    Sensor::M(x) => kind(&x.set_config(&mag_cfg(&c))),
                };
                judge(g, "sensor set_config", k, &cs)?;
            }
            3 => {
                let mut r = [val(g), val(g), val(g)];
                let bad = if g.chance(1, 3) {
                    let n = nonfinite(g);
                    r[g.below(3) as usize] = n;
                    n
                } else {
                    0.0
                };
                let cs: Causes = [&[(!init, not)][..], &deep(bad)].concat();
                let k = match &mut s {
                    Sensor::G(x) => kind(&x.update(r[0], r[1], r[2])),
                    Sensor::A(x) => kind(&x.update(r[0], r[1], r[2])),
                    Sensor::M(x) => kind(&x.update(r[0], r[1], r[2])),
                };
                judge(g, "sensor update", k, &cs)?;
            }
            _ => {
                let cs: Causes = vec![(!init, not)];
                let ks = match &mut s {
                    Sensor::G(x) => [kind(&x.get_config()), kind(&x.get_x_angular_rate()), kind(&x.get_y_angular_rate()), kind(&x.get_z_angular_rate())],
                    Sensor::A(x) => [kind(&x.get_config()), kind(&x.get_x_acceleration()), kind(&x.get_y_acceleration()), kind(&x.get_z_acceleration())],
                    Sensor::M(x) => [kind(&x.get_config()), kind(&x.get_x_magnetic_field()), kind(&x.get_y_magnetic_field()), kind(&x.get_z_magnetic_field())],
                };
                for k in ks {
                    judge(g, "sensor reading", k, &cs)?;
                }
            }
        }
    }
    Ok(())
}

fn mild_cfg(g: &mut G) -> Cfg {
    let mut c = PLAIN;
    for x in c.iter_mut() {
        *x = g.uniform(-2.0, 2.0) as f32;
    }
    c
}

fn filters(g: &mut G) -> R {
    let q = unitq(g);
    match g.below(5) {
        0 | 1 => {
            let mut f = es(AR::new(), "AR::new")?;
            let mut init: Option<u32> = None;
            for _ in 0..1 + g.below(4) {
                let bad = if g.chance(1, 3) { nonfinite(g) } else { 0.0 };
                if g.bool() {
                    let (mut q, mut c) = (q, PLAIN);
                    if !bad.is_finite() {
                        if g.bool() {
                            q[g.below(4) as usize] = bad;
                        } else {
                            c[g.below(12) as usize] = bad;
                        }
                    }
                    let m = g.below(5);
                    let cs: Causes = [&[(init.is_some(), "ARFilterAlreadyInit")][..], &deep(bad)].concat();
                    let k = kind(&f.init(q[0], q[1], q[2], q[3], &gyr_cfg(&c), 0.01, nim(m), 2));
                    if k.is_none() {
                        init = Some(m);
                    }
                    judge(g, "AR init", k, &cs)?;
                } else if g.chance(1, 4) {
                    let k = kind(&f.get_attitude());
                    judge(g, "AR get_attitude", k, &vec![(init.is_none(), "ARFilterNotInit")])?;
                } else {
                    let mut w = [1.0, val(g), val(g)];
                    if !bad.is_finite() {
                        w[g.below(3) as usize] = bad;
                    }
                    let cs: Causes = [&[(init.is_none(), "ARFilterNotInit"), (init.map(|m| m >= 3).unwrap_or(false), "ARMethodError")][..], &deep(bad)].concat();
                    let k = kind(&f.update(w[0], w[1], w[2]));
                    judge(g, "AR update", k, &cs)?;
                }
            }
            Ok(())
        }
        2 | 3 => {
            let mut f = es(Aqua::new(), "Aqua::new")?;
            let mut init: Option<bool> = None;
            let mut fault: Option<&'static str> = None;
            for _ in 0..1 + g.below(4) {
                let bad = if g.chance(1, 3) { nonfinite(g) } else { 0.0 };
                let marg = g.bool();
                match g.below(5) {
                    0 | 1 => {
                        let mut p = P::plain(marg, &q);
                        let missing = g.chance(1, 4);
                        if missing {
                            p.gyr = None;
                        }
                        let given = if g.chance(1, 4) { g.below(16) } else { 15 };
                        for i in 0..4 {
                            if given >> i & 1 == 0 {
                                p.q[i] = None;
                            }
                        }
                        if !bad.is_finite() {
                            match g.below(4) {
                                0 => p.acc[g.below(12) as usize] = bad,
                                1 => p.mag[g.below(12) as usize] = bad,
                                2 if p.gyr.is_some() => {
                                    let mut c = PLAIN;
                                    c[g.below(12) as usize] = bad;
                                    p.gyr = Some(c);
                                }
                                _ => {
                                    p.q = [Some(0.5); 4];
                                    p.q[g.below(4) as usize] = Some(bad);
                                }
                            }
                        }
                        // Parameters that only an update finds wrong.
                        let odd = g.pick(&[-0.01f32, 1.01, 7.0, f32::NAN]);
                        let wrong = match g.below(12) {
                            0 => {
                                p.alpha = odd;
                                Some("LinalgError(InvalidAlpha)")
                            }
                            1 => {
                                p.beta = odd;
                                Some("LinalgError(InvalidAlpha)")
                            }
                            2 => {
                                p.ta = odd;
                                Some("InvalidAquaInterpolationTreshold")
                            }
                            3 => {
                                p.tm = odd;
                                Some("InvalidAquaInterpolationTreshold")
                            }
                            4 => {
                                p.adaptive = true;
                                p.t2 = p.t1;
                                Some("InvalidAdaptiveGainTresholds")
                            }
                            _ => None,
                        };
                        let some = p.q.iter().filter(|x| x.is_some()).count();
                        let cs: Causes = [
                            &[(init.is_some(), "AquaFilterAlreadyInit"), (marg && missing, "NoGyroconfig"), (some != 0 && some != 4, "InvalidInitQuaternion")][..],
                            &deep(bad),
                        ]
                        .concat();
                        let k = kind(&p.init(&mut f));
                        if k.is_none() {
                            init = Some(marg);
                            fault = if marg { wrong } else { None };
                        }
                        judge(g, "Aqua init", k, &cs)?;
                    }
                    2 => {
                        let k = kind(&f.get_attitude());
                        judge(g, "Aqua get_attitude", k, &vec![(init.is_none(), "AquaFilterNotInit")])?;
                    }
                    3 => {
                        let mut c = PLAIN;
                        if !bad.is_finite() {
                            c[g.below(12) as usize] = bad;
                        }
                        let no_gyr = init != Some(true);
                        let (name, k, no, err) = match g.below(6) {
                            0 => ("set_accelerometer_config", kind(&f.set_accelerometer_config(&acc_cfg(&c))), init.is_none(), "AccNotInit"),
                            1 => ("set_magnetometer_config", kind(&f.set_magnetometer_config(&mag_cfg(&c))), init.is_none(), "MagNotInit"),
                            2 => ("set_gyrometer_config", kind(&f.set_gyrometer_config(&gyr_cfg(&c))), no_gyr, "GyrNotInit"),
                            3 => ("get_accelerometer_config", kind(&f.get_accelerometer_config()), init.is_none(), "AccNotInit"),
                            4 => ("get_magnetometer_config", kind(&f.get_magnetometer_config()), init.is_none(), "MagNotInit"),
                            _ => ("get_gyrometer_config", kind(&f.get_gyrometer_config()), no_gyr, "GyrNotInit"),
                        };
                        let mut cs: Causes = vec![(no, err)];
                        if name.starts_with("set") {
                            cs.extend_from_slice(&deep(bad));
                        }
                        judge(g, name, k, &cs)?;
                    }
                    _ => {
                        let mut r = [0.1f32, 0.2, 0.3, 0.0, 0.0, -9.81, 20.0, 0.0, 30.0];
                        let used = init == Some(true);
                        let given = if g.chance(1, 3) { g.below(8) } else { 7 };
                        if !bad.is_finite() {
                            // Only readings that are used can be refused.
                            let from = if used && given == 7 { 0 } else { 3 };
                            r[from + g.below(9 - from as u32) as usize] = bad;
                        }
                        let o = |i: usize| if given >> i & 1 == 1 { Some(r[i]) } else { None };
                        let cs: Causes = [
                            &[
                                (init.is_none(), "AquaFilterNotInit"),
                                (fault.is_some(), fault.unwrap_or("")),
                                (used && given == 0, "NoGyroRawMeasurements"),
                                (used && given != 0 && given != 7, "InvalidGyroRawMeasurements"),
                            ][..],
                            &deep(bad),
                        ]
                        .concat();
                        let k = kind(&f.update(o(0), o(1), o(2), r[3], r[4], r[5], r[6], r[7], r[8]));
                        judge(g, "Aqua update", k, &cs)?;
                    }
                }
            }
            Ok(())
        }
        _ => {
            let mut f = es(Davenport::new(), "Davenport::new")?;
            let mut init = false;
            for _ in 0..1 + g.below(4) {
                if g.bool() {
                    let mut w = [g.uniform(0.01, 1.0) as f32, g.uniform(0.01, 1.0) as f32];
                    let bad = g.bool();
                    if bad {
                        w[g.below(2) as usize] = g.pick(&[0.0, -0.5, 1.5, f32::NAN, f32::INFINITY]);
                    }
                    let cs: Causes = vec![(init, "DavenportFilterAlreadyInit"), (bad, "InvalidDavenportWeights")];
                    let k = kind(&f.init(w[0], w[1], None, None));
                    init |= k.is_none();
                    judge(g, "Davenport init", k, &cs)?;
                } else {
                    let k = kind(&f.update(0.0, 0.0, -9.81, 20.0, 0.0, 30.0));
                    judge(g, "Davenport update", k, &vec![(!init, "DavenportFilterNotInit")])?;
                }
            }
            Ok(())
        }
    }
}

/// Refusals that depend on the contents: exactly singular, indefinite, asymmetric, overflowing.
fn numeric(g: &mut G) -> R {
    let n = g.size(1, 4) as usize;
    let mut m = randm(g, n, n);
    match g.below(5) {
        0 => {
            // A zero row or column.
            let k = g.below(n as u32) as usize;
            let by_row = g.bool();
            for j in 0..n {
                if by_row {
                    m.a[k][j] = 0.0;
                } else {
                    m.a[j][k] = 0.0;
                }
            }
            g.note(|| m.show());
            let mut a = mk(&m)?;
            // A null determinant may be returned rather than refused.
            let (name, k, e) = match g.below(4) {
                0 => ("lup of a singular matrix", kind(&linalg::linalg::lup(&a)), "Singular"),
                1 => ("det of a singular matrix", kind(&a.det()), "Singular"),
                2 => ("lu_crout of a singular matrix", kind(&a.lu_crout()), "Singular"),
                _ => {
                    let k = kind(&a.invert());
                    return judge(g, "invert of a singular matrix", k, &vec![(true, "NotInversible"), (true, "Singular")]);
                }
            };
            if k.is_none() && e == "Singular" {
                return Ok(());
            }
            judge(g, name, k, &vec![(true, e)])
        }
        1 => {
            // Clearly asymmetric.
            if n == 1 {
                return Ok(());
            }
            let i = g.below(n as u32) as usize;
            let j = (i + 1 + g.below(n as u32 - 1) as usize) % n;
            m.a[i][j] = (m.a[j][i] + g.pick(&[0.01, -0.01, 1.0, -20.0])) as f32 as f64;
            if (m.a[i][j] - m.a[j][i]).abs() < 0.005 {
                m.a[i][j] = -m.a[j][i]; // The element is too large for the difference.
            }
            g.note(|| m.show());
            let a = mk(&m)?;
            let (name, k) = if g.bool() { ("chol of an asymmetric matrix", kind(&a.chol())) } else { ("is_positive_definite of an asymmetric matrix", kind(&a.is_positive_definite())) };
            judge(g, name, k, &vec![(true, "NotSymetric")])
        }
        2 => {
            // Clearly negative first element, symmetric.
            for i in 0..n {
                for j in 0..i {
                    m.a[i][j] = m.a[j][i];
                }
            }
            m.a[0][0] = -g.uniform(0.5, 10.0) as f32 as f64;
            g.note(|| m.show());
            let a = mk(&m)?;
            let k = kind(&a.chol());
            judge(g, "chol of an indefinite matrix", k, &vec![(true, "NotPositiveDefinite")])
        }
        3 => {
            // Arguments of the Lyapunov equation; the second is clearly definite or clearly not.
            let c = if g.bool() { n } else { g.size(1, 4) as usize };
            let l = if g.bool() { n } else { g.size(1, 4) as usize };
            let mut q = M::zero(l, l);
            for i in 0..l {
                for j in 0..i {
                    q.a[i][j] = g.uniform(-1.0, 1.0) as f32 as f64;
                    q.a[j][i] = q.a[i][j];
                }
                q.a[i][i] = g.uniform(4.0, 10.0) as f32 as f64;
            }
            let negative = g.chance(1, 4);
            if negative {
                q.a[0][0] = -q.a[0][0];
            }
            let x = randm(g, n, c);
            g.note(|| format!("{} {}", x.show(), q.show()));
            let k = kind(&mk(&x)?.dlyap(&mk(&q)?));
            judge(g, "dlyap", k, &vec![(n != c, "NotSquare"), (negative, "NotPositiveDefinite"), (l != n || l != c, "NotSameSize")])
        }
        _ => {
            // Overflow.
            let i = g.below(n as u32) as usize;
            let j = g.below(n as u32) as usize;
            m.a[i][j] = g.pick(&[f32::MAX, -f32::MAX, 3e38]) as f64;
            let mut a = mk(&m)?;
            let b = es(a.duplicate(), "duplicate")?;
            let mut o = mk(&M::zero(n, n))?;
            es(o.set_element(i as u8, j as u8, -m.a[i][j] as f32), "set_element")?;
            let (name, k) = match g.below(5) {
                0 => ("overflowing add_in_place", kind(&a.add_in_place(&b))),
                1 => ("overflowing add_new", kind(&a.add_new(&b))),
                2 => ("overflowing sub_new", kind(&a.sub_new(&o))),
                3 => ("overflowing mul_by_scalar_in_place", kind(&a.mul_by_scalar_in_place(4.0))),
                _ => ("overflowing power_elements", kind(&a.power_elements(2.0))),
            };
            judge(g, name, k, &vec![(true, "UtilsError(Inf)")])
        }
    }
}

fn complexes(g: &mut G) -> R {
    let (x, y) = (scalar_arg(g), scalar_arg(g));
    let bare = |s: f32| [(s.is_nan(), "Nan"), (s.is_infinite(), "Inf")];
    let mut z = es(Complex::new(val(g), val(g)), "new")?;
    match g.below(6) {
        0 => judge(g, "complex new", kind(&Complex::new(x, y)), &[bare(x), bare(y)].concat()),
        1 => judge(g, "set_real_part", kind(&z.set_real_part(x)), &bare(x).to_vec()),
        2 => judge(g, "set_imaginary_part", kind(&z.set_imaginary_part(x)), &bare(x).to_vec()),
        3 => judge(g, "convert_from_polar", kind(&z.convert_from_polar(x, y)), &[bare(x), bare(y)].concat()),
        4 => {
            let o = es(Complex::new(g.pick(&[0.0f32, 5e-5, -5e-5]), g.pick(&[0.0f32, 5e-5, -5e-5])), "new")?;
            let mut r = z;
            let k = kind(&r.div(&z, &o));
            judge(g, "division by zero", k, &vec![(true, "Nan")])
        }
        _ => {
            let d = g.pick(&[0.0f32, 0.5, 10.0]);
            judge(g, "allclose", kind(&utils::utils::allclose(x, y, d)), &[bare(x), bare(y)].concat())
        }
    }
}
