//! C37: what is displayed is what is stored.
use super::filters::nim;
use super::sensors::{gyr_cfg, PLAIN};
use crate::engine::{Prop, G, R};
use crate::gen::*;
use crate::{ensure, within};
use linalg::matrix::Matrix;
use linalg::vector::Vector;
use open_ahrs::ar::AR;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::sync::{Mutex, MutexGuard};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C37",
        quick: 1_200_000,
        thorough: 12_000_000,
        rule: "something initialised was displayed and it has at least two elements",
        assumptions: &["the sign of a value displayed as zero is not compared"],
        run: c37,
    });
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
}

static LOCK: Mutex<Option<File>> = Mutex::new(None);

/// Standard output is diverted to a file in memory until this is dropped.
struct Diverted<'a> {
    saved: i32,
    file: MutexGuard<'a, Option<File>>,
}

impl Diverted<'_> {
    fn start() -> Result<Self, String> {
        use std::os::fd::AsRawFd;
        let mut file = LOCK.lock().unwrap_or_else(|e| e.into_inner());
        if file.is_none() {
            let fd = unsafe { memfd_create(c"shown".as_ptr(), 1) };
            ensure!(fd >= 0, "cannot create a file in memory");
            *file = Some(unsafe { File::from_raw_fd(fd) });
        }
        let f = file.as_mut().unwrap();
        es(f.set_len(0), "set_len")?;
        es(f.seek(SeekFrom::Start(0)), "seek")?;
        es(std::io::stdout().flush(), "flush")?;
        let fd = f.as_raw_fd();
        let saved = unsafe { dup(1) };
        ensure!(saved >= 0, "cannot save standard output");
        let d = Diverted { saved, file };
        ensure!(unsafe { dup2(fd, 1) } == 1, "cannot divert standard output");
        Ok(d)
    }

    fn text(mut self) -> Result<String, String> {
        es(std::io::stdout().flush(), "flush")?;
        let f = self.file.as_mut().unwrap();
        es(f.seek(SeekFrom::Start(0)), "seek")?;
        let mut s = String::new();
        es(f.read_to_string(&mut s), "read")?;
        Ok(s)
    }
}

impl Drop for Diverted<'_> {
    fn drop(&mut self) {
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(self.saved, 1);
            close(self.saved);
        }
    }
}

/// One line per row, the elements in order, three decimals each, and nothing else but blank lines at the end.
fn compare(text: &str, rows: &[Vec<f32>]) -> R {
    let mut lines: Vec<&str> = text.lines().collect();
    while lines.last().map(|l| l.trim().is_empty()).unwrap_or(false) {
        lines.pop();
    }
    ensure!(lines.len() == rows.len(), "{} lines are displayed for {} rows", lines.len(), rows.len());
    ensure!(text.ends_with("\n\n") || rows.is_empty(), "no blank line follows");
    for (i, (l, r)) in lines.iter().zip(rows).enumerate() {
        let shown: Vec<&str> = l.split_whitespace().collect();
        ensure!(shown.len() == r.len(), "row {}: {} elements are displayed, there are {}", i, shown.len(), r.len());
        for (j, (s, x)) in shown.iter().zip(r).enumerate() {
            let y: f64 = es(s.parse(), "not a number")?;
            ensure!(s.split('.').nth(1).map(|d| d.len()) == Some(3), "element ({}, {}) is displayed as {}", i, j, s);
            let x = *x as f64;
            within!((y - x).abs(), 0.0005 + 1e-6 + 1e-12 * x.abs(), "element ({}, {}) is {} and displayed as {}", i, j, x, s);
        }
    }
    Ok(())
}

fn show<E: std::fmt::Debug>(g: &mut G, rows: &[Vec<f32>], f: impl FnOnce() -> Result<(), E>) -> R {
    let d = Diverted::start()?;
    let r = f();
    let text = d.text()?;
    g.note(|| format!("stored {:?}, displayed {:?}", rows, text));
    ensure!(r.is_ok() || rows.is_empty(), "display refused with {:?}", r.err());
    compare(&text, rows)
}

fn c37(g: &mut G) -> R {
    match g.below(5) {
        0 | 1 => {
            if g.chance(1, 20) {
                return show(g, &[], || Matrix::new().print());
            }
            let (m, n) = (g.size(1, 4), g.size(1, 4));
            let mut a = Matrix::new();
            es(a.init(m, n), "init")?;
            let mut rows = vec![vec![0.0f32; n as usize]; m as usize];
            for i in 0..m {
                for j in 0..n {
                    let x = element(g);
                    es(a.set_element(i, j, x), "set_element")?;
                    rows[i as usize][j as usize] = x;
                }
            }
            if m * n > 1 {
                g.nontrivial();
            }
            show(g, &rows, || a.print())
        }
        2 | 3 => {
            if g.chance(1, 20) {
                return show(g, &[], || Vector::<f32>::new().print());
            }
            let l: Vec<f32> = (0..g.size(1, 4)).map(|_| element(g)).collect();
            let v = mkv(&l)?;
            if l.len() > 1 {
                g.nontrivial();
            }
            let rows: Vec<Vec<f32>> = l.iter().map(|x| vec![*x]).collect();
            show(g, &rows, || v.print())
        }
        _ => {
            let mut f = es(AR::new(), "new")?;
            if g.chance(1, 20) {
                let d = Diverted::start()?;
                let r = f.print_attitude();
                let text = d.text()?;
                ensure!(r.is_err(), "the attitude of a filter that is not initialised is displayed");
                return compare(&text, &[]);
            }
            let q = unitq(g);
            es(f.init(q[0], q[1], q[2], q[3], &gyr_cfg(&PLAIN), 0.01, nim(g.below(3)), 2), "init")?;
            for _ in 0..g.below(4) {
                es(f.update(g.uniform(-5.0, 5.0) as f32, g.uniform(-5.0, 5.0) as f32, g.uniform(-5.0, 5.0) as f32), "update")?;
            }
            let rows: Vec<Vec<f32>> = rdv(&es(f.get_attitude(), "get_attitude")?)?.iter().map(|x| vec![*x as f32]).collect();
            g.nontrivial();
            show(g, &rows, || f.print_attitude())
        }
    }
}

fn element(g: &mut G) -> f32 {
    match g.below(4) {
        0 => any_finite(g),
        1 => g.range(-3000, 3000) as f32 / 1000.0,
        2 => g.uniform(-0.01, 0.01) as f32,
        _ => val(g),
    }
}
