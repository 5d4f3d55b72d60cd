// C34 and C41: the numeric helpers; included where the helpers to check are in scope.
pub fn helpers(g: &mut G) -> R {
    g.nontrivial();
    let any = |g: &mut G| if g.chance(1, 6) { nonfinite(g) } else { any_finite(g) };
    match g.below(7) {
        0 => {
            let x = if g.bool() { any(g) } else { f32::from_bits(g.bits()) };
            g.note(|| format!("is_valid_value({:?})", x));
            let r = is_valid_value(x);
            let want = if x.is_nan() { Err(UtilsError::Nan) } else if x.is_infinite() { Err(UtilsError::Inf) } else { Ok(()) };
            ensure!(r == want, "is_valid_value({:?}) = {:?}", x, r);
        }
        1 | 2 => {
            let x = any(g);
            let d = if g.bool() { logmag(g, 1e-6, 10.0) as f32 } else { any_finite(g).abs() };
            // Distances around the deviation.
            let y = match g.below(3) {
                0 => any(g),
                1 => x,
                _ => {
                    let k = g.pick(&[-1.5f32, -1.0, -0.5, 0.5, 1.0, 1.5]);
                    let y = x + k * d;
                    if x.is_finite() && !y.is_finite() { x } else { y }
                }
            };
            // No distance is at most a negative deviation.
            let d = if g.chance(1, 8) { -d } else { d };
            g.note(|| format!("allclose({:?}, {:?}, {:?})", x, y, d));
            let r = allclose(x, y, d);
            if x.is_nan() || y.is_nan() || x.is_infinite() || y.is_infinite() {
                ensure!(r.is_err(), "allclose({:?}, {:?}, {:?}) = {:?}", x, y, d, r);
            } else {
                // Exact distance; rounding of the difference decides only at the boundary.
                let dist = (x as f64 - y as f64).abs();
                let slack = EPS32 * dist + 1e-45;
                if dist <= d as f64 - slack || dist == d as f64 {
                    ensure!(r == Ok(true), "allclose({:?}, {:?}, {:?}) = {:?}", x, y, d, r);
                } else if dist > d as f64 + slack {
                    ensure!(r == Ok(false), "allclose({:?}, {:?}, {:?}) = {:?}", x, y, d, r);
                }
            }
        }
        3 => {
            let (x, lo, hi) = (any_finite(g), any_finite(g), any_finite(g));
            let (lo, hi) = if lo <= hi { (lo, hi) } else { (hi, lo) };
            let x = match g.below(4) {
                0 => lo,
                1 => hi,
                _ => x,
            };
            g.note(|| format!("range {:?} {:?} {:?}", x, lo, hi));
            ensure!(in_range(x, lo, hi) == (lo <= x && x <= hi), "in_range({:?}, {:?}, {:?})", x, lo, hi);
            let w = if x < lo { lo } else if x > hi { hi } else { x };
            ensure!(clip(x, lo, hi) == w, "clip({:?}, {:?}, {:?}) = {:?}", x, lo, hi, clip(x, lo, hi));
            let n = g.pick(&[f32::NAN, -f32::NAN]);
            ensure!(!in_range(n, lo, hi), "not-a-number is in a range");
            ensure!(clip(n, lo, hi).is_nan(), "clip(not-a-number, {:?}, {:?}) = {:?}", lo, hi, clip(n, lo, hi));
        }
        4 => {
            let (x, y) = (any_finite(g), any_finite(g));
            let y = if g.chance(1, 5) { x } else { y };
            g.note(|| format!("minf/maxf {:?} {:?}", x, y));
            ensure!(minf(x, y) == if x < y { x } else { y } && maxf(x, y) == if x > y { x } else { y }, "minf/maxf({:?}, {:?}) = {:?}, {:?}", x, y, minf(x, y), maxf(x, y));
            let (i, j) = (g.bits() as i32, if g.chance(1, 4) { 0 } else { g.bits() as i32 });
            ensure!(min(i, j) == i.min(j) && max(i, j) == i.max(j), "min/max({}, {})", i, j);
            let (i, j) = (g.below(256) as u8, g.below(256) as u8);
            ensure!(min(i, j) == i.min(j) && max(i, j) == i.max(j), "min/max({}, {})", i, j);
            let (i, lo, hi) = (g.range(-300, 300), g.range(-200, 0), g.range(0, 200));
            ensure!(clip(i, lo, hi) == i.max(lo).min(hi), "clip({}, {}, {})", i, lo, hi);
            ensure!(in_range(i, lo, hi) == (i >= lo && i <= hi), "in_range({}, {}, {})", i, lo, hi);
        }
        5 => {
            let x = any_finite(g);
            g.note(|| format!("sign {:?}", x));
            let w = if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
            ensure!(Sign::sign(&x) == w, "sign({:?}) = {:?}", x, Sign::sign(&x));
            let d = x as f64;
            ensure!(Sign::sign(&d) == w as f64, "sign({:?}) = {:?}", d, Sign::sign(&d));
            let i = if g.chance(1, 4) { g.range(-2, 2) as i32 } else { g.bits() as i32 };
            ensure!(Sign::sign(&i) == i.signum(), "sign({}) = {}", i, Sign::sign(&i));
        }
        _ => {
            let n = g.below(21) as u8;
            g.note(|| format!("factorial {}", n));
            let w: u64 = (1..=n as u64).product();
            ensure!(factorial(n) == w, "factorial({}) = {}", n, factorial(n));
        }
    }
    Ok(())
}
