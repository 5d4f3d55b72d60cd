//! C38: the bit reversal of the FFT, private and reached through a hook (built with `--cfg verif`).
use crate::engine::{Prop, G, R};
use crate::ensure;
use dsp::fft::FFT;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C38",
        quick: 9_000_000,
        thorough: 30_000_000,
        rule: "the number of bits is refused, or at least two bits are reversed and not all of them are equal",
        assumptions: &["bits of the number above the reversed ones are ignored"],
        run: c38,
    });
}

/// Reads the low `b` bits as text and reads the text backwards.
fn reversed(n: u8, b: u8) -> u8 {
    let bits: Vec<u8> = (0..b).map(|k| n / 2u8.pow(k as u32) % 2).collect();
    bits.iter().fold(0u32, |r, &x| 2 * r + x as u32) as u8
}

fn c38(g: &mut G) -> R {
    let n = g.below(256) as u8;
    let b = if g.chance(1, 8) { g.below(256) as u8 } else { g.below(9) as u8 };
    g.note(|| format!("bit reversal of {} over {} bits", n, b));
    let r = FFT::verif_bitrev(n, b);
    if b > 8 {
        g.nontrivial();
        ensure!(r.is_err(), "{} bits were accepted", b);
        return Ok(());
    }
    let low = (n as u32 % (1u32 << b)) as u8;
    if b >= 2 && low != 0 && low as u32 != (1u32 << b) - 1 {
        g.nontrivial();
    }
    let want = reversed(n, b);
    let r = match r {
        Ok(r) => r,
        Err(e) => return Err(format!("reversal of {} over {} bits refused: {:?}", n, b, e)),
    };
    ensure!(r == want, "reversal of {:08b} over {} bits is {:08b}, expected {:08b}", n, b, r, want);
    // Twice gives the number back.
    match FFT::verif_bitrev(r, b) {
        Ok(x) => ensure!(x == low, "reversing {:08b} over {} bits twice gives {:08b}", low, b, x),
        Err(e) => return Err(format!("reversal of {} over {} bits refused: {:?}", r, b, e)),
    }
    Ok(())
}
