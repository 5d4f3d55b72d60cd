//! The library as it is built by default, without its `std` feature.
use crate::engine::{Prop, G, R};
use std::sync::OnceLock;

static PARTS: OnceLock<Vec<(&'static str, fn(&mut G) -> R)>> = OnceLock::new();

pub fn register(v: &mut Vec<Prop>) {
    PARTS.get_or_init(|| v.iter().map(|p| (p.id, p.run)).collect());
    v.push(Prop {
        id: "C48",
        quick: 12_000_000,
        thorough: 240_000_000,
        rule: "the case is non-trivial by the rule of the property it is drawn from",
        assumptions: &["every other property of the library that needs no standard library is drawn alike"],
        run: c48,
    });
}

fn c48(g: &mut G) -> R {
    let parts = PARTS.get().map(|p| p.as_slice()).unwrap_or(&[]);
    let (id, run) = parts[g.below(parts.len() as u32) as usize];
    g.class(id);
    g.note(|| format!("as {}", id));
    run(g).map_err(|e| format!("without std, {}: {}", id, e))
}
