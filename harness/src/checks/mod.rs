use crate::engine::Prop;

mod arith;
mod decomp;
mod errors;
mod filters;
mod motion;
#[cfg(verif)]
mod hooked;
#[cfg(not(feature = "std"))]
mod plain;
#[cfg(feature = "std")]
mod print;
#[cfg(prototype)]
mod prototype;
mod quat;
mod sensors;
mod small;
mod storage;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    storage::register(&mut v);
    arith::register(&mut v);
    decomp::register(&mut v);
    quat::register(&mut v);
    sensors::register(&mut v);
    filters::register(&mut v);
    motion::register(&mut v);
    small::register(&mut v);
    errors::register(&mut v);
    #[cfg(feature = "std")]
    print::register(&mut v);
    #[cfg(verif)]
    hooked::register(&mut v);
    #[cfg(prototype)]
    prototype::register(&mut v);
    #[cfg(not(feature = "std"))]
    plain::register(&mut v);
    v.sort_by_key(|p| p.id);
    v
}
