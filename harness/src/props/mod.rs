//! The harness entries, by property.
macro_rules! entries {
    ($(fn $n:ident() $b:block)*) => {
        $(#[no_mangle] pub extern "C" fn $n() $b)*
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
mod ctx;
mod p01;
mod p04;
mod p06;
mod p09;
mod p11;
mod p14;
mod p18;
mod p26;
pub const ALL: &[&[(&str, extern "C" fn())]] =
    &[ctx::ENTRIES, p01::ENTRIES, p04::ENTRIES, p06::ENTRIES, p09::ENTRIES, p11::ENTRIES, p14::ENTRIES, p18::ENTRIES, p26::ENTRIES];
